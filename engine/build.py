"""Compile /repo/src (current working tree) and the specification files to one LLVM IR module."""
import os, subprocess, sys, glob, hashlib, concurrent.futures as cf

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# need the patched librtmp of the empty submodule: do not compile in this sandbox (same list as /opt/vp's build)
SKIP = {'sps_avformat_librtmp.cpp', 'sps_avformat_rtmpdec.cpp', 'sps_avformat_rtmpenc.cpp', 'sps_install_avformat.cpp',
        'sps_install_url_protocols.cpp', 'sps_io_url_rtmp.cpp', 'sps_io_url_rtmp_ffmpeg.cpp', 'sps_rtmp_module.cpp',
        'sps_rtmp_server.cpp', 'sps_rtmp_server_handler.cpp', 'sps_rtmp_stream_handler.cpp', 'sps_install.cpp',
        'sps_install_modules.cpp', 'sps_main_sps.cpp'}
HDR = '''#ifndef SPS_AUTO_HEADER
#define SPS_AUTO_HEADER
#define GIT_VERSION "verif"
#define GIT_BRANCH  "verif"
#define SRT_ENABLED
#define OPENSSL_ENABLED
#define FFMPEG_ENABLED
#endif
'''


class BuildError(Exception):
    pass


def includes(scratch):
    d = os.path.join(scratch, 'inc')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'sps_auto_header.hpp'), 'w') as f:
        f.write(HDR)
    # std::string's member functions are verified from their source instead of being external
    with open(os.path.join(d, 'vp_noextern.hpp'), 'w') as f:
        f.write('#include <bits/c++config.h>\n#undef _GLIBCXX_EXTERN_TEMPLATE\n#define _GLIBCXX_EXTERN_TEMPLATE 0\n')
    inc = ['-I' + d, '-include', os.path.join(d, 'vp_noextern.hpp')]
    r3 = REPO + '/3rdparty/'
    for x in ('state-threads', 'srt', 'gtest/googletest/include', 'http-parser', 'rtmpdump', 'rtmpdump/librtmp'):
        inc.append('-I' + r3 + x)
    inc.append('-I' + REPO + '/app')
    for root, ds, fs in sorted(os.walk(REPO + '/src')):
        inc.append('-I' + root)
    inc += ['-isystem', '/opt/vp/compat', '-I' + VERIF + '/spec']
    return inc


def sources():
    out = []
    for root, ds, fs in os.walk(REPO + '/src'):
        for f in sorted(fs):
            if f.endswith('.cpp') and f not in SKIP:
                out.append(os.path.join(root, f))
    return sorted(out)


CFLAGS = ['-w', '-std=gnu++14', '-O0', '-Xclang', '-disable-O0-optnone', '-fwrapv', '-fno-delete-null-pointer-checks',
          '-gline-tables-only', '-fno-discard-value-names', '-fno-access-control', '-c', '-emit-llvm']


def run(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    return p


def compile_all(scratch, specs, jobs=8):
    inc = includes(scratch)
    srcs = sources()
    objs = []

    def one(src, out, extra):
        p = run(['clang++'] + CFLAGS + extra + inc + [src, '-o', out])
        if p.returncode:
            raise BuildError('%s: %s' % (src, p.stderr[-1500:]))
        return out
    with cf.ThreadPoolExecutor(jobs) as ex:
        fut = []
        for i, s in enumerate(specs):
            fut.append(ex.submit(one, s, '%s/spec%d.bc' % (scratch, i), []))
        for i, s in enumerate(srcs):
            fut.append(ex.submit(one, s, '%s/src%d.bc' % (scratch, i), []))
        objs = [f.result() for f in fut]
    allbc = scratch + '/all.bc'
    p = run(['llvm-link', '-o', allbc] + objs)
    if p.returncode:
        raise BuildError(p.stderr[-1500:])
    ll = scratch + '/all.ll'
    p = run(['opt', '-S', '-passes=lowerinvoke,function(mem2reg,simplifycfg)', allbc, '-o', ll])
    if p.returncode:
        raise BuildError(p.stderr[-1500:])
    for o in objs + [allbc]:
        os.unlink(o)
    return ll
