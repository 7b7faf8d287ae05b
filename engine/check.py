#!/usr/bin/env python3
"""Deductive check of one property:  check.py --property C01 [--tier quick|thorough]

exit 0  every obligation discharged (or: undecidable parts passed the bounded stand-in, labelled bounded in the evidence)
exit 1  a named obligation fails: VIOLATION line
exit 2  the check itself could not run (code or specification does not compile, ...)
"""
import sys, os, re, json, time, tempfile, shutil, argparse, multiprocessing as mp, subprocess, traceback, signal, glob
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import ir, build, sym, z3

VERIF = os.path.dirname(HERE)
MOD = None


def parse_specs():
    """directives of all spec files: contracts and harnesses"""
    contracts, harnesses = {}, {}
    for path in sorted(glob.glob(VERIF + '/spec/*.cpp')):
        if path.endswith('replay_rt.cpp'):
            continue
        for ln in open(path):
            m = re.match(r'^//@ contract (\w+) for (.*\S)\s*$', ln)
            if m:
                contracts[m.group(1)] = (m.group(2), path)
            m = re.match(r'^//@ harness (\w+)(.*)$', ln)
            if m:
                d = dict(name=m.group(1), file=path, prop=[], uses=[], inv=[], uinv=[], unroll='40', shards='1',
                         tier='quick', covers=[], timeout='30', bmc='6', merge='pure', about='', cut='', tmpl='all', peel='0', cutfn='', lia='1500')
                rest = m.group(2)
                ab = re.search(r'about="([^"]*)"', rest)
                if ab:
                    d['about'] = ab.group(1)
                    rest = rest.replace(ab.group(0), '')
                for kv in rest.split():
                    k, v = kv.split('=', 1)
                    if k not in d:
                        raise SystemExit('bad directive: ' + ln)
                    d[k] = v.split(',') if isinstance(d[k], list) else v
                harnesses[d['name']] = d
    return contracts, harnesses


def run_harness(args):
    """one harness (one shard) in its own process"""
    h, contracts, shard, mode, deadline = args
    t0 = time.time()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    z3.set_param('memory_max_size', 6000)
    cut = set()
    res = None
    for attempt in range(8):
        opts = dict(unroll=int(h['unroll']), timeout_ms=int(h['timeout']) * 1000, deadline=deadline, cut=cut,
                    merge=h['merge'] if h['merge'] != 'none' else None)
        opts['eager'] = h['cut'] == 'always'
        opts.update(lia_ms=int(h['lia']), tmpl=h['tmpl'], cutfn=h['cutfn'], peel=int(h['peel']))
        if mode == 'bmc':
            opts.update(bmc=True, eager=False, cutfn='', peel=0, inline_all=True, unroll=int(h['bmc']), cut=set())
        E = sym.Engine(MOD, opts)
        E.contract_fns = {c: t for c, (t, p) in contracts.items()}
        E.contracts = {contracts[c][0]: c for c in h['uses']}
        E.inv_nullary = list(h['inv'])
        E.inv_unary = list(h['uinv'])
        E.shard = shard
        st = sym.State()
        status, note = 'proved', ''
        outs = []
        try:
            outs = E.call(st, '@' + h['name'], [])
        except sym.Infeasible:
            pass
        except sym.LoopHit as e:
            key = (e.fn, e.hdr)
            if key in cut or h['cut'] == 'never':
                status, note = 'unsupported', 'loop not fully unrolled: %s' % (MOD.dem.get(e.fn, e.fn))
            else:
                cut = cut | {key}
                continue
        except sym.Unsupported as e:
            if os.environ.get('VDEBUG'):
                traceback.print_exc()
            status, note = 'unsupported', '%s [%s]' % (e, ' < '.join('%s:%s' % tuple(x) for x in reversed(E.callstack[-5:])) or E.last_where)
        except sym.Deadline:
            status, note = 'timeout', 'time budget used up'
        except z3.Z3Exception as e:
            if os.environ.get('VDEBUG'):
                traceback.print_exc()
            status, note = 'timeout', 'solver: %s [%s]' % (e, ' < '.join('%s:%s' % tuple(x) for x in reversed(E.callstack[-5:])))
        except RecursionError:
            status, note = 'unsupported', 'recursion depth'
        break
    else:
        status, note = 'unsupported', 'too many loops to cut'
    sat = [f for f in E.fails if f.status == 'sat']
    unk = [f for f in E.fails if f.status != 'sat']
    if sat:
        status = 'failed'
    elif unk and status == 'proved':
        status, note = 'timeout', 'solver gave no answer for ' + unk[0].key()
    elif status == 'proved':
        missing = [c for c in h['covers'] if c not in E.covered]
        if mode != 'bmc' and (not outs or missing) and shard in (0, None):
            status, note = ('failed', 'vacuous: ' + (','.join(missing) or 'no path reaches the end of the harness'))
            sat = [sym.Failure('cover', ','.join(missing) or 'end-of-harness', h['name'], 'sat')]
    if mode == 'bmc' and status == 'proved' and E.unwound:
        note = 'bounded: loops unrolled %s times' % h['bmc']
    return dict(harness=h['name'], shard=shard, mode=mode, status=status, note=note, obl=E.obl, discharged=E.discharged,
                trivial=E.trivial, kinds=E.obl_kinds, names=E.obl_names, tsolver=E.tsolver, nchecks=E.nchecks,
                hooks={k: sorted(v)[:12] for k, v in E.used_hooks.items()}, executed=sorted(E.executed),
                applied=E.applied, covered=sorted(E.covered), paths=len(outs),
                loops=[dict(function=k[0], block=k[1], kept=list(v['kept']), templates=v.get('templates', 0))
                       for k, v in E.loop_report.items()],
                fails=[dict(kind=f.kind, name=f.name, where=f.where, trace=f.trace) for f in sat][:40],
                unknown=[dict(kind=f.kind, name=f.name, where=f.where) for f in unk][:10],
                wall=time.time() - t0)


def native_build(scratch, specs):
    """the same harnesses against the natively compiled code (g++, AddressSanitizer)"""
    import concurrent.futures as cf
    d = os.path.join(scratch, 'native')
    os.makedirs(d, exist_ok=True)
    inc = build.includes(scratch)
    flags = ['-w', '-std=gnu++14', '-O0', '-g1', '-fsanitize=address', '-fno-access-control', '-c']
    srcs = [(s, []) for s in build.sources()] + [(s, []) for s in specs] + [(VERIF + '/spec/replay_rt.cpp', [])]

    def one(i, s):
        o = '%s/%d.o' % (d, i)
        p = build.run(['g++'] + flags + inc + [s, '-o', o])
        if p.returncode:
            raise build.BuildError(p.stderr[-1500:])
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda t: one(*t), [(i, s) for i, (s, _) in enumerate(srcs)]))
    exe = d + '/replay'
    libs = ['-Wl,-Bstatic', '-lst', '-lhttp_parser', '-Wl,-Bdynamic', '-lrtmp', '-lpthread', '-lsrt', '-lssl', '-lcrypto',
            '-lavformat', '-lavcodec', '-lavdevice', '-lavfilter', '-lavutil', '-lswresample', '-lswscale', '-ldl']
    p = build.run(['g++', '-rdynamic', '-fsanitize=address', '-o', exe] + objs + libs)
    if p.returncode:
        raise build.BuildError(p.stderr[-3000:])
    for o in objs:
        os.unlink(o)
    return exe


ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=1:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=165')


def write_trace(path, trace):
    with open(path, 'w') as f:
        for e in trace:
            if e[0] == 'int':
                f.write('int %s %d\n' % (e[1], e[2]))
            else:
                if e[3] is None:
                    return False
                f.write('buf %s %d %s\n' % (e[1], e[2], e[3]))
    return True


def native_replay(exe, harness, path, cwd):
    try:
        p = subprocess.run([exe, 'replay', path, harness], capture_output=True, text=True, timeout=60, env=ENV, cwd=cwd,
                           errors='replace')
    except subprocess.TimeoutExpired:
        return 1, 'does not terminate'
    return p.returncode, (p.stdout[-1500:] + p.stderr[-3000:])


def native_search(exe, harness, secs, seed, scratch, procs=8):
    ps = []
    for i in range(procs):
        out = '%s/found.%s.%d' % (scratch, harness, i)
        ps.append((out, subprocess.Popen([exe, 'search', harness, str(seed * 100 + i), str(secs), out], stdout=subprocess.PIPE,
                                         stderr=subprocess.STDOUT, text=True, env=ENV, errors='replace', cwd=scratch)))
    found, stats = None, [0, 0]
    for out, p in ps:
        try:
            o, _ = p.communicate(timeout=secs + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
        m = re.search(r'searched (\d+) (\d+)', o or '')
        if m:
            stats[0] += int(m.group(1))
            stats[1] += int(m.group(2))
        if p.returncode == 1 and os.path.exists(out) and found is None:
            found = (out, o[-3000:])
    return found, stats


def main():
    global MOD
    ap = argparse.ArgumentParser()
    ap.add_argument('--property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--harness', help='only this harness (development)')
    ap.add_argument('--replay', help='re-run a replay file written by a violation')
    ap.add_argument('--no-fallback', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    contracts, harnesses = parse_specs()
    scratch = tempfile.mkdtemp(prefix='spsverif.')
    try:
        if a.replay:
            return do_replay(a.replay, harnesses, scratch)
        hs = [h for h in harnesses.values() if (a.property in h['prop'] if a.property else h['name'] == a.harness)]
        if a.harness:
            hs = [harnesses[a.harness]]
        hs = [h for h in hs if h['tier'] == 'quick' or a.tier == 'thorough']
        if not hs:
            print('no harness for', a.property)
            return 2
        return decide(a, hs, contracts, harnesses, scratch, seed, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def do_replay(path, harnesses, scratch):
    txt = open(path).read()
    m = re.search(r'^# harness (\w+)$', txt, re.M)
    h = harnesses[m.group(1)]
    body = '\n'.join(l for l in txt.split('\n') if re.match(r'^(int|buf) ', l))
    if not body:
        print('no recorded input in', path)
        return 2
    p = scratch + '/in'
    open(p, 'w').write(body + '\n')
    exe = native_build(scratch, spec_files([h], {}))
    rc, out = native_replay(exe, h['name'], p, scratch)
    print(out)
    return rc


def spec_files(hs, contracts):
    """every spec file is always compiled: harnesses may share contracts"""
    return [p for p in sorted(glob.glob(VERIF + '/spec/*.cpp')) if not p.endswith('replay_rt.cpp')] if ALLSPECS else \
        sorted({h['file'] for h in hs} | {contracts[c][1] for h in hs for c in h['uses'] if c in contracts} |
               {VERIF + '/spec/' + x for h in hs for x in includes_of(h['file'])})


ALLSPECS = False


def includes_of(path):
    out = []
    for ln in open(path):
        m = re.match(r'^//@ link (\S+)', ln)
        if m:
            out.append(m.group(1))
    return out


def decide(a, hs, contracts, harnesses, scratch, seed, t0):
    global MOD
    pid = a.property or hs[0]['prop'][0]
    thorough = a.tier == 'thorough'
    budget = 3000 if thorough else 480
    specs = spec_files(hs, contracts)
    try:
        ll = build.compile_all(scratch, specs)
        MOD = ir.Module(open(ll).read())
        os.unlink(ll)
    except build.BuildError as e:
        print('build failed:', e)
        return 2
    tb = time.time() - t0
    for h in hs:
        for c in h['uses']:
            if c not in contracts:
                raise SystemExit('unknown contract ' + c)
    jobs = []
    deadline = time.time() + budget
    for h in hs:
        n = int(h['shards'])
        for s in range(n):
            jobs.append((h, contracts, s if n > 1 else None, 'proof', deadline))
    jobs.sort(key=lambda j: -int(j[0]['shards']))
    ctx = mp.get_context('fork')
    results = []
    with ctx.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(run_harness, jobs):
            results.append(r)
            if a.v:
                print('%-34s %-5s %-11s obl %6d/%6d  checks %5d  solver %6.1fs  wall %6.1fs  paths %d %s' % (
                    r['harness'], r['shard'], r['status'], r['discharged'], r['obl'], r['nchecks'], r['tsolver'],
                    r['wall'], r['paths'], r['note']))
                for f in r['fails'][:6]:
                    print('    FAIL %s:%s @ %s' % (f['kind'], f['name'], f['where']))
                    if f['trace'] and os.environ.get('VTRACE'):
                        print('      ', f['trace'])
                for l in r['loops']:
                    print('    loop %s %s kept %s (+%d templates)' % (l['function'], l['block'], l['kept'], l['templates']))
                sys.stdout.flush()
    bad = [r for r in results if r['status'] != 'proved']
    standin = []
    violation = None
    if bad and not a.no_fallback:
        violation, standin = fallback(a, hs, contracts, harnesses, bad, scratch, seed, specs, pid, t0)
    write_evidence(pid, a.tier, seed, hs, contracts, results, standin, violation, time.time() - t0, tb)
    if violation:
        kind, path = violation
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if kind == 'confirmed' else ' no-failing-input-found'))
        return 1
    if bad:
        for r in bad:
            print('%s: %s (%s)' % (r['harness'], r['status'], r['note']))
        if a.no_fallback:
            return 3
        print('property=%s: not proved on this tree; bounded stand-in passed (see evidence)' % pid)
        return 0
    print('property=%s: %d obligations, all discharged (%d harness runs, %.1fs)' % (
        pid, sum(r['obl'] for r in results), len(results), time.time() - t0))
    return 0


def fallback(a, hs, contracts, harnesses, bad, scratch, seed, specs, pid, t0):
    """an obligation failed or could not be decided: look for a concrete failing input of the real code"""
    standin = []
    rdir = VERIF + '/evidence'
    os.makedirs(rdir, exist_ok=True)
    rpath = '%s/%s.replay.txt' % (rdir, pid)
    exe = native_build(scratch, specs)

    def header(r, f, kind):
        s = '# property %s\n# harness %s\n# verdict %s\n' % (pid, r['harness'], kind)
        if f:
            s += '# failed obligation %s:%s\n# at %s\n' % (f['kind'], f['name'], f['where'])
        s += '# verifier: status %s, %d of %d obligations discharged; %s\n' % (r['status'], r['discharged'], r['obl'], r['note'])
        for g in r['fails'][:10]:
            s += '#   failed: %s:%s @ %s\n' % (g['kind'], g['name'], g['where'])
        s += '# replay with: python3-vt engine/check.py --replay %s\n' % rpath
        return s

    def confirmed(r, f, inp, out):
        with open(rpath, 'w') as fo:
            fo.write(header(r, f, 'counterexample replayed on the real code'))
            fo.write(''.join('# out: %s\n' % l for l in out.split('\n')[:40]))
            fo.write(open(inp).read())
        return ('confirmed', rpath), standin

    byh = {}
    for r in bad:
        byh.setdefault(r['harness'], []).append(r)
    # 1. replay the proof's own counterexamples
    k = 0
    for r in bad:
        for f in r['fails'][:12]:
            if f.get('trace'):
                k += 1
                p = '%s/cex%d' % (scratch, k)
                if write_trace(p, f['trace']):
                    rc, out = native_replay(exe, r['harness'], p, scratch)
                    if a.v:
                        print('replay', r['harness'], f['kind'], f['name'], '->', rc, out[:200].replace('\n', ' | '))
                    if rc == 1:
                        return confirmed(r, f, p, out)
    # 2. bounded symbolic search from the initial state, callees inlined
    jobs = []
    dl = time.time() + (400 if a.tier == 'thorough' else 110)
    for name in byh:
        h = harnesses[name]
        for s in sorted({r['shard'] for r in byh[name]}, key=lambda x: (x is None, x)):
            jobs.append((h, contracts, s, 'bmc', dl))
    ctx = mp.get_context('fork')
    with ctx.Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(run_harness, jobs):
            if a.v:
                print('bmc', r['harness'], r['shard'], r['status'], r['note'], len(r['fails']), '%.1fs' % r['wall'])
            standin.append(dict(harness=r['harness'], method='bounded symbolic execution', bound='loops unrolled %s times' % harnesses[r['harness']]['bmc'],
                                status=r['status'], note=r['note'], obligations=r['obl'], discharged=r['discharged']))
            for f in r['fails']:
                if f.get('trace'):
                    k += 1
                    p = '%s/cex%d' % (scratch, k)
                    if write_trace(p, f['trace']):
                        rc, out = native_replay(exe, r['harness'], p, scratch)
                        if a.v:
                            print('replay', r['harness'], f['kind'], f['name'], '->', rc, out[:200].replace('\n', ' | '))
                        if rc == 1:
                            pool.terminate()
                            return confirmed(r, f, p, out)
    # 3. randomised search with the same harness
    left = max(1, len(byh))
    for name in byh:
        secs = max(6, (60 if a.tier == 'quick' else 300) // left)
        found, stats = native_search(exe, name, secs, seed, scratch)
        standin.append(dict(harness=name, method='randomised native execution of the contract', bound='%d runs, %d inside the preconditions' % tuple(stats),
                            status='violated' if found else 'held'))
        if a.v:
            print('search', name, stats, bool(found))
        if found:
            inp, out = found
            rc, out2 = native_replay(exe, name, inp, scratch)
            if rc == 1:
                return confirmed(byh[name][0], byh[name][0]['fails'][0] if byh[name][0]['fails'] else None, inp, out2)
    failed = [r for r in bad if r['status'] == 'failed']
    if failed:
        r = failed[0]
        with open(rpath, 'w') as fo:
            fo.write(header(r, r['fails'][0], 'obligation fails; no failing input found'))
            for r2 in failed:
                for f in r2['fails']:
                    fo.write('# %s: %s:%s @ %s\n#   model: %s\n' % (r2['harness'], f['kind'], f['name'], f['where'], json.dumps(f['trace'])[:2000]))
            fo.write('# solver: %s\n' % z3.get_full_version())
        return ('unconfirmed', rpath), standin
    return None, standin


TRUST = ['clang 18 front end, llvm-link, opt (lowerinvoke, mem2reg, simplifycfg): the IR is a faithful translation of the C++ source',
         'engine/ (IR reader, symbolic executor, obligation generator, loop-invariant engine)',
         'Z3 %s' % z3.get_version_string()]
ASSUME = ['exceptional unwinding is not modelled: a throw or abort is an obligation failure, allocation never fails',
          'distinct allocations never overlap; pointers carry provenance',
          'evaluation order chosen by clang 18 (the replay uses g++)',
          'termination is not proved']


def write_evidence(pid, tier, seed, hs, contracts, results, standin, violation, wall, tb):
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    proved = [r for r in results if r['status'] == 'proved']
    kinds, names, hooks, executed, applied, loops = {}, {}, {}, set(), {}, []
    for r in results:
        for k, v in r['kinds'].items():
            kinds[k] = kinds.get(k, 0) + v
        for k, v in r['names'].items():
            names[k] = names.get(k, 0) + v
        for k, v in r['hooks'].items():
            hooks.setdefault(k, set()).update(v)
        executed.update(r['executed'])
        for k, v in r['applied'].items():
            applied[k] = applied.get(k, 0) + v
        loops += r['loops']
    repo_fns = sorted(x for x in executed if x.startswith('sps::') and '{lambda' not in x)
    cov = dict(obligations=sum(r['obl'] for r in results), discharged=sum(r['discharged'] for r in results),
               checker_cmd='python3-vt engine/check.py --property %s --tier %s' % (pid, tier), trusted_base=TRUST,
               discharged_by=dict(z3=sum(r['discharged'] - r['trivial'] for r in results),
                                  constant_folding=sum(r['trivial'] for r in results)),
               obligations_by_kind=kinds, named_obligations=names,
               functions_whose_body_was_verified=repo_fns, contracts_applied_at_call_sites=applied,
               loops_with_inductive_invariants=loops,
               harnesses=[dict(name=r['harness'], shard=r['shard'], status=r['status'], note=r['note'], paths=r['paths'],
                               obligations=r['obl'], solver_s=round(r['tsolver'], 2), covers=r['covered']) for r in results],
               solver_queries=sum(r['nchecks'] for r in results), solver_s=round(sum(r['tsolver'] for r in results), 2),
               build_s=round(tb, 1))
    if standin:
        cov['bounded_standins'] = standin
    level = 'proof' if len(proved) == len(results) else 'other'
    if level == 'other':
        cov['explanation'] = 'not all obligations were discharged on this tree; bounded stand-ins listed'
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=ASSUME + ['%s: %s' % (k, ', '.join(sorted(v)[:8])) for k, v in sorted(hooks.items())],
              wall_s=round(wall, 2), violations=1 if violation else 0)
    with open('%s/evidence/%s.json' % (VERIF, pid), 'w') as f:
        json.dump(ev, f, indent=1, default=str)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
