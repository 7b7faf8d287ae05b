prop('C01', 'Bit reader returns exactly the bits of its buffer and never leaves it',
     'Reading n bits from a bit reader yields the next n bits of its buffer, most significant bit first, at any bit position, and advances by exactly n; skipping whole bytes advances by exactly that many bytes and keeps the bit offset inside the byte. The reported number of remaining bits is exact after any sequence of reads and skips, a request for availability succeeds exactly when that many bits or bytes are left (for every requested count), and a skip beyond the end never makes more data available than the buffer holds.',
     ['inputs', 'histories'], 'every buffer, every position inside it, every width up to 32 bits and every byte count',
     'The tests read one 13-byte buffer at a few hand-picked widths; they never skip at an unaligned position, never ask for huge counts and never go past the end.',
     ['src/io/sps_io_bits.cpp', 'src/io/sps_io_bits.hpp'],
     [('BitContext::read_bits / next', 'src/io/sps_io_bits.cpp'), ('BitContext::acquire / acquire_bits / size_bits', 'src/io/sps_io_bits.cpp'), ('BitContext::skip_read_bytes', 'src/io/sps_io_bits.cpp')])
prop('C02', 'Bit writer stores exactly the given bits; write then read is the identity',
     'Writing an n-bit value (n up to 64) with a bit writer stores exactly its n low bits, most significant first, at the write position whatever the buffer held before, and changes no bit before the position and no byte behind the last one written. Reading back a sequence of written fields with the same widths yields the written values.',
     ['inputs', 'histories'], 'every buffer content, every position, every width 1..64, every value',
     'The tests write one fixed byte sequence into one buffer.',
     ['src/io/sps_io_bits.cpp'], [('BitContext::write_bits / next_write', 'src/io/sps_io_bits.cpp'), ('BitContext::write_bytes / skip_write_bytes', 'src/io/sps_io_bits.cpp')])
prop('C03', 'Buffered byte reader delivers the stream, every byte once and in order',
     'A buffered reader over any byte source hands out the bytes of the source in order, none lost, duplicated or altered, however the source splits them into pieces and wherever the buffer wraps; a request for n bytes succeeds only with n bytes available, fails only if n cannot fit or the source fails, and never writes outside the buffer. A buffer that is not rewindable is never moved, and the integer readers and writers use big-endian order and touch exactly their own bytes.',
     ['inputs', 'histories', 'fault_sequences'], 'every buffer size and fill state, every split of the source into pieces, every source failure point, every request size',
     'The tests use one in-memory source that always delivers everything asked for and a handful of sizes.',
     ['src/io/sps_io_bytes.cpp', 'src/io/sps_io_bytes.hpp'],
     [('BytesReader::acquire with AVBuffer::rewind', 'src/io/sps_io_bytes.cpp'), ('BytesReader::read_*', 'src/io/sps_io_bytes.cpp'), ('BytesWriter::write_*', 'src/io/sps_io_bytes.cpp')])
prop('C04', 'Media packets own a faithful copy of their payload; classification is exact',
     'A packet created from a buffer holds a private copy of exactly the given bytes with its reserved head room in front, carries the given stream type, packet type, timestamps, flags and codec unchanged, and never aliases the source. Appending keeps what is there and adds the new bytes directly behind it, never beyond the capacity; and a packet is a key frame, sequence header, script or PAT/PMT packet exactly according to its stream type, packet type and frame-type nibble.',
     ['inputs'], 'every payload, size, head room, field value and flag combination',
     'Only one cache test creates packets, with short strings and default fields.',
     ['src/avformat/sps_avformat_packet.cpp', 'src/cache/sps_cache_buffer.cpp', 'src/cache/sps_cache_buffer.hpp'],
     [('CharBuffer constructors, append, skip', 'src/cache/sps_cache_buffer.cpp'), ('AVPacket::create / create_empty_cap', 'src/avformat/sps_avformat_packet.cpp'), ('AVPacket::is_*', 'src/avformat/sps_avformat_packet.cpp')])
prop('C05', 'FLV muxer writes exactly the FLV tag of every packet',
     'For every audio, video or script packet, whatever its timestamps, payload and codec fields, the FLV muxer writes the previous-tag size, an 11-byte tag header (kind, 24-bit data size, 24+8 bit timestamp, stream id), the codec header bytes (audio: flags and AAC packet type; video: flags, and unless it is an info frame, the AVC packet type and the 24-bit composition time pts-dts) and then the payload unchanged, and nothing else; the next tag announces the size of the last tag written. Filtered kinds produce no output and leave that state alone, unknown kinds are refused, success is reported iff the writer took everything, and the file header announces exactly the kinds that are not filtered.',
     ['inputs', 'histories', 'fault_sequences'], 'every packet of the FLV kinds, every muxer state and filter setting, every failure point of the writer',
     'No test writes FLV; ordinary players mask wrong previous sizes, timestamps past 24 bits and negative composition times.',
     ['src/avformat/sps_avformat_flvenc.cpp', 'src/avformat/sps_avformat_flv.hpp'],
     [('FlvAVMuxer::write_packet / write_message', 'src/avformat/sps_avformat_flvenc.cpp'), ('FlvAVMuxer::write_header', 'src/avformat/sps_avformat_flvenc.cpp')])
prop('C06', 'FLV demuxer reconstructs every tag, refuses malformed input, never over-reads',
     'For every byte stream, the FLV demuxer turns each complete audio, video or script tag into one packet with the kind, 32-bit timestamp (dts), composition time (pts = dts + signed 24-bit offset), codec flags, AVC/AAC packet type and payload that the tag holds, consuming exactly that tag, so that demuxing what the muxer wrote yields the same packets; a tag too small for its codec header or of unknown kind, a wrong signature, and a source that fails in the middle are reported as errors, never as a packet, and no byte outside the received data is read.',
     ['inputs', 'fault_sequences'], 'every byte stream, every tag size, every failure point of the source',
     'No test reads FLV; malformed, truncated or negative-offset tags come from hostile or unusual publishers.',
     ['src/avformat/sps_avformat_flvdec.cpp', 'src/avformat/sps_avformat_flv.hpp'],
     [('FlvAVDemuxer::read_packet / read_message', 'src/avformat/sps_avformat_flvdec.cpp'), ('FlvAVDemuxer::read_header / probe', 'src/avformat/sps_avformat_flvdec.cpp')])
prop('C14', 'A joining viewer gets the latest headers and then the current group, in order',
     'After any history of published packets, the cache of a live stream holds exactly the latest script, the latest audio and video sequence headers, and the packets since the last key frame (beginning with that key frame, nothing before the first one); for a transport stream the latest PAT, the latest PMT and the packets since the last payload unit start. A joining viewer receives headers first and then the cached packets in publishing order, the publisher\'s cache is not changed by joins, and every packet put is published to the current viewers exactly once and numbered in order.',
     ['inputs', 'histories'], 'every packet history of any length, every mixture of packet kinds, every join point',
     'The cache test puts a few fixed packets in one order; the state after an arbitrary history is an invariant over unbounded sequences.',
     ['src/avformat/sps_avformat_cache.cpp', 'src/cache/sps_cache.hpp'],
     [('AVGopCacheStream::put / dump', 'src/avformat/sps_avformat_cache.cpp'), ('MepegtsCacheStream::put / dump', 'src/avformat/sps_avformat_cache.cpp'), ('CacheStream::copy_from', 'src/cache/sps_cache.hpp')])
prop('C15', 'Fan-out: every viewer gets every packet exactly once, in order, and is woken',
     'Publishing a packet hands it to every live subscriber exactly once and wakes that subscriber afterwards, drops subscribers that no longer exist and no others, however many there are; subscribing never loses an earlier subscriber. A viewer\'s queue keeps the packets in publishing order; draining it hands over everything queued, in order, once, removes exactly that, and waits (with the viewer\'s timeout) only when the queue is empty. The play loop writes the header, when requested, before anything else, then every drained packet exactly once in queue order until a write fails or a wait times out; the publish loop puts every packet read from the publisher into the cache once, in order, until reading fails or it is stopped.',
     ['inputs', 'histories', 'schedules', 'fault_sequences'], 'every number of subscribers, every mixture of live and expired ones, every queue length and arrival pattern during waits, every failing write or read',
     'The cache test has one publisher and two viewers with a fixed schedule.',
     ['src/sys/sps_sys_sync.hpp', 'src/cache/sps_cache.hpp', 'src/avformat/sps_avformat_cache.cpp', 'src/module/stream/sps_stream.cpp'],
     [('Publisher::publish / sub', 'src/sys/sps_sys_sync.hpp'), ('AVDumpCacheStream::dump', 'src/avformat/sps_avformat_cache.cpp'), ('StreamEncoder::encode', 'src/module/stream/sps_stream.cpp'), ('StreamDecoder::decode', 'src/module/stream/sps_stream.cpp')])
prop('C07', 'RTP datagrams: header parsed exactly, payload reaches its decoder once',
     'For every datagram, RTP header decoding succeeds exactly if the whole header is there (12 bytes, four per contributing source, and with the extension bit four more plus four times the announced number of words), reports version, padding, extension, marker, payload type, sequence number, timestamp, SSRC, every contributing source and the extension content as they stand, and stops exactly behind the header. The RTP demuxer hands every datagram to exactly one decoder once: RTCP types (200..204) to the RTCP decoder, everything else to the decoder of the selected codec or, with none selected, to the MPEG-TS decoder for payload type 33 whatever the marker bit; truncated headers, payload types the decoder does not accept and unknown types are refused. The decoder gets exactly the bytes behind the header; its packets are returned once each, in order, before the next datagram is read; its errors are reported.',
     ['inputs', 'histories'], 'every datagram up to 3000 bytes, every number of queued packets and of packets a datagram yields',
     'The RTP test waits on a silent UDP port; it never parses a datagram.',
     ['src/avformat/sps_avformat_rtp.cpp', 'src/avformat/sps_avformat_rtpdec.cpp', 'src/avformat/sps_avformat_rtpdec_ts.cpp'],
     [('RtpPayloadHeader::decode / decode_extension', 'src/avformat/sps_avformat_rtp.cpp'), ('RtpDemuxer::read_packet, IRtpDecoder::decode', 'src/avformat/sps_avformat_rtpdec.cpp'), ('MpegtsRtpDecodder::decode', 'src/avformat/sps_avformat_rtpdec_ts.cpp')])
prop('C08', 'RTCP reports and source descriptions are decoded exactly, within the datagram',
     'For every datagram of any size, RTCP decoding touches no byte outside of it. Sender and receiver reports are accepted exactly if every announced report block is there; the reporter, the sender information and all six fields of every report block are reported in the order they stand, and exactly the report is consumed. Every announced source description (SSRC, kind, length, text) is decoded once, in order, into a description of its own with its whole text; a truncated one is refused and ends the decoding. Headers shorter than four bytes and unknown packet types are refused; BYE and APP are accepted and skipped; no RTCP datagram ever yields a media packet.',
     ['inputs'], 'every datagram content and size, every announced number of report blocks and descriptions (0..31)',
     'No test decodes RTCP.',
     ['src/avformat/sps_avformat_rtpdec_rtcp.cpp'],
     [('RtcpSRDecoder/RtcpRRDecoder/RtcpSRReportBlock::decode, RtcpSDES/RtcpSDESDecoder::decode, RtcpRtpDecoder::decode', 'src/avformat/sps_avformat_rtpdec_rtcp.cpp')])
prop('C11', 'H.264: access units are split and packaged exactly, headers announced first',
     'For every byte string: an Annex B access unit is split at every start code (00 00 01 followed by a byte; the zero byte of a four byte start code belongs to the code) into its NAL units, each taken over once, with exactly its bytes, in order; a length prefixed one is split by its 1 to 4 byte lengths, an AVC decoder configuration record into its sequence and picture parameter sets, and no byte outside of the input is read. Input without a start code, incomplete units or records, empty units and units with the forbidden bit are refused, after those in front of them. Packaging a unit sequence yields one AVC decoder configuration record (profile, compatibility, level, four byte lengths, the last SPS and PPS) in front if there is an SPS, then for every slice, IDR slice and SEI unit, in order, exactly one packet: its size in four bytes, its bytes, its frame type, the presentation times; other units yield nothing. A parameter set that fits no record is refused.',
     ['inputs', 'histories'], 'every input up to 1 MB, every number of units (splitting), every unit size; packaging: one unit of every type and size for all inputs, bounded to three units otherwise',
     'No test feeds H.264 data.',
     ['src/avcodec/sps_avcodec_h264_parser.cpp'],
     [('find_start_code, NALUParser::decode_data / decode_header / encode_avc', 'src/avcodec/sps_avcodec_h264_parser.cpp'), ('H264AVCodecParser::encode_avc / encode_raw_nalu', 'src/avcodec/sps_avcodec_h264_parser.cpp')])
prop('C12', 'RTP H.264: every NAL unit carried by packets reaches the codec once, whole',
     'For every RTP H.264 payload (RFC 6184): a single NAL unit packet (types 1..23) is given to the codec whole, once. An aggregation packet (STAP-A/B, MTAP16/24) is split behind its header (and decoding order number) into its units: every unit is given to the codec exactly once, with exactly the announced size and bytes, in order; an announced size beyond the payload is refused without decoding that unit. Fragments (FU-A/B) are collected in order behind the rebuilt NAL header (F and NRI of the indicator, type of the FU header) and given to the codec exactly once, at the end fragment; a start fragment always begins a new unit, whatever was lost before; fragments without a start are ignored; a unit that outgrows the limit is dropped with an error, never overflowing. Empty payloads and reserved types (0, 30, 31) are refused. The presentation time is the RTP timestamp at 90 kHz; errors of the codec are reported.',
     ['inputs', 'histories'], 'every payload up to 3000 bytes, every number and size of aggregated units, every assembly state of up to 1 MB',
     'No test feeds an RTP H.264 payload.',
     ['src/avformat/sps_avformat_rtpdec_h264_hevc.cpp'],
     [('NaluRtpDecoder / StapRtpDecoder / MtapRtpDecoder / FuRtpDecoder / H264RtpDecoder::decode', 'src/avformat/sps_avformat_rtpdec_h264_hevc.cpp')])
prop('C09', 'RTP AAC: every access unit of a packet becomes one audio packet, in order',
     'For every RTP AAC payload (RFC 3640, AAC-hbr: 13 bit sizes, 3 bit indices): the AU header section is decoded exactly as it stands, as many headers as its announced length holds, and only if all of them are there; every access unit then becomes exactly one audio data packet with exactly the announced bytes, in order, with the RTP timestamp at 90 kHz as its time; an access unit that is not complete is refused, after those in front of it, and nothing beyond the payload is touched.',
     ['inputs'], 'every payload up to 20000 bytes, every number of access units (up to 4096) and every size of them',
     'No test feeds an RTP AAC payload.',
     ['src/avformat/sps_avformat_rtpdec_aac.cpp', 'src/avcodec/sps_avcodec_aac_parser.cpp'],
     [('RtpAacAuHeader::decode, AacRtpDecoder::decode', 'src/avformat/sps_avformat_rtpdec_aac.cpp'), ('AacAVCodecParser::encode_raw_avc', 'src/avcodec/sps_avcodec_aac_parser.cpp')])
prop('C10', 'ADTS: every AAC frame becomes one packet, its configuration announced before it',
     'For every byte string given to the AAC parser and every state it is in: each ADTS frame becomes exactly one audio data packet with exactly the frame\'s bytes behind its 7 or 9 byte header (9 with a CRC), in order, timed with the presentation context. In front of the first frame, and of every frame whose profile, sample rate or channels differ from those announced last, comes exactly one sequence header packet with the AudioSpecificConfig of that frame; frames with the same header fields never repeat it, with or without CRC. A frame out of sync, shorter than its own header or not complete is refused, after those in front of it, and no byte outside of the input is read. Every field of the ADTS header is decoded as it stands.',
     ['inputs', 'histories'], 'every input up to 1 MB, every number of frames, every prior configuration',
     'No test parses ADTS.',
     ['src/avcodec/sps_avcodec_aac_parser.cpp'],
     [('AdtsFixedHeader::decode / operator==, AacAVCodecParser::encode_avc', 'src/avcodec/sps_avcodec_aac_parser.cpp')])
