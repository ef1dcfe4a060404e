"""Properties of the media library and the command line program."""
from specs_common import *

CORE = ['src/mg/core/%s' % f for f in ('thread.cpp', 'uvbase.cpp', 'file.cpp', 'bitstream.cpp', 'nx/ctime.cpp', 'nx/util.cpp')]
MEDIA = CORE + ['src/mg/media/%s' % f for f in ('mp4dynamic.cpp', 'mp4dynamicinfo.cpp', 'mp4edit.cpp', 'tsinfo.cpp', 'wincrc.cpp')] + ['src/b64/src/cdecode.cpp', 'src/b64/src/cencode.cpp']
import os, driver
R = driver.REPO
MF = ['-I' + os.path.join(driver.VERIF, 'compat'), '-I@GEN@', '-I@GEN@/mg/media', '-I' + R + '/src/mg/media', '-I' + R + '/src/mg/core', '-I' + R + '/src/mgcli', '-D_LINUX', '-DBASE64=1', '-DHAVE_LIBGYPAES=1', '-fpermissive']
def HM(name, src, repo=MEDIA, **k):
    H(name, src, repo, flags=MF, gen=True, **k)

HM('media_dash', ['media_dash.cpp', 'media_cli.cpp'])

MED = 'the real program is run on generated movies and its output read back by an independent reader, under AddressSanitizer and UBSan'

HM('media_codec', ['media_codec.cpp'])
P('M01', 'H.264 units, parameter sets, slice headers and SEI are read as coded',
  'For every H.264 NAL unit the decoded bytes are those coded, without the emulation prevention bytes, and for every sequence parameter set (with usability information and buffering parameters), picture parameter set (with slice groups and extension), slice header, SEI message and picture timing, every field read is the one coded, whatever the memory held before, and exactly the coded bytes are read. The configuration record written from parameter sets carries them, and the size of the picture is the one they code.',
  ['inputs'], 'every value of every field of the headers and every combination of optional parts',
  'No test reads an H.264 header; each field is optional or of variable length.',
  ['src/mg/media/mp4/h264.fl', 'src/mg/media/h264nal.h', 'src/mg/media/mp4write.h'], [('NAL units', 'src/mg/media/h264nal.h H264Nal'), ('headers', 'src/mg/media/mp4/h264.fl')],
  [G('media_codec', 'nal', 3000), G('media_codec', 'sps', 6000), G('media_codec', 'pps', 6000), G('media_codec', 'slice', 4000), G('media_codec', 'sei', 4000)], 'headers written by an independent writer are read by the real code in storage of exactly their size, into objects in memory which is not clean, under AddressSanitizer and UBSan; non-trivial: every case compared a header', ['nal_units', 'escapes', 'sps', 'vui', 'hrd', 'avcc', 'pps', 'pps_extended', 'slices', 'sei', 'timings', 'clocks'])
P('M02', 'AAC and MPEG audio headers are read and written as coded',
  'For every AAC audio specific configuration and every ADTS header, what is read is what was coded and what is written is what was asked for: object type, sampling rate, channels, lengths, protection. For every MPEG audio header the version, layer, bitrate, sampling rate, channels and length of the frame are those the standard gives.',
  ['inputs'], 'every value of every field',
  'No test reads an audio header.',
  ['src/mg/media/mp4/aac.fl', 'src/mg/media/mp4/mpeg2au.fl'], [('AAC', 'src/mg/media/mp4/aac.fl'), ('MPEG audio', 'src/mg/media/mp4/mpeg2au.fl AudioHeader')],
  [G('media_codec', 'aac', 4000), G('media_codec', 'mpa', 3000)], 'headers written by an independent writer are read by the real code, and headers the real code writes compared byte for byte, under AddressSanitizer and UBSan; non-trivial: every case compared a header', ['aac_configs', 'adts', 'mpa'])

HM('media_reader', ['media_reader.cpp'])
P('M04', 'The MP4 reader reports every sample of a file as the file describes it',
  'For every well formed MP4 file of AVC and AAC tracks, the reader gives for each track the kind, language, time scale, duration, empty edit, codec configuration and picture size or sampling rate, and for each sample its place, size, decoding and composition time, duration and sync flag, all as the tables of the file say; walking the file gives every sample exactly once, in the order of the file, and its bytes. A time finds the sample, and the sync sample, which belong to it, and walking the sync samples finds each of them; tracks of other kinds are passed over.',
  ['inputs'], 'every layout of tables and boxes (32 and 64 bit offsets and sizes, runs, chunks, order of boxes, boxes it has no use for) and every time',
  'No test opens an MP4 file.',
  ['src/mg/media/mp4parse.h', 'src/mg/media/mp4/mp4.fl', 'src/mg/media/TBitstream.h'], [('sample tables', 'src/mg/media/mp4parse.h CMP4SampleManager CMP4TimeManager'), ('reader', 'src/mg/media/mp4parse.h MP4Reader')],
  [G('media_reader', 'samples', 800, stall=40), G('media_reader', 'seek', 500, stall=40)], 'the reader is run on generated movies and compared with what was generated, under AddressSanitizer and UBSan; non-trivial: a movie was read to its end', ['movies', 'samples', 'lookups', 'sync_steps', 'co64', 'open_mdat', 'large_mdat', 'other_boxes', 'text_tracks'])

HM('media_hostile', ['media_hostile.cpp'])
P('M05', 'A damaged MP4 file is refused or read in bounds, and reading it ends',
  'Whatever the bytes of a file, parsing it, asking anything about any track, sample or time, and walking its samples neither reads nor writes outside of memory, nor computes something undefined, nor recurses or loops without end; it answers or throws, and gives back all the memory it took. A walk gives no more samples than the tables have.',
  ['inputs'], 'every byte sequence, in particular every value of every field, size and count of every box, boxes missing, repeated or in the wrong place, and files cut anywhere',
  'No test opens an MP4 file, let alone a damaged one.',
  ['src/mg/media/mp4parse.h', 'src/mg/media/mp4/mp4.fl', 'src/mg/media/mp4/h264.fl', 'src/mg/media/mp4/aac.fl', 'src/mg/media/h264nal.h', 'src/mg/media/TBitstream.h'], [('reader', 'src/mg/media/mp4parse.h MP4Reader'), ('boxes', 'src/mg/media/mp4/mp4.fl')],
  [G('media_hostile', 'file', 6000, stall=30)], 'generated movies, damaged in one to five places with knowledge of their structure, are read by the real reader under AddressSanitizer and UBSan with limited memory, every allocation counted; non-trivial: every file read', ['files', 'parsed', 'refused', 'questions_refused', 'samples', 'steps'])

HM('media_edit', ['media_edit.cpp', 'media_cli.cpp'])
P('M06', 'Cutting and joining MP4 files keeps every sample in range, in order and in time',
  'The mux command, given one or more MP4 files with ranges, writes one MP4 file in which every track carries exactly the samples of the ranges, in order and byte for byte: video from the sync sample at or before the start, audio from the start of the video, up to the end. All tracks of one input are moved by the same time, so that audio and video keep their relative position; an input starts when the one before has ended, without overlap, and without a pause in every track; sync flags, codec configuration, picture size, language and time scale are those of the first input or those asked for. Inputs with other parameter sets, audio configuration or tracks are refused and leave no output.',
  ['inputs', 'configurations', 'histories'], 'every sequence of movies and ranges, and every layout of their files',
  'No test cuts or joins.',
  ['src/mg/media/mp4edit.cpp', 'src/mg/media/mp4edit.h', 'src/mg/media/mp4mux.h', 'src/mg/media/mp4write.h', 'src/mg/media/MediaJoin.h', 'src/mgcli/mp4info.cpp'], [('edit', 'src/mg/media/mp4edit.cpp CMP4EditBase'), ('times of a join', 'src/mg/media/MediaJoin.h CMediaJoin'), ('muxer', 'src/mg/media/mp4mux.h MP4Mux'), ('writer', 'src/mg/media/mp4write.h MP4Write')],
  [G('media_edit', 'cut', 900, stall=60), G('media_edit', 'join', 900, stall=60), G('media_edit', 'refuse', 400, stall=60)], MED + '; non-trivial: a movie was written and read back', ['runs', 'movies', 'samples', 'joins', 'refusals'])
P('M07', 'Fragments put back together give the movie they were made of',
  'The moof command, given the initialisation segment and the media segments of each track which packaging wrote, in clear or encrypted with the given key, writes an MP4 file whose tracks carry every sample once, in order and byte for byte, with the presentation times of the source moved by one time common to all tracks.',
  ['inputs', 'configurations'], 'every movie, segment length and key',
  'No test reads a fragment.',
  ['src/mg/media/MOOFReader.h', 'src/mg/media/mp4mux.h', 'src/mgcli/mp4info.cpp'], [('fragments', 'src/mg/media/MOOFReader.h'), ('command', 'src/mgcli/mp4info.cpp do_moof_mux')],
  [G('media_edit', 'moof', 600, stall=60)], MED + '; non-trivial: a movie was written and read back', ['runs', 'movies', 'samples', 'fragments'])

P('M08', 'Every sample reaches the DASH segments once, in order, with its time',
  'Packaging a movie for DASH writes exactly the files its manifest names; the segments of each track, in timeline order, carry every sample of the source (audio from the start of the video on) exactly once, in order and byte for byte, with decode times, composition offsets and durations equal to those of the source within the rounding of the time scale (an offset common to all samples may be dropped). Audio and video keep their relative position, each segment starts at the time the manifest gives and is self consistent, and the initialisation segment carries the codec configuration, size, time scale and total duration of the source.',
  ['inputs', 'configurations'], 'every movie (frame rates, time scales, group lengths, reordering, track order, file layout) and every packaging option',
  'No test runs the program; rounding, edge segments and leftovers depend on the whole sample table.',
  ['src/mg/media/mp4dynamic.cpp', 'src/mg/media/mp4dynamicinfo.cpp', 'src/mg/media/mp4fragmented.h', 'src/mgcli/mp4info.cpp'], [('segmenting', 'src/mg/media/mp4dynamic.cpp CMP4DynamicDiscreate'), ('fragments', 'src/mg/media/mp4fragmented.h')],
  [G('media_dash', 'dash', 1200, stall=40)], MED + '; non-trivial: at least one track was packaged', ['runs', 'fragments', 'samples', 'av_pairs'])

P('M09', 'The MPD and the Smooth Streaming manifest describe what was packaged',
  'For any set of bitrates the MPD lists one representation per bitrate, with identifiers of their own, the codec string of its own parameter sets, its picture size or sampling rate, and the largest of them where it gives a maximum; its duration is that of the presentation. The Smooth Streaming manifest of the same run says the same: duration, streams, counts of chunks and levels, times, bitrates, names of files, sizes, and the parameter sets of each bitrate as codec private data.',
  ['inputs', 'configurations'], 'every movie, one to four bitrates with their own parameter sets, every kind of manifest',
  'No test produces a manifest; several inputs are combined in one document.',
  ['src/mg/media/mpd_renderer.h', 'src/mg/media/mp4dynamicinfo.h', 'src/mgcli/mp4info.cpp'], [('MPD', 'src/mg/media/mpd_renderer.h'), ('Smooth Streaming', 'src/mg/media/mp4dynamicinfo.h SSFRenderer')],
  [G('media_dash', 'manifest', 1200, stall=40)], MED + '; non-trivial: manifests were read', ['runs', 'representations', 'ism_streams', 'fragments', 'av_pairs'])

P('M12', 'Encrypted DASH segments decrypt to the source with the given key',
  'With a key, every encrypted sample decrypts, by AES-CTR with the initialisation vector and the sub-sample map the segment gives, to the bytes of the source; no initialisation vector is used twice within a representation, and the auxiliary information boxes agree with each other and with the samples. The initialisation segment declares the cenc scheme with the key id and the protection systems asked for, and the manifest carries the same ones, each with the key id, the checksum, the address and the body given. Without encryption of the audio, the audio stays clear.',
  ['inputs', 'configurations'], 'every movie, key, key id and set of protection systems',
  'The encryption is built only with an AES library which the repository does not ship; no test covers it.',
  ['src/mg/media/mp4fragmented.h', 'src/mgcli/cenc_provider.h', 'src/mgcli/mp4info.cpp'], [('sample encryption', 'src/mg/media/mp4fragmented.h encrypt'), ('protection systems', 'src/mgcli/cenc_provider.h')],
  [G('media_dash', 'cenc', 800, stall=40), G('media_dash', 'aes', 2000)], MED + '; non-trivial: at least one track was packaged, or the carry of the counter', ['runs', 'decrypted_bytes', 'pssh', 'manifest_kid', 'counters'])

HM('media_hls', ['media_hls.cpp', 'media_cli.cpp'])

P('M10', 'HLS segments carry every sample once in correct transport streams',
  'The segments of an HLS rendition, in playlist order, carry every picture of the source and the audio between its start and its end exactly once, in order and byte for byte, pictures preceded by their parameter sets and audio by an ADTS header that describes it. Each segment is a well formed transport stream (tables and their CRC, continuity counters, adaptation fields, PES lengths, PCR not ahead of decoding) which starts with a random access picture, and presentation and decoding times differ from those of the source by one constant, the same for audio and video. With a key each segment decrypts by AES-128 CBC with the media sequence number as initialisation vector.',
  ['inputs', 'configurations'], 'every movie (frame rates, time scales, reordering, sizes of samples, track order) and every segment length',
  'No test writes a transport stream; packing depends on every sample size, and times on the whole sample table.',
  ['src/mg/media/tsmux.h', 'src/mg/media/tswrite.h', 'src/mg/media/hls_renderer.h', 'src/mgcli/mp4info.cpp'], [('transport stream', 'src/mg/media/tsmux.h'), ('segments', 'src/mg/media/mp4dynamic.cpp')],
  [G('media_hls', 'hls', 500, stall=40), G('media_hls', 'hlsenc', 150, stall=40)], MED + '; non-trivial: at least one segment was read', ['runs', 'segments', 'video_samples', 'audio_samples', 'decrypted'])

P('M11', 'HLS playlists name exactly the files written and describe them correctly',
  'The master playlist lists each rendition once, with the bitrate, picture size and codec of the source behind it, and every media playlist names exactly the segments written for that rendition, in order. Every EXTINF is the length of its segment, no segment rounds to more than the target duration, the list is ended, an encrypted one names the key file, which holds the key, and the renditions of one source are cut at the same places.',
  ['inputs', 'configurations'], 'every movie and every set of one to four bitrates with their own pictures',
  'No test produces a playlist; several inputs are combined in one list.',
  ['src/mg/media/hls_renderer.h', 'src/mgcli/mp4info.cpp', 'src/mg/media/mp4dynamicinfo.h'], [('playlists', 'src/mg/media/hls_renderer.h'), ('points', 'src/mg/media/mp4dynamicinfo.h')],
  [G('media_hls', 'playlist', 400, stall=40)], MED + '; non-trivial: at least one playlist was read', ['runs', 'playlists', 'segments', 'aligned_variants'])
HM('media_ts', ['media_ts.cpp', 'media_cli.cpp'])
P('M13', 'A transport stream is turned into an MP4 file with every sample it carries',
  'For every well formed transport stream of AVC and AAC the MP4 file written from it has one track for each stream with its codec configuration, and in it every access unit and audio frame of the stream, in order and byte for byte without start codes, headers and parameter sets, with its sync flag, and with its time relative to all the others as in the stream. When packets are lost, nothing is lost but the samples which they carried, and video up to the next parameter sets. The listing of a stream names its program and streams and every PES packet with its times, clock, random access flag and sizes.',
  ['inputs'], 'every stream: tables with descriptors, several packets of stuffing, adaptation fields, PES packets with and without a length, optional header fields, other PIDs, start codes of either length',
  'No test reads a transport stream; every unit is cut over packets at places which depend on all sizes before.',
  ['src/mg/media/ts.h', 'src/mg/media/tsparse.h', 'src/mg/media/tsinfo.cpp', 'src/mg/media/mp4/mpeg2ts.fl'], [('packets and PES', 'src/mg/media/ts.h ts_pes tspacket'), ('conversion', 'src/mg/media/tsinfo.cpp TS2MP4H264 TS2MP4AAC')],
  [G('media_ts', 'ts2mp4', 3000, stall=40), G('media_ts', 'loss', 6000, stall=40), G('media_ts', 'listing', 1000, stall=40)], 'streams from an independent writer are converted by the real program and the MP4 file read back by an independent reader, under AddressSanitizer and UBSan; non-trivial: a movie was read', ['runs', 'movies', 'samples', 'packets_lost', 'lost_samples', 'damaged_tables', 'pes_packets'])

P('M14', 'A damaged transport stream is refused or read to its end, in bounds',
  'Whatever the bytes of a transport stream, converting or listing it neither reads nor writes outside of memory, nor computes something undefined, nor loops without end or takes memory out of proportion: it ends with a result or an error, and prints no more than in proportion to the stream.',
  ['inputs'], 'every byte sequence, in particular every value of every header field, table entry and length, packets lost, repeated, cut, mixed up or assigned to other streams, and lost synchronisation',
  'No test reads a transport stream, let alone a damaged one.',
  ['src/mg/media/ts.h', 'src/mg/media/tsparse.h', 'src/mg/media/tsinfo.cpp', 'src/mg/media/mp4/mpeg2ts.fl', 'src/mg/media/mp4write.h'], [('packets and PES', 'src/mg/media/ts.h ts_pes tspacket'), ('tables', 'src/mg/media/ts.h program_association_section')],
  [G('media_ts', 'hostile', 30000, stall=30)], 'generated streams, damaged in one to eight places with knowledge of their structure, are converted and listed by the real program under AddressSanitizer and UBSan with limited memory; non-trivial: a stream was read', ['streams', 'read', 'refused'])

HM('media_mux_ts', ['media_mux_ts.cpp', 'media_cli.cpp'])
P('M15', 'MP4 files cut and joined into a transport stream keep every sample and time',
  'The MP42TS command, given one or more MP4 files with ranges, writes one well formed transport stream in which every stream carries exactly the samples of the ranges, in order and byte for byte: pictures as access units with their parameter sets before every sync sample, audio in ADTS frames that describe it. All streams of one input are moved by the same time, an input starts when the one before has ended, without overlap and without a pause in every stream; the random access flag is set on sync samples and only there, the tables and the clock are repeated at each of them, and the clock is not ahead of decoding.',
  ['inputs', 'configurations', 'histories'], 'every sequence of movies and ranges, and every layout of their files',
  'No test writes a transport stream.',
  ['src/mg/media/tsmux.h', 'src/mg/media/tswrite.h', 'src/mg/media/mp4edit.cpp', 'src/mg/media/MediaJoin.h', 'src/mg/media/tsinfo.cpp'], [('transport stream', 'src/mg/media/tsmux.h TSMux'), ('packets', 'src/mg/media/tswrite.h CTSWrite'), ('command', 'src/mg/media/tsinfo.cpp do_ts_mux')],
  [G('media_mux_ts', 'cut', 600, stall=60), G('media_mux_ts', 'join', 600, stall=60)], MED + '; non-trivial: a stream was written and read back', ['runs', 'streams', 'samples', 'joins', 'clocks'])

HM('media_abuse', ['media_abuse.cpp', 'media_cli.cpp'])
P('M16', 'A command given a damaged MP4 file ends, in bounds, with a result or an error',
  'Whatever the bytes of the MP4 files and fragments given, every command that cuts, joins, packages, puts fragments together or lists ends in bounded time: it neither reads nor writes outside of memory, computes nothing undefined, does not recurse or loop or print or take memory without end, and returns a result or an error.',
  ['inputs', 'configurations'], 'every byte sequence, in particular every value of every field, size and count of every box, boxes missing, repeated or in the wrong place, and files cut anywhere, and every range',
  'No test opens an MP4 file, let alone a damaged one.',
  ['src/mgcli/mp4info.cpp', 'src/mg/media/mp4edit.cpp', 'src/mg/media/mp4dynamic.cpp', 'src/mg/media/mp4mux.h', 'src/mg/media/MOOFReader.h', 'src/mg/media/mp4parse.h'], [('listings', 'src/mgcli/mp4info.cpp dobox docommand'), ('edit', 'src/mg/media/mp4edit.cpp'), ('packaging', 'src/mg/media/mp4dynamic.cpp'), ('fragments', 'src/mg/media/MOOFReader.h')],
  [G('media_abuse', 'package', 3000, stall=60), G('media_abuse', 'list', 3000, stall=60), G('media_abuse', 'fragments', 2000, stall=60)], 'generated movies and packaged fragments, damaged in one to five places with knowledge of their structure, are given to the real program under AddressSanitizer and UBSan with limited memory; non-trivial: every run', ['runs', 'refused', 'done'])

HM('media_list', ['media_list.cpp', 'media_cli.cpp'])
P('M17', 'The listings of an MP4 file tell what is in the file',
  'For every well formed MP4 file or fragment, listing its samples names every sample of the range exactly once, in order, with its times, duration, sync mark, place and size, and the length, offset, count and timescale of each stream; listing its groups of pictures names every sync sample of the range, listing its units every unit of every picture with its type, size and times, the simulation of decoding times every composition time, and the analysis every box with its place and size and the values of the headers, runs and indexes.',
  ['inputs', 'configurations'], 'every movie, layout of boxes, range and selected stream',
  'No test lists a file.',
  ['src/mgcli/mp4info.cpp', 'src/mg/media/mp4parse.h', 'src/mg/media/hnano.h'], [('samples', 'src/mgcli/mp4info.cpp pick_samples'), ('groups of pictures', 'src/mgcli/mp4info.cpp gop_list'), ('units', 'src/mgcli/mp4info.cpp h264_frame_list parse_h264_header'), ('boxes', 'src/mgcli/mp4info.cpp dobox docommand')],
  [G('media_list', 'pick', 1500, stall=60), G('media_list', 'gop', 600, stall=60), G('media_list', 'units', 600, stall=60), G('media_list', 'simul', 300, stall=60), G('media_list', 'tree', 800, stall=60)], 'generated movies, and fragments packaged from them, are listed by the real program; what it prints is read back and compared, row by row, with the movie generated and with an independent reading of the file; non-trivial: rows were compared', ['runs', 'rows', 'units', 'boxes', 'fragments', 'text_tracks'])

P('M18', 'Inputs joined for DASH lose, repeat or shift nothing at the joins',
  'Packaging several movies of one make one after the other for DASH, each cut to its own range of time, gives one presentation whose segments carry, for every track, all samples of the range of the first movie, then those of the second one, and so on, each exactly once, in order and byte for byte, in clear or encrypted. Within each movie every sample keeps its time, moved by one amount which is the same for video and audio, except in the segment which straddles a join.',
  ['inputs', 'configurations'], 'every sequence of one to four movies (frame rates, time scales, group lengths, lengths, delays), start times and segment lengths',
  'No test joins anything; what happens at a join depends on how the sample tables end and begin.',
  ['src/mg/media/mp4dynamic.cpp', 'src/mg/media/mp4dynamicinfo.h', 'src/mg/media/mp4fragmented.h', 'src/mg/media/mp4edit.cpp', 'src/mgcli/mp4info.cpp'], [('joins', 'src/mg/media/mp4dynamicinfo.h DynamicPoints CrossPoint'), ('segmenting', 'src/mg/media/mp4dynamic.cpp publish_no_random_stream'), ('fragments', 'src/mg/media/mp4fragmented.h produce_m4f_chunk_cross')],
  [G('media_dash', 'djoin', 1500, stall=60), G('media_dash', 'dend', 2, mult=1)], MED + '; non-trivial: a joined presentation was written and read back', ['runs', 'fragments', 'samples', 'samples_after_a_join', 'av_pairs', 'joins_of_4'])
