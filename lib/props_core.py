"""Properties of the core library: statement, anchors, and the harness groups which decide each."""
from specs_common import *

CONC = ['src/mg/core/thread.cpp', 'src/mg/core/uvbase.cpp']
IO = CONC + ['src/mg/core/file.cpp', 'src/mg/core/bitstream.cpp']
H('core_data', ['core_data.cpp'], CONC)
H('core_conc', ['core_conc.cpp'], CONC)
H('core_io', ['core_io.cpp'], IO)
H('core_bits', ['core_bits.cpp'], IO)
H('core_misc', ['core_misc.cpp'], IO + ['src/mg/core/nx/ctime.cpp', 'src/mg/core/nx/util.cpp', 'src/mg/media/wincrc.cpp', 'src/b64/src/cdecode.cpp', 'src/b64/src/cencode.cpp'])

SEQ = 'seeded random operation histories; the same operations are applied to the real object and to an independent model, compared after every step, under AddressSanitizer and UBSan'
CON = 'seeded random workloads with injected delays; an oracle checks the observed history, once under AddressSanitizer/UBSan and once under ThreadSanitizer'

P('C01', 'Byte buffer is a lossless append-only sequence',
  'A buffer contains exactly the concatenation of everything appended to it since it was last cleared or moved back, whatever the sequence and sizes of appends, growths, preparations, direct commits, assignments, copies and self-appends. A positioned read returns the stored bytes which exist at that position, the count of them, and nothing past the end. No operation touches memory outside the storage it owns.',
  ['histories', 'inputs'], 'every sequence of buffer operations, with sizes around every growth boundary',
  'The tests append a few fixed pieces; growth, aliasing and end-of-buffer behaviour depend on the history.',
  ['src/mg/cbuffer.h'], [('growth and append', 'src/mg/cbuffer.h CBuffer::growth/add/prepare'), ('positioned read', 'CBuffer::ReadBuffer')],
  [G('core_data', 'cbuffer', 30000)], SEQ + '; non-trivial: the history made the buffer grow or read by position', ['buffer_ops', 'growths', 'positioned_reads', 'reads_past_end'])

P('C02', 'Shared handles free their object exactly once, after the last use',
  'An object owned through shared handles is destroyed exactly once, when the last handle to it goes away, and never while a handle still refers to it, for every sequence of copies, assignments (also to itself or to a handle reachable only through the target), resets and destructions. Cleanup functions run exactly once, just before the destruction. This also holds when handles to one object are copied and dropped by several threads.',
  ['histories', 'schedules'], 'every history of handle operations, every interleaving of threads sharing one object',
  'Tests use one or two handles in one thread; premature or missing destruction depends on the order of releases and on races.',
  ['src/mg/cresource.h'], [('reference count', 'src/mg/cresource.h CResource'), ('cleanup list', 'CResource::add_cleanup_function')],
  [G('core_data', 'resource', 20000), G('core_data', 'resource_mt', 400, AT)], SEQ + ' and ThreadSanitizer; non-trivial: at least two handles shared an object', ['handle_ops', 'links', 'chain_advances', 'shared_objects'])

P('C03', 'Strings behave as the character sequences they stand for',
  'Every string operation - construction, assignment, concatenation, comparison, search, sub-string, trimming, case, insertion of numbers, formatted append of any length, direct buffer access - yields exactly the character sequence defined for it, leaves its other operands and every copy of the string unchanged, and keeps the text terminated. No operation reads or writes outside the storage of the string.',
  ['histories', 'inputs'], 'every sequence of string operations on shared and unshared strings of any length',
  'Tests check single calls on short literals; sharing, growth and long formatted output are not reached.',
  ['src/mg/alxstring.h', 'src/mg/core/char.h'], [('copy on write', 'src/mg/alxstring.h CstringT'), ('formatted append', 'CstringT::append_format')],
  [G('core_data', 'cstring', 20000), G('core_data', 'strnum', 10000)], SEQ + '; non-trivial: every history', ['string_ops', 'formats', 'long_formats', 'substrings', 'finds', 'wide'])

P('C04', 'Numbers and bytes survive the trip through text',
  'A number appended to a string in decimal or hexadecimal reads back as the same number for every value and width the interface accepts, and bytes written as hexadecimal text read back as the same bytes. Text which is not a number is reported as such by the checks meant for it, without reading outside of it. A hex dump shows every byte at its offset exactly once.',
  ['inputs'], 'every integer value of every width, every byte string, arbitrary garbage text',
  'Tests cover a handful of constants; sign, width limits and odd lengths are not sampled.',
  ['src/mg/alxstring.h', 'src/mg/splitter.h'], [('conversions', 'src/mg/alxstring.h')],
  [G('core_data', 'strnum', 20000), G('core_data', 'hexdump', 4000)], 'values drawn at every magnitude and at the type limits, random byte strings and random garbage; each conversion is compared with an independent one; non-trivial: every case', ['hex_bytes', 'garbage_numbers', 'dumped_bytes'])

P('C05', 'Splitting and replacing text is exact',
  'Splitting a text yields exactly the pieces between the occurrences of the separator, in order, for every text and separator, also when the splitter is used again on another text; replacing yields the text with every occurrence replaced. The text handed in is not modified and nothing outside it is read.',
  ['inputs', 'histories'], 'every text and every non-empty separator, also repeated, overlapping, leading and trailing',
  'Tests split three literals.', ['src/mg/splitter.h', 'src/mg/alxstring.h'], [('splitter', 'src/mg/splitter.h Csplitter')],
  [G('core_data', 'split', 20000)], 'random texts over a small alphabet, random separators; pieces compared with an independent splitter; non-trivial: the separator occurs', ['pieces'])

P('C06', 'Command line options reach the program as given',
  'Every option given on the command line - long or one-letter, separated by a space, an equal sign or a colon, with any value - is reported present with exactly the value given, options not given are reported absent with their defaults, values keep any separator characters they contain, and chained groups are presented in order with the options of each. A required option which is missing is reported before anything runs.',
  ['inputs', 'configurations'], 'every set of options, spelling, value and order',
  'Tests run a few fixed command lines.', ['src/mg/cmdline.h'], [('option parsing', 'src/mg/cmdline.h')],
  [G('core_data', 'cmdline', 20000), G('core_data', 'console', 20000)], 'random option tables and random command lines built from them in random spellings; parsed values compared with those intended; non-trivial: at least one option given', ['values', 'missing_required', 'dispatches', 'unknown_letters'])

P('C07', 'A promise delivers its outcome exactly once, to the right callback',
  'Whatever the order in which a promise is fulfilled or rejected and its callbacks are set, each subscribed callback runs exactly once with the outcome delivered: the value goes to value callbacks, an error (or a callback that throws) to error callbacks, further down a chain as long as they are passed on, and nothing is delivered twice, lost or delivered to the wrong kind. This holds when fulfilment and subscription race on different threads, without data races.',
  ['histories', 'schedules'], 'every order of subscribing, chaining and delivering, every interleaving of a delivering and a subscribing thread',
  'Tests subscribe before delivering on one thread; late subscription and races are a matter of schedules.',
  ['src/mg/promises.h'], [('mailbox under lock', 'src/mg/promises.h CPromise')],
  [G('core_conc', 'promise', 20000), G('core_conc', 'promise_mt', 150, AT)], CON + '; non-trivial: a chain or a race was built', ['promise_steps', 'concurrent_promises'])

P('C08', 'Checked conversions and errors never lie',
  'A checked numeric conversion returns the same mathematical value or reports failure: it never truncates, wraps or invents a value. An error thrown by the library carries the error number and the message it was made with, also when it passes through the library calls that translate errors of the system.',
  ['inputs'], 'every value of the source type, every error number and message',
  'Tests use values in range only.', ['src/mg/core/core.h', 'src/mg/exception.h', 'src/mg/core/uvbase.h'], [('checked casts', 'src/mg/core/core.h'), ('exception text', 'src/mg/exception.h')],
  [G('core_data', 'convert', 20000), G('core_data', 'exception', 10000)], 'values at every magnitude, at the limits of every width, NaN and infinities, random messages; non-trivial: every case', ['conversions', 'unrepresentable', 'exceptions', 'uv_errors'])

P('C09', 'Reading bits returns the bits of the data, in order, to the very end',
  'Over any storage, for every sequence of reads, probes, signed and little-endian reads, skips, alignments and code searches, a bit stream returns exactly the bits the data has at the position reached, and its position is the number of bits consumed. All bits up to the last can be read; asking for more than there are is reported as end of data, and the end is reported exactly when everything was consumed. Neither the buffer size nor the timing of the answers of the storage makes a difference.',
  ['inputs', 'histories', 'schedules'], 'every data and buffer size, every operation sequence, every delay of asynchronous answers',
  'Tests read one file with one buffer size and aligned widths; refills at odd offsets, the last bytes and slow answers are not reached.',
  ['src/mg/core/bitstream.h'], [('double buffering', 'src/mg/core/bitstream.h bitstream_base::fill_buf/read_cb'), ('bit extraction', 'bitstream_base::_nextbits/_getbits/_skipbits')],
  [G('core_bits', 'mem', 12000), G('core_bits', 'thr', 600, AT)], SEQ + ', and ThreadSanitizer with a storage answering from another thread after random delays; non-trivial: every stream, told apart by its data size, buffer size and operations', ['bit_operations', 'bit_skips', 'code_searches', 'ends_detected', 'threaded_answers'])

P('C10', 'Byte reads and seeking on a stream are exact',
  'Reading bytes from a stream returns the next bytes of the data and the count of them, short only at the end, mixed in any way with bit reads. After moving to a position, wherever it lies relative to what is buffered, reading continues with the data at that position; moving past the end leaves the stream at its end. This holds over memory, synchronous files and asynchronous files alike.',
  ['inputs', 'histories', 'schedules'], 'every sequence of reads and moves, every data and buffer size, every delay of answers',
  'Tests move a few times in one file; moves inside, across and beyond the buffered data behave differently.',
  ['src/mg/core/bitstream.h', 'src/mg/core/file.h', 'src/mg/media/TBitstream.h'], [('repositioning', 'src/mg/core/bitstream.h bitstream_base::_set_position_read'), ('byte read', 'bitstream_base::_read')],
  [G('core_bits', 'mem_pos', 12000), G('core_bits', 'thr_pos', 600, AT), G('core_bits', 'sfile', 1500), G('core_bits', 'afile', 250, AT), G('core_bits', 'fixedmem', 4000), G('core_bits', 'far', 3000)], SEQ + ' and ThreadSanitizer; non-trivial: every stream', ['byte_reads', 'repositions', 'ends_detected', 'far_streams'])

P('C11', 'What is written to a stream is what is stored, bit for bit',
  'For every sequence of bit writes, little-endian writes, alignments, byte writes, flushes and moves, the storage ends up with exactly the bits written, each at its position, with gaps zero; reading them back with the same widths returns the same values in the same order. It does not depend on the buffer size nor on the delays of the storage.',
  ['inputs', 'histories', 'schedules'], 'every write sequence, buffer size and delay',
  'Tests write short fixed sequences.', ['src/mg/core/bitstream.h', 'src/mg/core/file.cpp'], [('bit packing and flush', 'src/mg/core/bitstream.h bitstream_base::_putbits/_flush_buf')],
  [G('core_bits', 'wmem', 8000), G('core_bits', 'wfile', 300, AT), G('core_bits', 'wfar', 3000)], SEQ + ' and ThreadSanitizer, to memory, synchronous and asynchronous files with delayed writes; non-trivial: every stream', ['write_operations', 'byte_writes', 'write_repositions', 'round_trips', 'far_write_streams'])

P('C12', 'Copying a stream copies exactly the range asked for',
  'Copying from one storage to another stores exactly the bytes of the source range, in order, for every combination of memory, synchronous and asynchronous storages, range, chunk size and delay, and returns only when they are all written. When a read or a write fails, copying ends with that error instead of hanging or reporting success.',
  ['inputs', 'schedules', 'fault_sequences'], 'every pair of storages, size, chunk and range; every delay and every single failing request',
  'Tests copy one file; ordering under delays and failures is not exercised.',
  ['src/mg/core/bitstream.cpp'], [('flow control', 'src/mg/core/bitstream.cpp _ccopy_stream')],
  [G('core_io', 'copy', 500, AT), G('core_io', 'copy_err', 60, AT)], CON + '; reads and writes of the real files are delayed or made to fail at the system call; non-trivial: every copy', ['streams_copied', 'bytes_copied', 'copy_faults', 'far_positions'])

P('C13', 'Async file operations complete exactly once, in order, with right bytes',
  'Each asynchronous read is answered exactly once with exactly the bytes of the file at the position it was issued for, in the order issued, also when the system completes requests out of order; each asynchronous write lands at its position with the bytes given even if the caller reuses its memory at once. Closing waits for what is outstanding, and several files and threads can share one loop without data races.',
  ['schedules', 'histories'], 'every order and delay of completion, every mix of sizes and positions',
  'Tests read one file sequentially with immediate completions.',
  ['src/mg/core/file.cpp', 'src/mg/core/file.h'], [('reordering of completions', 'src/mg/core/file.cpp cfile::uv_file_cb'), ('outstanding count', 'cfile::close')],
  [G('core_io', 'aread', 500, AT), G('core_io', 'chain', 120, AT), G('core_io', 'awrite', 500, AT), G('core_io', 'multi', 80, AT)], CON + '; every pread/pwrite is delayed at the system call so that completions overtake each other; non-trivial: more than one request in flight', ['async_reads', 'async_writes', 'chained_reads', 'concurrent_file_operations', 'far_positions'])

P('C14', 'A failed file operation is reported, and only that one',
  'When the system fails a request, that request is answered with that error number; the requests before and after it are answered with their own outcome; nothing is reported as done which is not, a short write included; and closing, waiting and ending the loop still terminate. A file which cannot be opened is reported at once with the reason.',
  ['fault_sequences', 'schedules'], 'every failing request, error number and position among requests in flight',
  'Nothing in the tests makes the system fail.', ['src/mg/core/file.cpp', 'src/mg/core/uvbase.h'], [('error delivery', 'src/mg/core/file.cpp cfile::uv_file_cb'), ('loop exception', 'src/mg/core/uvbase.h uvloopthread::check_exception')],
  [G('core_io', 'aerr', 300, AT), G('core_io', 'werr', 300, AT), G('core_io', 'badopen', 60, AT)], 'one or more system calls of a random workload fail with a random error or are cut short, at random points among delayed ones; oracle over all answers; non-trivial: a fault was injected', ['read_faults_injected', 'write_faults_injected', 'open_faults'])

P('C15', 'Locks exclude, events wake every waiter, threads end when told',
  'At most one thread is inside a lock at a time and the owner may enter it again; an event once signaled releases every waiter, also those which start to wait later, until it is reset, and a timed wait reports truthfully whether it was signaled, no earlier than its time. A thread told to stop sees it, runs its body exactly once, and joining returns after the body ended.',
  ['schedules'], 'every interleaving of lockers, waiters, signalers and stoppers',
  'Tests signal before waiting, in one order.', ['src/mg/core/thread.cpp', 'src/mg/core/thread.h'], [('event', 'src/mg/core/thread.cpp signal_event'), ('thread', 'cthread')],
  [G('core_conc', 'lock', 150, AT), G('core_conc', 'event', 500, AT), G('core_conc', 'pingpong', 100, AT), G('core_conc', 'cthread', 300, AT)], CON + '; non-trivial: at least two threads took part', ['lock_sections', 'try_locks', 'event_waiters_released', 'event_handovers', 'event_timeouts_seen', 'threads_run'])

P('C16', 'The loop thread runs every accepted operation and reports its errors',
  'Every operation accepted by a running loop completes exactly once, also when ending it races with them; ending the loop returns only then, and a loop thread can be started, stopped and destroyed in any order the interface allows without hanging. An exception raised by a callback ends the loop and is rethrown exactly once to the thread that collects it.',
  ['schedules', 'histories', 'fault_sequences'], 'every race between submitting, stopping and failing callbacks',
  'Tests start and stop an idle loop.', ['src/mg/core/uvbase.h', 'src/mg/core/uvbase.cpp'], [('loop thread', 'src/mg/core/uvbase.cpp uvloopthread::run'), ('exception hand-over', 'src/mg/core/uvbase.h uvloopthread::check_exception')],
  [G('core_conc', 'loop', 400, AT), G('core_conc', 'loop_exc', 120, AT), G('core_conc', 'loop_mt', 120, AT)], CON + '; non-trivial: operations were submitted', ['loop_operations', 'loop_errors_reported'])

P('C17', 'Base64 and checksums agree with their standards',
  'Encoding then decoding base64 returns the same bytes for every input and every way of cutting it into blocks, encoding agrees with RFC 4648, and characters outside the alphabet are skipped without being read past. The checksum of transport stream sections is CRC-32/MPEG-2 of the bytes given at any alignment, so that a section followed by its checksum gives zero.',
  ['inputs'], 'every byte string, block cut and alignment', 'No test touches either.',
  ['src/b64/src/cencode.cpp', 'src/b64/src/cdecode.cpp', 'src/mg/media/wincrc.cpp'], [('encoder and decoder states', 'src/b64/src'), ('checksum table', 'src/mg/media/wincrc.cpp')],
  [G('core_misc', 'base64', 10000), G('core_misc', 'crc', 6000)], 'random byte strings in random blocks, compared with an independent encoder and a bitwise checksum; non-trivial: every case', ['base64_bytes', 'base64_noise', 'crc_bytes'])

P('C18', 'Dates, durations and time texts are right',
  'A date read from text, built from its parts or taken from the clock keeps its calendar fields, prints them back, and its differences to other dates are the true numbers of seconds, minutes, hours and days, also negative ones; the time since 1904 used in media headers agrees with the clock. Offsets to UTC and durations in 100 ns units print exactly, signs included.',
  ['inputs', 'configurations'], 'every date from 1902 to 2200, every time zone offset, every duration',
  'No test computes a date.', ['src/mg/core/nx/ctime.cpp', 'src/mg/media/hnano.h'], [('calendar conversion', 'src/mg/core/nx/ctime.cpp'), ('duration text', 'src/mg/media/hnano.h')],
  [G('core_misc', 'ctime', 3000), G('core_misc', 'hnano', 6000)], 'random dates in five zones against an independent calendar, random durations; non-trivial: every case', ['times', 'time_texts'])

P('C19', 'Synchronous files and memory streams store what they are given',
  'A synchronous file or a memory stream holds exactly the bytes written at the positions they were written to, at any offset a file can have, and reads them back; after a flush or close they are in the file, and media files opened through either kind of file class are complete once closed. Failing to write is reported.',
  ['histories', 'inputs', 'fault_sequences'], 'every sequence of writes, moves, reads, flushes; positions beyond 4 GB; a full disk',
  'Tests write small files sequentially.', ['src/mg/core/file.h', 'src/mg/media/TBitstream.h'], [('stdio storage', 'src/mg/core/file.h sync_file_bitstream'), ('memory storage', 'src/mg/media/TBitstream.h fixed_memory_write')],
  [G('core_io', 'sync', 2000), G('core_io', 'sync_far', 200), G('core_io', 'sync_full', 200), G('core_misc', 'memstream', 6000), G('core_misc', 'filestream', 300, AT), G('core_misc', 'fs', 300)], SEQ + '; non-trivial: every history', ['sync_file_histories', 'far_positions', 'memory_streams', 'memory_seeks', 'file_streams', 'full_disks', 'fs_calls'])

P('C20', 'Sample queues hand over every item once, in order, intact',
  'Items leave a queue in the order they entered, each exactly once, with the tag and bytes they were pushed with, for every mix of sizes, pops, deletions and wrap-arounds; a growing queue loses nothing, a bounded queue drops only its oldest items or refuses the new one as configured. A pop into a buffer too small leaves the item in place, and one producer and one consumer thread can share the queue.',
  ['histories', 'schedules'], 'every sequence of pushes and pops in queues of every size, every interleaving of a producer and a consumer',
  'No test fills a queue past its end.', ['src/mg/media/fixed_queue.h', 'src/mg/media/media_queue.h'], [('ring layout', 'src/mg/media/fixed_queue.h cfixed_queue::push'), ('growth', 'src/mg/media/media_queue.h grow_queue::no_space')],
  [G('core_misc', 'queue', 10000), G('core_misc', 'queue_mt', 150, AT)], SEQ + ' and ThreadSanitizer; non-trivial: every history', ['queue_pushes', 'queue_dropped', 'queue_refused', 'queue_small_pops', 'queue_handoffs'])
