"""The checks: property id -> level, rule, parts."""
import os
import run as R
if 'run' not in __import__('sys').modules or not hasattr(R, 'build_c'):
    raise SystemExit('run via run.py')

CHECKS = {}


def check(pid, level, rule, parts, technique, note, **kw):
    CHECKS[pid] = dict(level=level, rule=rule, parts=parts, technique=technique, note=note, **kw)


def cpart(name, harness, **kw):
    part_kw = {k: kw.pop(k) for k in ('jobs', 'hang', 'env', 'args') if k in kw}
    exe = R.build_c(name, harness, **kw)
    return dict(name=name, cmd=[exe] + part_kw.pop('args', []), **part_kw)


def pypart(name, harness, san='none', **kw):
    env = R.build_py(san)
    return dict(name=name, cmd=[R.PY, os.path.join(R.SRC, harness)] + kw.pop('args', []), env=env, **kw)


check('C01', 'exploration',
      'record structures x data kinds x compressed representations x APIs enumerated in full within the '
      'stated size alphabets; a case is counted distinct and non-trivial when its to-data is not empty '
      'and its (from, patch) pair was not seen before',
      lambda tier: [cpart('c01', 'c01.cpp', san='asan'),
                    cpart('c01-dyn', 'c01.cpp', san='asan', defines=('HEATSHRINK_DYNAMIC_ALLOC=1',))],
      'bounded exhaustive enumeration of patches executed on the real C library',
      'Every record structure, data kind and compressed form of the stated alphabets is applied through three '
      'APIs under ASan/UBSan; trusts the harness encoders and liblzma. Sizes outside the alphabets are not covered.')

check('C02', 'model_checking',
      'state = (patch position, bytes of the apply object, environment); transition = process() with the next '
      'k bytes, k from 0 to all that is left; every complete path ends with finalize and is judged against the '
      'reference decoder. Damaged/truncated and lzma patches: all chunkings up to a number of cuts.',
      lambda tier: [cpart('c02', 'c02.cpp'),
                    cpart('c02-dyn', 'c02.cpp', wrap=('malloc', 'free'), defines=('HEATSHRINK_DYNAMIC_ALLOC=1',))],
      'explicit-state search over decoder states of the real C library',
      'All chunkings of each base patch are covered up to byte-equal object states; damaged, truncated and lzma '
      'patches up to two or three cuts. Base patches are a fixed set.')

check('C03', 'exploration',
      'all truncations, substitutions (every value), insertions, deletions of base patches, all hostile token '
      'sequences and payload strings up to a depth; distinct_nontrivial counts distinct patches the reference '
      'decoder says must be refused',
      lambda tier: [cpart('c03', 'c03.cpp'),
                    cpart('c03-dyn', 'c03.cpp', defines=('HEATSHRINK_DYNAMIC_ALLOC=1',))],
      'bounded exhaustive enumeration of hostile patches against a reference decoder',
      'Every mutation and token sequence within the bounds is judged by an independent three-valued decoder.', extra_counters=['must_accept', 'must_reject', 'either'])

check('C12', 'exploration',
      'header field combinations over a hostile value set, mutations of valid in-place patches, record token '
      'sequences; distinct_nontrivial counts distinct patches that are not plainly valid',
      lambda tier: [cpart('c12', 'c12.cpp')],
      'bounded exhaustive enumeration of hostile in-place patches with an address monitor',
      'Every header combination, mutation and token sequence within the bounds; every callback address is checked.', extra_counters=['must_accept', 'must_reject', 'either'])

check('C04', 'exploration',
      'all strings over a 10-letter hostile alphabet after each header prefix, all single substitutions and truncations '
      'of valid patches, odd call sequences; distinct_nontrivial counts distinct patches',
      lambda tier: [cpart('c04-asan', 'c04.cpp', san='asan'),
                    cpart('c04-dyn', 'c04.cpp', san='asan', defines=('HEATSHRINK_DYNAMIC_ALLOC=1',)),
                    cpart('c04-msan', 'c04.cpp', san='msan', defines=('DETOOLS_CONFIG_COMPRESSION_LZMA=0',))],
      'bounded exhaustive enumeration of patch bytes on sanitizer builds of the real C library',
      'Complete for the stated alphabets and lengths; memory errors are those ASan, UBSan and MSan (lzma left out) can '
      'see, and a hang is a case that makes no progress for the watchdog time when run alone.',
      extra_counters=['succeeded', 'refused'])

check('C05', 'model_checking',
      'state = (patch position, bytes of the apply object, from position, to-data); transitions = process() with the '
      'next k bytes, or dump (optionally letting the old object run on), destroy, restore into another poisoned object '
      'and continue at the reported offsets; every path that has given all data ends in finalize and is judged',
      lambda tier: [cpart('c05', 'c05.cpp'),
                    cpart('c05-dyn', 'c05.cpp', san='asan', defines=('HEATSHRINK_DYNAMIC_ALLOC=1',))],
      'explicit-state search over dump/restore histories of the real C library',
      'All histories of chunks and dump/restore steps up to equal object states for small patches; large patches use '
      'four chunk sizes. The from-data is assumed positioned at its start before restore, as the header says of seek.')

check('C06', 'exploration',
      'every callback invocation of every scenario fails in turn with every error value, the application giving up or '
      'going on; distinct_nontrivial counts distinct (scenario, API, invocation, value)',
      lambda tier: [cpart('c06', 'c06.cpp', san='asan')],
      'exhaustive fault injection at every callback invocation of the real C library',
      'All single faults at all invocations of the listed scenarios; nothing is called after a fault, which the check '
      'itself establishes, so pairs of faults add nothing.')

STDIO = ('fopen', 'fclose', 'fread', 'fwrite', 'fseek', 'ftell')
check('C07', 'exploration',
      'scenario (valid, truncated or damaged patch) x API x every single allocation, callback or stdio call failing in '
      'turn, all later allocations failing, pairs of stdio failures; distinct_nontrivial counts distinct '
      '(scenario, API, fault)',
      lambda tier: [cpart('c07', 'c07.cpp', wrap=STDIO),
                    cpart('c07-dyn', 'c07.cpp', wrap=STDIO, defines=('HEATSHRINK_DYNAMIC_ALLOC=1',))],
      'exhaustive fault injection with an allocation and FILE ledger on the real C library',
      'The ledger sees everything malloc gave out during the calls, liblzma and stdio included.')

check('C08', 'model_checking',
      'schedule = order of the API calls of two or three sessions (all orders), a callback invocation at which a '
      'complete second session runs, or the callbacks at which two sessions are switched (all schedules with up to two or '
      'three preemptions); states = schedules executed, transitions = API calls executed, every schedule runs '
      'on the real library and each session is compared with its run alone; the third part runs the sessions in threads '
      'under the thread sanitizer',
      lambda tier: [cpart('c08', 'c08.cpp'),
                    cpart('c08-dyn', 'c08.cpp', defines=('HEATSHRINK_DYNAMIC_ALLOC=1',)),
                    cpart('c08-tsan', 'c08.cpp', san='tsan', cxxdefs=('VERIF_TSAN',))],
      'stateless enumeration of all call interleavings of the real C library, with a race detector for unscheduled runs',
      'All interleavings at API-call granularity and preemption-bounded ones at callback granularity for the listed '
      'sessions. Interleavings inside one call between callbacks are only covered by the race detector.')

check('C09', 'exploration',
      'all geometries (memory, segment, shift, from and to size) of the stated shapes x 5 record styles x 3 contents x '
      'compressions x step callback combinations x 3 APIs; distinct_nontrivial counts distinct (memory, patch) with '
      'non-empty to-data',
      lambda tier: [cpart('c09', 'c09.cpp')],
      'bounded exhaustive enumeration of geometries executed on the real C library',
      'Every geometry of the shapes (segment size x number of segments); large segments use sizes around the segment '
      'and buffer boundaries only.')

check('C10', 'model_checking',
      'state = (memory image, stored step); transition = a session stopped at a write, erase or step store in one of five '
      'ways (not done, two or three torn forms, done) or by the patch ending; from every state an undisturbed session must '
      'complete with the to-data. All runs are on the real library.',
      lambda tier: [cpart("c10", "c10.cpp"), cpart("c10-file", "c13.cpp", wrap=STDIO + ("fflush",), cxxdefs=("RESUME",))],
      'crash-state graph search over the real C library and a flash simulator',
      'Closed under any number of interruptions. A stop after the final step store is completion; torn operations are the '
      'modelled ones (prefixes, halves, undefined contents).')

check('C11', 'model_checking',
      'as C10, the state including which bytes are erased; every write and erase of every first and resumed session is '
      'checked against the flash rules, on a memory whose writes can only clear bits',
      lambda tier: [cpart('c11', 'c10.cpp', cxxdefs=('RULES',))],
      'crash-state graph search with a flash rule monitor on the real C library',
      'Every geometry of the shapes; first runs and runs resumed after any interruptions.')

STDIO13 = STDIO + ('fflush',)
check('C13', 'exploration',
      'scenario (valid, truncated patch, short from file, pre-existing to file) x stream buffering x every operation below '
      'stdio (open, read, write, seek, close) failing in three ways, transient or for good, every stdio call failing, and '
      'pairs; distinct_nontrivial counts distinct (scenario, buffering, faults)',
      lambda tier: [cpart('c13', 'c13.cpp', wrap=STDIO13)],
      'exhaustive fault injection below and at the stdio layer of the real C library',
      'All single faults and pairs for the listed scenarios over simulated files with real stdio buffers of five sizes.')

check('C14', 'exploration',
      'all argument vectors up to five words over 11 words; scenarios (valid, cut, damaged patches, cut from files) x '
      'buffering x every file operation failing; real processes with every file size limit; all integers in a range as '
      'error codes; distinct_nontrivial counts distinct (arguments or scenario, fault)',
      lambda tier: [cpart('c14', 'c14.cpp', wrap=STDIO13 + ('exit',), extra_c=('c/main.c',), defines=('main=cli_main',))],
      'bounded exhaustive enumeration of command lines and faults on the real C program',
      'c/main.c runs in the harness process on simulated files; a smaller set runs as real processes. When from and to '
      'name the same file only absence of crashes is checked.')


def c15_workers():
    """One program per configuration; also the 'compiles and links' half of the property."""
    d = os.path.join(R.BUILD, 'c', 'c15w')
    os.makedirs(d, exist_ok=True)
    key = R.tree_hash([f'{R.REPO}/c', R.SRC])
    stamp = os.path.join(d, 'stamp')
    if os.path.exists(stamp) and open(stamp).read() == key:
        return d

    def build(k):
        names = ['COMPRESSION_NONE', 'COMPRESSION_LZMA', 'COMPRESSION_CRLE', 'COMPRESSION_HEATSHRINK', 'FILE_IO']
        defs = [f'-DDETOOLS_CONFIG_{n}={k >> i & 1}' for i, n in enumerate(names)] + [f'-DHEATSHRINK_DYNAMIC_ALLOC={k >> 5 & 1}']
        srcs = [f'{R.REPO}/c/detools.c', os.path.join(R.SRC, 'c15w.c')]
        if k & 8:
            srcs.append(f'{R.REPO}/c/heatshrink/heatshrink_decoder.c')
        R.sh([R.CC, '-std=gnu99', '-O1', '-w', '-I', f'{R.REPO}/c', '-I', f'{R.REPO}/c/heatshrink'] + defs + srcs +
             (['-llzma'] if k & 2 else []) + ['-o', os.path.join(d, f'w{k:02d}')])
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        list(ex.map(build, range(64)))
    open(stamp, 'w').write(key)
    return d


check('C15', 'exploration',
      'all 64 combinations of the compile-time switches (built and linked without the libraries of what is disabled) x a '
      'corpus of valid, cut and damaged patches x APIs (callbacks, whole, bytewise, dump/restore at every byte, files); '
      'distinct_nontrivial counts distinct (configuration, patch, API) that applied or were refused as disabled',
      lambda tier: [cpart('c15', 'c15.cpp', args=['--workers', c15_workers()])],
      'exhaustive enumeration of build configurations, each run on a common corpus and compared with the full build',
      'All configurations; the corpus is bounded. The compiler is gcc with the C99 dialect the Makefile uses.',
      build_failure_is_violation=True)

check('C16', 'model_checking',
      'state = (decoder bytes, input sunk, output fetched); transitions = sink of 0..3 or all bytes, poll for 0..3 or 64 '
      'bytes; for every token sequence of the alphabet and small settings all orders up to equal states, for the other '
      'settings all uniform granularities; plus all byte strings up to two bytes, window and position wrap-around, all '
      'settings 0..255 x 0..255',
      lambda tier: [cpart('c16', 'c16.cpp', san='asan'),
                    cpart('c16-dyn', 'c16.cpp', san='asan', defines=('HEATSHRINK_DYNAMIC_ALLOC=1',))],
      'explicit-state search over the states of the real decoder, judged by an independent decoder',
      'Complete for the token alphabets and depths stated; wrap-around positions and large windows use fixed '
      'granularities.')

check('C26', 'model_checking',
      'state = (to file, state file); transitions = a run with any amounts, to its end or killed after any operation that '
      'changes a file; every run that finishes is judged, and from every state the update can be finished or started '
      'over; in addition every file operation of some states fails in turn, and every byte of the patch is damaged',
      lambda tier: [cpart('c26', 'c26.cpp', wrap=STDIO13 + ('exit', 'fileno', 'ftruncate', 'remove', 'unlink', 'rename', 'malloc', 'free'),
                          extra_c=('c/examples/dump_restore/main.c',), defines=('main=ex_main',))],
      'crash-state graph search over the real example program on simulated files',
      'Closed under any number of runs and kills for small patches of three compressions and three buffer sizes; lzma '
      'cannot be dumped.')

check('C22', 'exploration',
      'all strings over small alphabets up to a length; all periods up to a length with every chosen byte changed; runs, '
      'Fibonacci, Thue-Morse and de Bruijn words with all short cuts; repeated pseudo-random blocks; distinct_nontrivial '
      'counts distinct groups of strings; each string is sorted by both algorithms',
      lambda tier: [pypart('c22', 'c22.py'), pypart('c22-asan', 'c22.py', san='asan')],
      'bounded exhaustive enumeration of strings on the real extension module, judged by a linear-time order check',
      'Complete for the alphabets and lengths stated; longer strings are structured families. The second part repeats it '
      'with the address sanitizer in the extension.', extra_counters=[])

check('C18', 'exploration',
      'all signed values up to a bound and all within 300 of every power of two, sums and differences of two powers, all '
      'byte strings over 12 letters up to a length (Python); all adjustments up to a bound, with unneeded trailing groups, '
      'as seen by the seek callback, and sizes of every header and record field (C); distinct_nontrivial counts groups of '
      'values and distinct patches',
      lambda tier: [pypart('c18-py', 'c18.py'), cpart('c18', 'c18.cpp')],
      'bounded exhaustive enumeration of sizes and encodings on the real code, judged by a reference decoder',
      'The C library is seen through its callbacks only; values that need more than four bytes may be refused or exact.')

check('C17', 'model_checking',
      'state = (input given, output taken, decompressor attributes); transitions = all numbers of input bytes x output '
      'sizes, for all triples of run lengths around the repetition threshold, each compressed with all splits of the '
      'input; traces_validated counts the forms also decoded by the C library in three chunkings',
      lambda tier: [pypart('c17', 'c17.py')],
      'explicit-state search over the real decompressor, and bounded exhaustive enumeration of strings and splits',
      'Complete for the alphabets, lengths and run lengths stated; large sizes use fixed chunk sizes.')

check('C19', 'exploration',
      'all pairs of short strings, all scripts of up to three pieces (copies, changed copies, new data) over several '
      'from-data, all pairs of edit positions, fuzzy matches, sizes around the buffers, all heatshrink settings; each with '
      'compressions, suffix-array algorithms, mmap on and off; distinct_nontrivial counts distinct (from, to) pairs',
      lambda tier: [pypart('c19', 'c19.py'), pypart('c19-asan', 'c19.py', san='asan')],
      'bounded exhaustive enumeration of inputs through the real create and apply code, judged by an independent reader and '
      'the C library',
      'Complete for the stated alphabets and scripts. hdiffpatch and match-blocks are left out, see C32.')

check('C20', 'exploration',
      'all geometries of small segments (memory, minimum shift, from and to sizes, one or two bytes beyond the memory) x '
      'contents x compressions, bad geometries, larger segments at boundary sizes, scripts of pieces; distinct_nontrivial '
      'counts distinct (from, to, geometry)',
      lambda tier: [pypart('c20', 'c20.py')],
      'bounded exhaustive enumeration of geometries through the real create and apply code, judged by an independent reader '
      'and the C library',
      'Complete for the segment sizes stated. A minimum shift of zero or less may be refused.', extra_counters=['accepted', 'refused'])

check('C21', 'exploration',
      'all pairs of short strings, all scripts of up to three pieces over several from-data, all pairs of edit positions, '
      'sizes around the bz2 block and output sizes, many records; distinct_nontrivial counts distinct (from, to) pairs',
      lambda tier: [pypart('c21', 'c21.py')],
      'bounded exhaustive enumeration of inputs through the real create and apply code, judged by an independent '
      'BSDIFF40 reader',
      'Complete for the stated alphabets and scripts. The independent reader is part of the harness; it uses the standard '
      'bz2 module.')

check('C23', 'exploration',
      'all truncations, all single substitutions, insertions, deletions and reversals, pairs of changed bytes, of patches '
      'of all compressions and types; all in-place headers over a value set; all record structures over hostile sizes up '
      'to a depth; control, diff and extra streams of all lengths; all strings over 15 letters up to a length; '
      'distinct_nontrivial counts distinct patches the reference decoder refuses',
      lambda tier: [pypart('c23', 'c23.py')],
      'bounded exhaustive enumeration of hostile patches against a reference decoder',
      'Every mutation and structure within the bounds is judged by an independent three-valued decoder, with a watchdog.',
      extra_counters=['must_accept', 'must_reject', 'either'])

check('C24', 'exploration',
      'patches for all pairs of short strings, scripts of pieces, in-place geometries, heatshrink settings and data formats, '
      'with all compressions, and hand-made records of every encoded size; patch_info() and the output of the patch_info '
      'command, in four forms, are compared with an independent reading of the patch; distinct_nontrivial counts patches',
      lambda tier: [pypart('c24', 'c24.py')],
      'bounded exhaustive enumeration of patches through the real information functions and command line, judged by an '
      'independent reader',
      'Complete for the stated families. The information of hdiffpatch patches is part of C32.',
      extra_counters=['command_line_runs'])

check('C25', 'exploration',
      'for every kind of instruction all pairs of value sets and of single and double bits, numbers of instructions, cut '
      'ends and gaps; all sequences of encodings up to a length, repeated with other low bits; all combinations of address '
      'ranges out of a set, tables of pointers at all alignments; programs with insertions at all places; '
      'distinct_nontrivial counts distinct inputs whose patch has at least one block of values',
      lambda tier: [pypart('c25', 'c25.py')],
      'bounded exhaustive enumeration of programs and address ranges through the real create and apply code',
      'Complete for the encodings, sequences and ranges stated; programs are synthetic. In-place patches with a data format '
      'are a known finding.', extra_counters=['blocks', 'refused'])

check('C28', 'exploration',
      'all combinations of the options of the create commands out of value lists, all spellings of sizes and ranges, all '
      'subsets of the address options; the apply commands with patches of all types, all their truncations and single '
      'changed bytes; every file operation of every command failing in turn; real processes under file size limits; '
      'distinct_nontrivial counts distinct (command, options, inputs, fault)',
      lambda tier: [pypart('c28', 'c28.py')],
      'bounded exhaustive enumeration of command lines and file faults on the real program, compared with the library',
      'Complete for the listed values. The hdiffpatch extension is replaced by a stand-in that records what it is asked.',
      extra_counters=['runs', 'processes', 'faults', 'refused'])

check('C29', 'exploration',
      'ELF files for the three machines: all sequences of up to five function, object and other symbols in one section x '
      'sizes x gaps, all triples of short sequences in three sections x orders of the table, sections at low and high '
      'addresses x unloaded sections x zero-filled data x prefixes of the binary, by content and by offset; damaged ELF '
      'files; distinct_nontrivial counts distinct (machine, programs, way of locating)',
      lambda tier: [pypart('c29', 'c29.py')],
      'bounded exhaustive enumeration of program layouts through the real command line, judged by an independent computation '
      'of the ranges',
      'Complete for the layouts stated; symbols of the same kind do not overlap and the ELF files are synthetic.',
      extra_counters=['runs', 'applied', 'refused_ranges', 'refused_files'])

check('C30', 'exploration',
      'all strings up to a length over two and three letters, all cuts of what is written, all single and pairs of cuts of the '
      'compressed form, output sizes, for the seven compressions; streams of other encoders, whole and cut anywhere; every heatshrink setting with repeats at the distances and '
      'lengths where its fields end; sizes around the blocks; distinct_nontrivial counts distinct data',
      lambda tier: [pypart('c30', 'c30.py')],
      'bounded exhaustive enumeration of data and of ways to write and read it through the real compressors and patch reader, '
      'judged by independent decoders and the C library',
      'Complete for the alphabets, lengths and cuts stated. lzma, bz2, lz4 and zstd streams are judged with the same libraries the '
      'code uses.', extra_counters=['c_library_runs', 'cut_streams'])

check('C31', 'exploration',
      'each function of the extensions with valid and wrong arguments, and each way to create, apply and inspect patches (types, '
      'compressions, files or streams) x every single Python allocation failing, all from one on, every malloc() of the '
      'extensions, all from one on; distinct_nontrivial counts distinct (operation, fault)',
      lambda tier: [pypart('c31', 'c31.py', san='fault')],
      'exhaustive fault injection at every allocation of the real package, with a ledger of blocks, buffers, references and files',
      'All single faults and all faults from one on for the listed operations. Leaks of Python objects are looked for '
      'without a failing Python allocation only, as CPython itself loses some then.', extra_counters=['raised', 'malloc_failures_survived', 'leak_rounds'])

check('C32', 'exploration',
      'all differ outputs up to a length over three letters, sizes around the read blocks, all compressions, heatshrink settings, '
      'match scores and block sizes, streams, files and the command line, with and without mmap; all truncations of small '
      'patches; all sequences of up to three match-blocks records; distinct_nontrivial counts distinct (options, inputs, output)',
      lambda tier: [pypart('c32', 'c32.py')],
      'bounded exhaustive enumeration of differ outputs and options through the real create, apply and information functions, with '
      'a recording stand-in for the differ, judged by independent decoders and the C library',
      'Complete for the listed values. The differ itself (HDiffPatch) is not in the tree and is replaced by the stand-in.',
      extra_counters=['command_line_runs', 'truncations', 'failures', 'c_library_runs'])

check('C33', 'exploration',
      'identical data: all strings up to 11 bytes over two letters, 7 over three, sizes; all sequences of up to 5 of 4 pieces and 3 new '
      'strings; all positions of pieces, insertions, deletions, pairs of changes; up to 1800 pieces; in-place geometries; compressions; '
      'distinct_nontrivial counts distinct (from-data, to-data)',
      lambda tier: [pypart('c33', 'c33.py')],
      'bounded exhaustive enumeration of edits through the real creation, the cost of the patch read by an independent decoder '
      'compared with the bytes that are new',
      'Complete for the listed edits of data without repetitions. Nothing is said of how well repetitive data or data formats do.',
      extra_counters=['records', 'in_place_segments_found', 'compressions'])

check('C34', 'exploration',
      'all ordered pairs of 77 operations, all triples of 13, each 20 times; all pairs of 17 operations interleaved: every single switch, '
      'pairs of switches on a grid, a switch at every, every second and third step; triples; distinct_nontrivial counts distinct histories and pairs',
      lambda tier: [pypart('c34', 'c34.py')],
      'systematic exploration of histories and of interleavings with a bounded number of switches under a controlled scheduler, on the '
      'real package, compared with the operation alone in a fresh process',
      'Complete for the listed operations and numbers of switches. Switches happen at stream operations; what runs between is not divided.',
      extra_counters=['schedules', 'steps'])

check('C35', 'exploration',
      'all combinations of 8 algorithms, 9 types, 14 compressions, 5 suffix array algorithms, 6 data formats (wrong ones among them); all '
      'heatshrink parameters -1..19; all subsets of 7 options; all geometries over 8 values; every address and pair of addresses changed; '
      'by name and by position, streams and files; all truncations and changed bytes through both kinds of the other functions; '
      'distinct_nontrivial counts distinct calls',
      lambda tier: [pypart('c35', 'c35.py')],
      'bounded exhaustive enumeration of the argument space of the library functions against a model of what each combination must do, '
      'on the real package, patches judged by independent decoders',
      'Complete for the listed values. The differ of hdiffpatch and match-blocks is a stand-in that records what it is asked.',
      extra_counters=['refused', 'calls_given_in_every_way', 'other_functions'])

check('C36', 'model_checking',
      'state = patch bytes given so far and what has been read, written and allocated; transition = process() with the next chunk: '
      'all chunkings of small patches, and for others uniform chunks of about 22 sizes, alternating with empty and single-byte '
      'chunks, every single cut and every cut-off byte, and the callbacks API; after every transition writes, reads, heap and stack '
      'are judged against what the patch prefix determines; distinct_nontrivial counts distinct (from, patch)',
      lambda tier: [cpart('c36', 'c36.cpp'),
                    cpart('c36-dyn', 'c36.cpp', defines=('HEATSHRINK_DYNAMIC_ALLOC=1',))],
      'exhaustive enumeration of chunkings on the real C library with a heap ledger, a painted stack and a model of the data each patch prefix determines',
      'Complete for the chunkings stated of the listed patches. The limits follow from the documented buffers (chunk, window, 128 bytes).')
