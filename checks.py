"""What every check runs, and how its evidence describes it."""

COMMON = ['The archery crate and the standard library are correct.', 'The harness models are right.']

CHECKS = {}

# Large collections and sizes around powers of two and of the branching factors, which random histories do not reach:
# harness/src/bin/wide.rs has one mode per property.
WIDE = {'C01', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C16', 'C17', 'C20', 'C21', 'C22', 'C23', 'C24'}
WIDE_RULE = (' A second program drives collections of large sizes (thresholds of powers of two and of the branching '
             'factors, their neighbours, and random ones, up to 131 072 entries, or about a million elements of a '
             'sequence) through the operations of this property, with the same oracle; there, one case is one size of '
             'one collection.')


def check(pid, parts, rule, technique, note, level='exploration', need=None, assumptions=None):
    if pid in WIDE:
        parts = parts + [dict(bin='wide', name=pid.lower() + '-wide', mode=pid.lower(), features=['serde'])]
        rule += WIDE_RULE
        need = dict(need or {}, large_cases=20)
    CHECKS[pid] = dict(parts=parts, rule=rule, technique=technique, level=level, level_note=note, need=need or {},
                       assumptions=(assumptions or []) + COMMON)


MODEL_RULE = (
    'One case is one random history (8 to 140 operations on 1 to 8 coexisting versions; persistent, in-place and '
    'clone-then-in-place forms; several pointer kinds, configurations and key patterns), the result of every operation '
    'and the version it produced being compared with an executable model, old versions again now and then; some cases '
    'are long histories over large sizes. One evaluation is one comparison of a whole version (size, lookups, ends, '
    'out-of-range accesses; all of the contents in the deep ones). A case counts as non-trivial when at least four '
    'operations really changed something; distinct cases are distinct operation sequences.')
MODEL_TECH = 'runtime monitoring: random histories on the real code, online comparison with an executable model'
MODEL_NOTE = ('Held on the executed histories only; {0}. Trusted: the model, the standard library, the random histories '
              'reaching the relevant internal states.')

check('C02', [dict(bin='c02')], MODEL_RULE, MODEL_TECH, MODEL_NOTE.format('the List and Stack API is driven in full'),
      need={'reverse': 1000, 'refused': 100, 'became_empty': 100, 'big_cases': 10})
check('C03', [dict(bin='c03')], MODEL_RULE, MODEL_TECH,
      MODEL_NOTE.format('lengths up to about 65 000 and bits 1 to 255, with all root height changes up to those lengths'),
      need={'vector_root_height_changes': 1000, 'refused': 100, 'set': 1000, 'get_mut': 1000, 'extend': 100})
check('C04', [dict(bin='c04')], MODEL_RULE, MODEL_TECH, MODEL_NOTE.format('the Queue API is driven in full'),
      need={'refused': 100, 'became_empty': 100, 'big_cases': 10})
check('C05', [dict(bin='c05')], MODEL_RULE, MODEL_TECH,
      MODEL_NOTE.format('ten families of hash distributions, all degrees'),
      need={'hash_const': 100, 'hash_top_bits': 100, 'hash_shared_low': 100, 'degree_2': 100, 'map_get_mut': 1000})
check('C06', [dict(bin='c06')], MODEL_RULE, MODEL_TECH,
      MODEL_NOTE.format('ranges with every kind of bound, consumed from both ends'),
      need={'remove': 10000, 'map_get_mut': 1000, 'big_cases': 10})

check('C01', [dict(bin='c01')],
      'One case is one random history over a tree of up to a dozen versions; every version carries a snapshot (size, '
      'iteration, ends, lookups) taken when it was obtained, and after every operation on any other version, snapshots '
      'are compared again. One evaluation is one such comparison of a whole version. Distinct cases are distinct '
      'operation sequences; a case counts as non-trivial when operations really changed something while other versions '
      'were alive.',
      'runtime monitoring: snapshot of every coexisting version re-checked after every operation of random histories',
      'Held on the executed histories only. Trusted: the snapshot covers everything observable without timing.')
check('C07', [dict(bin='c07')],
      MODEL_RULE + ' Further cases build pairs of sets (equal, nested, overlapping, disjoint, empty, shared or not, '
      'different pointer kinds, hashers and key orders) and compare is_disjoint, is_subset, is_superset, == with the '
      'mathematical answer.',
      MODEL_TECH + '; offline comparison of set relations with std sets',
      MODEL_NOTE.format('pairs of sets up to a few hundred elements'))
check('C08', [dict(bin='c08')],
      'One case is one iterator (any collection, any of its iterators, built by a random history) driven by a random '
      'interleaving of next, next_back, nth, nth_back, clone, adaptors, over-consumption after the end; the oracle is '
      'the list of contents, and the exact remaining length after every step. One evaluation is one step. Distinct '
      'cases are distinct (contents, script) pairs; every case with at least one element is non-trivial.',
      'runtime monitoring: online checker of every step of an iterator against a double-ended reference',
      'Held on the executed interleavings only. Trusted: the model.')
check('C09', [dict(bin='c09')],
      'One case is a group of collections with related contents built along different histories (shared, rebuilt, '
      'reconfigured, other pointer kinds); every pair is compared: ==, !=, partial_cmp, cmp, <, <=, >, >= against the '
      'same of the standard collections of the contents, and the recorded Hasher calls of equal ones, of different ones, and '
      'of different divisions of the same sequence. Some cases compare elements with a partial order only, and vectors of '
      'two element types. One evaluation is one pair. Distinct cases are distinct groups of contents.',
      'runtime monitoring: recorded hasher event streams and comparisons against the contents',
      'Held on the executed pairs only; element types with lawful comparisons, total or partial.',
      need={'partial_pairs': 1000, 'hash_differences': 1000, 'pairs_without_order': 100})
check('C12', [dict(bin='c12')],
      'One case is one random history over several versions; after every step the set of living element instances '
      '(every one has an identity and a liveness state) must be exactly the set of the instances shown by the living '
      'versions; a second execution checks the allocator balance to the byte. One evaluation is one audit. Distinct '
      'cases are distinct operation sequences; non-trivial when at least three versions were dropped on the way.',
      'runtime monitoring: liveness audit of instrumented elements after every operation, and allocator balance',
      'Held on the executed histories only. Trusted: iteration shows what a version contains (C02 to C08).',
      need={'allocator_balances': 10000})
check('C13', [dict(bin='c13')],
      'One case is one random history; the addresses and instances of all elements before and after every operation '
      'are compared, the Clone calls counted, and ptr_eq checked against the histories. One evaluation is one '
      'operation. Distinct cases are distinct operation sequences.',
      'runtime monitoring: element addresses and Clone events recorded around every operation',
      'Held on the executed histories only.')
check('C20', [dict(bin='c20')],
      'One case is one random history; every operation is applied to the same version in its persistent form, in place '
      'on a clone, and in place on an unshared rebuilt copy; the results and contents must agree. One evaluation is '
      'one such triple. Distinct cases are distinct operation sequences.',
      'runtime monitoring: differential execution of the forms of an operation',
      'Held on the executed histories only.')

check('C10', [dict(bin='c10', features=['serde'])],
      'One case is one collection (any kind, pointer kind, configuration; possibly nested; built by a random history or '
      'from a stream with duplicate keys) serialized through a recording serializer and JSON, compared event by event with '
      'the serialization of the standard collection of the same contents, and deserialized again from either, from '
      'self-describing and length-prefixed forms; a random history is then run on the result and the model. One evaluation '
      'is one of these comparisons. Distinct cases are distinct (kind, contents) pairs; non-empty ones are non-trivial.',
      'runtime monitoring: recorded serializer event streams compared with those of the standard collections',
      'Held on the executed contents only, in the recorded event format and serde_json. Trusted: serde and serde_json.',
      need={'json': 1000, 'with_duplicates': 1000, 'nested': 100})
check('C11', [dict(bin='c11', features=['serde'])],
      'One case is one input to one deserializer: an event stream from a hostile generator (lengths announced from 0 to '
      'the maximum, types that do not fit, truncation, an error at every element in turn) or mutated JSON text, decoded '
      'into instrumented elements under a counting allocator. It must return, with all the supplied elements or the '
      "error of the input, without a panic, with peak memory in proportion to the elements supplied, and leave no element "
      'and no byte behind. One evaluation is one decoding. Distinct cases are distinct inputs.',
      'runtime monitoring with fault injection: hostile deserializers, liveness of instrumented elements, allocator peak',
      'Held on the generated inputs only. Trusted: serde, serde_json, the bound on proportionate memory.',
      need={'hostile_lengths': 10000, 'fault_points': 10000, 'text_refused': 1000, 'accepted': 10000, 'refused': 10000})
check('C14', [dict(bin='c14')],
      'One case is one operation-count experiment on one collection and history: every operation is bracketed by counters '
      'of key comparisons, hash computations, element touches, pointer-kind operations, allocations and bytes, and compared '
      'with a limit that grows as documented (calibrated constants per tree level); the memory of a version is compared '
      'with that of its contents after growing and shrinking. One evaluation is one bracketed operation. Distinct cases are '
      'distinct histories.',
      'runtime monitoring: counting comparator, hasher, pointer kind and allocator around every operation',
      'Held on the executed histories only; constants are calibrated with slack, so a constant-factor slowdown below the '
      'slack is not seen.')

check('C15', [dict(bin='c15', features=['serde'], wall=400), dict(bin='c15', name='c15-dev', build='dev', mode='dev',
                                                                 features=['serde'], wall=400)],
      'One case is one operation (building to dropping) on one collection of 100 000 elements and more (or 5 000 in one '
      'hash bucket) in a thread with a stack of 192 KiB, or the simultaneous dropping, by several such threads, of versions '
      'that share their elements, with delays injected between pointer operations. Overflowing the stack ends the process, '
      'which the runner attributes to the case. The elements record the depth of the stack at their callbacks. One '
      'evaluation is one case; all are non-trivial and distinct. Run optimized, and unoptimized so that no recursion is '
      'turned into a loop.',
      'runtime monitoring: stress on guarded small stacks, recorded stack depth, injected delays in concurrent drops',
      'Held on the executed operations and sizes; concurrent drops only in the interleavings that happened.',
      need={'single_thread': 500, 'concurrent_drops': 100, 'threads_run': 900})

check('C16', [dict(bin='c16'),
              dict(bin='c16', name='c16-tsan', build='tsan', mode='tsan', wall=400),
              dict(bin='c16', name='c16-miri', build='miri', mode='miri', wall=500)],
      'One case is 2 to 6 threads, each with its own random history that starts from the same shared versions (read through '
      'shared references, cloned, updated in both forms, compared, sent to other threads, dropped), every result and '
      'contents being compared with a sequential model of that thread; delays are injected between pointer operations; at '
      'the end no element may be alive. One evaluation is one full comparison of a version, or one auto-trait probe. Distinct '
      'cases are distinct pairs of histories and observed interleavings of the operations of the threads; a case is '
      'non-trivial when the threads alternated more often than there are threads. The same under ThreadSanitizer (with an '
      'instrumented standard library; std::sync::Arc only, as it does not understand the fence of triomphe) and under Miri (data race detection, random preemption and weak memory).',
      'runtime monitoring: concurrent stress with injected delays against per-thread models; ThreadSanitizer; Miri',
      'Held on the interleavings that happened. Trusted: the atomics of the pointer libraries.',
      need={'interleaved_cases': 5000, 'delays_injected': 100000, 'auto_trait_probes': 400, 'thread_switches': 100000,
            'versions_received': 10000})

check('C17', [dict(bin='c17')],
      'One case is four operations (any of the API: in place, persistent, extend, collect, ==, cmp, hash, print, relations, '
      'clone, and all lookups, ranges and iterations) at the end of a random history. Each is executed once to count its '
      'callbacks into user code (Clone, Ord, Eq, Hash, formatting, iterators and their size hints) and then once per '
      'callback, from the same state, with a panic injected there (all of them up to 48, a random 48 beyond). One '
      'evaluation is the audit after one injected panic: other versions unchanged to the instance, updated version '
      'consistent and with everything unrelated to the operation, living elements exactly those shown, allocator balanced, '
      'later operations right. Distinct cases are distinct histories.',
      'runtime monitoring with exhaustive fault injection at every callback; liveness, consistency and allocator audits',
      'Every callback of the executed operations was made to panic (operations_fully_enumerated of operations); the '
      'operations and states are a random sample. Panics in Drop of an element are out of scope.',
      level='fault_enumeration',
      need={'faults_injected': 200000, 'operations_fully_enumerated': 10000, 'changed_before_the_panic': 1000})

check('C18', [dict(bin='c18', features=['rayon'], mem_mb=60000)],
      'One case is two versions of a random map (all hash distributions and degrees, 0 to 2500 entries, a few up to 131 000, grown, shrunk and '
      'updated in place) iterated in parallel in pools of 1 to 40 threads with delays in the closures: visits of every entry '
      'counted, a consumer of our own that records every fold and split (the reduction must give the sequential sequence), '
      'all the early-stopping and order-sensitive combinators against their sequential meaning, how far a single worker goes on '
      'once it has the answer, that work is divided at all, a panicking closure, and '
      'several iterations of one version at the same time while clones of it are changed. One evaluation is one monitored '
      'iteration or group of aggregates. Distinct cases are distinct maps; a case is non-trivial with two entries or more.',
      'runtime monitoring: exactly-once visit counters and recorded folds under work stealing with injected delays',
      'Held on the maps and the splits that happened. Trusted: rayon. Not run under TSan or Miri, which do not support the '
      'fences of the scheduler of rayon.',
      need={'large_maps': 5, 'early_exits': 20000, 'stopped_early': 1000, 'stops_judged': 3000, 'divided': 1000, 'splits': 50000, 'concurrent_iterations': 300})

check('C19', [dict(bin='c19'),
              dict(bin='c19', name='c19-asan', build='asan', wall=400),
              dict(bin='c19', name='c19-miri', build='miri', profile='plain', wall=500),
              dict(bin='c19', name='c19-msan', build='msan', thorough_only=True),
              dict(bin='c19', name='c19-miri-tree-borrows', build='miritb', thorough_only=True, thorough_scale=40),
              dict(bin='c19', name='c19-miri-32', build='miri32', thorough_only=True, thorough_scale=40),
              dict(bin='c19', name='c19-miri-big-endian', build='miribe', thorough_only=True, thorough_scale=40),
              dict(bin='c05', name='c05-asan', build='asan', thorough_only=True, thorough_scale=5),
              dict(bin='c06', name='c06-asan', build='asan', thorough_only=True, thorough_scale=5),
              dict(bin='c03', name='c03-asan', build='asan', thorough_only=True, thorough_scale=5),
              dict(bin='c11', name='c11-asan', build='asan', features=['serde'], thorough_only=True, thorough_scale=5),
              dict(bin='c17', name='c17-asan', build='asan', thorough_only=True, thorough_scale=5)],
      'One case is one random program (10 to 500 operations on up to 4 versions) over the whole API of one collection, with '
      'elements that are zero-sized, zero-sized with a destructor and an alignment, one byte with a niche, aligned to 64 '
      'bytes, of 560 bytes, owning memory, or lawless (comparisons and hashes at random, never equal, always equal, not '
      'transitive, changing). Every element that comes out is read in full and its pattern checked; at the end no element '
      'and no byte may be left. One evaluation is one program. Distinct cases are distinct programs; non-trivial when '
      'elements were read. Run as compiled with debug assertions, under AddressSanitizer and LeakSanitizer with the '
      'standard library checking preconditions of unsafe functions and without debug assertions, and under Miri (stacked '
      'borrows); thorough: also MemorySanitizer, tree borrows, a 32-bit and a big-endian target, and the model-based '
      'programs under AddressSanitizer.',
      'runtime monitoring: AddressSanitizer, LeakSanitizer, Miri and unsafe-precondition checks over hostile programs',
      'Held on the programs that were executed. Trusted: the sanitizers and Miri.',
      need={'elements_read': 10000000, 'lawless_callbacks': 3000000, 'panics_of_lawless': 5000})

check('C21', [dict(bin='c21')],
      'One case is one construction: a collection of any kind, pointer and hash distribution collected from, or a vector '
      'extended by, an iterator that announces its length exactly, not at all, loosely, up to the maximum or differently '
      'each time (some go on after their end), while the allocator records the peak; or all sixteen macros with 0 to 49 '
      'arguments that count their evaluations; or iterators of the standard library; or every constructor and Default. The '
      'result is compared with a model, with the same built step by step (==, order, hash) and then taken through a random '
      'history. One evaluation is one construction or one later operation. Distinct cases are distinct arguments; '
      'non-trivial with two elements or more.',
      'runtime monitoring: model comparison, allocator peak and evaluation counters under adversarial iterators',
      'Held on the constructions that were executed. Announcements that are not lawful are out of scope.',
      need={'hint_upper_max': 4000, 'hint_changing': 4000, 'macros': 2000, 'constructors': 500, 'natural_iterators': 2000})

check('C22', [dict(bin='c22'),
              dict(bin='c22', name='c22-no-std', nodefault=True, mode='no-std', scale=60),
              dict(bin='c22', name='c22-plain', build='plain', mode='plain', scale=60),
              dict(bin='c22', name='c22-miri-32', build='miri32', mode='miri32', wall=500),
              dict(bin='c22', name='c22-miri-big-endian', build='miribe', mode='miribe', wall=500)],
      'One case is one random history carried out at once in 2 to 4 configurations (bits 1 to 63, degree 2 to 64, ten '
      'families of hash functions, three pointer kinds), every result and version compared with one model and the versions '
      'of different configurations with each other by == and the set relations; or the allocations of updates of a version '
      'derived by a random history, compared with those of a fresh one of its configuration; or one number as branching '
      'bits and as degree, which must be refused or work. The program is compiled with and without the standard library '
      'feature, with and without debug assertions, and interpreted for a 32-bit and a big-endian target. One evaluation is '
      'one comparison. Distinct cases are distinct histories or numbers.',
      'runtime monitoring: differential execution across configurations, builds and targets against one model',
      'Held on the executed histories; all 256 numbers are tried as configuration, on vectors and maps of up to 300 elements.',
      need={'compared_across_configurations': 50000, 'related_across_configurations': 10000, 'derived_versions_measured': 2000,
            'configurations_told_from_the_default': 500, 'bits_refused': 20, 'bits_accepted': 2000, 'degrees_refused': 2000,
            'degrees_accepted': 30})

check('C23', [dict(bin='c23')],
      'One case is one collection (any kind and pointer kind; every version at the end of a random history, or collections of '
      'numbers, characters, strings with delimiters in them, empty texts, elements printed in pieces, nested collections, '
      'elements that show their formatting options; up to 30 000 elements) printed with random formatting options (31 forms, '
      'with width and precision) through a recording writer, then through writers that fail at a byte or a call (all of them '
      'for texts up to 64 bytes), for good or once, with part of the text taken or not, directly and through std::io. The '
      'text must be what the elements print one by one, in iteration order, joined and delimited; the error must be '
      'reported, with a prefix written and the writer not called again. One evaluation is one printing. Distinct cases are '
      'distinct texts and options; non-empty collections are non-trivial.',
      'runtime monitoring with fault injection: recording and failing writers at every byte and call',
      'Held on the printed collections only; for texts of at most 64 bytes, all fault points.',
      need={'faults_injected': 1000000, 'fault_points_all': 20000, 'with_options': 50000, 'long': 500})

check('C24', [dict(bin='c24'), dict(bin='c24', name='c24-plain', build='plain', mode='plain', scale=50)],
      'One case is: all lengths of a small vector of one number of bits (every number is tried) with indices around every '
      'power of two and around the length; all pairs of bounds on a small tree with extreme keys; all constructors with one '
      'number; random histories over versions of a collection whose elements are of one of 18 types (zero-sized, extreme '
      'numbers, strings, collections), hostile iteration included; or extreme operations on the versions of a random '
      'history, on the emptied and the empty one, in both forms. Every call is guarded: it must return what the model says, '
      'and leave everything else as it is; what is documented to panic must panic and leave the collection as it is; a case '
      'that uses 30 s of CPU is a hang. One evaluation is one argument. Distinct cases are distinct operation sequences. '
      'With and without the assertions and overflow checks.',
      'runtime monitoring: guarded calls with extreme arguments against models, exhaustive small grids, hang watchdog',
      'Held on the executed calls. Exhaustive over bits for small vectors and over pairs of bounds for small trees.',
      need={'absent_indices': 1000000, 'absent_indices_indexed': 50000, 'invalid_ranges': 300000, 'valid_ranges': 400000,
            'absent_keys_indexed': 50000, 'refused': 30000, 'panicked_as_documented': 600, 'parameters': 1000,
            'hostile_iterations': 100000})

check('C25', [dict(clients='hosted', name='hosted'), dict(clients='freestanding', name='freestanding')],
      'One case is one random client program (an edition, a way of importing, a set of shadowed names and prelude, six to '
      'eleven uses of the construction macros with random element expressions), built against the crate and executed; what '
      'it prints (contents, order of evaluation, size) is compared with what the generator computed, and with the same '
      'program over control macros. Further: one program per feature set without any standard library, its transcript '
      'compared line by line with that of the same program hosted. One evaluation is one printed line. Distinct cases are '
      'distinct (edition, import, uses) and distinct transcript lines.',
      'runtime monitoring: generated client programs executed, their output compared; transcript of a freestanding program '
      'compared with a hosted one',
      'Held for the generated programs, on x86-64 Linux with two compilers. A program that does not come to run counts as a '
      'violation only when the control program does run.',
      need={'programs_ok': 80, 'freestanding_programs': 2, 'more_than_127_elements': 10})
