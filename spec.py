# Which harness entries decide which property, with their bounds.
import os
import re

SPEC = {}
BOOST = ['-I' + os.environ.get('RC_REPO', '/repo') + '/extras/boost/include']


def prop(pid, groups, bounds, outside, assumptions=(), **kw):
    SPEC[pid] = dict(groups=groups, bounds=bounds, outside=outside, assumptions=list(assumptions), **kw)


def G(harness, entries, stub=False, flags=(), threads=False):
    return dict(harness=harness, entries=entries, stub=stub, flags=list(flags), threads=threads)


SHIFTS = ['-fsanitize=shift-exponent', '-fsanitize-trap=shift-exponent']  # a shift by the width or more is a violation


def E(name, **kw):
    return dict(name=name, **kw)


prop('C02', [G('c02_bitstream.cpp', [
        E('c02_any_offset', weight=5), E('c02_sequence', params={'k': 2}, tparams={'k': 3}, weight=5), E('c02_sized'), E('c02_copy')])],
     bounds='8 fully symbolic source words; every start offset 0..64 inside the word, every request 0..66 bits, all 8 integer widths and bool; sequences of 2 (thorough 3) draws with widths {0,1,7,31,33,63,64}; size-scaled draws for every size 0..200',
     outside='requests with a negative bit count (outside the documented domain), longer draw sequences (the state after a draw is determined by the offset, which is covered exhaustively)')

prop('C01', [G('c01_random.cpp', [
        E('c01_from_key'), E('c01_from_seed'), E('c01_short_paths'),
        E('c01_long_paths', params={'prefix': 62}), E('c01_long_paths', params={'prefix': 126}),
        E('c01_split_halves'), E('c01_pure_observers'), E('c01_ordering'), E('c01_positions_differ'), E('c01_any_position'), E('c01_counter_wrap'), E('c01_reserialize')])],
     bounds='all 2^256 keys; all split paths of length 0..4 and 4 patterns of 62..66 and 126..130 splits with free last steps; draws 0..13 from the start, and at every 64-bit counter position restored from its encoding (path registers of 0, 32 and 64 bits, all contents), the last 6 positions before the counter wraps; copies, comparisons and re-serialization after 0..5 draws',
     outside='longer split paths (re-keying is exercised twice), paths where a generator is both split and drawn from (excluded by the interface)')

INTS = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'char']
prop('C04', [G('c04_shrink_int.cpp',
        [E('c04_towards_' + t) for t in INTS] + [E('c04_integral_' + t) for t in INTS] +
        [E('c04_greedy_i32', params={'span': 40}, tparams={'span': 150}), E('c04_greedy_i64', params={'span': 40}, tparams={'span': 150}), E('c04_greedy_u32', params={'span': 40}, tparams={'span': 150}), E('c04_bool'), E('c04_tree', tparams={'depth': 3})])],
     bounds='all values and targets of all 8 integer widths and char, full 64 bits, the complete candidate list; greedy descent for every value, target and boundary at most 40 (thorough 150) apart, for every 32/64-bit target; shrink trees to depth 2 (thorough 3), first 5 children per node',
     outside='greedy descents over longer distances (each step is covered by the per-value facts: the neighbour is offered and candidates get strictly closer)')

prop('C03', [G('c03_int_gen.cpp',
        [E('c03_%s_%s' % (k, t), weight=5 if k == 'empty' else 1) for k in ('range', 'empty', 'reach', 'whole', 'arb', 'arbwhole') for t in INTS] +
        [E('c03_pred_' + t, params={'words': 3}) for t in INTS] + [E('c03_predfail_' + t, params={'words': 128}) for t in ('i8', 'u16', 'i64')] + [E('c03_scale', params={'from': a, 'to': b}, tparams={'from': a, 'to': b, 'step': 1}) for a, b in ((0, 25), (26, 50), (51, 75), (76, 101))] + [E('c03_bool')], stub=True)],
     bounds='all minima, maxima and random words of all 8 integer widths and char; sizes {0,1,2,10,33,50,99,100,101,250,INT_MAX}; the first two to three shrinks and the first shrink of each; scaling for sizes 0..3, 96..101 and every 9th (thorough: every size 0..101)',
     outside='shrinks beyond the first three of each node (the complete candidate lists are C04); negative sizes')

prop('C08', [G('c08_seq.cpp', [E('c08_compose', params={'op': i}, tparams={'op': i, 'depth': 3, 'len': 3}) for i in range(12)] +
        [E('c08_create'), E('c08_range'), E('c08_range_u8'), E('c08_subranges'), E('c08_ops', tparams={'len': 5}), E('c08_throw', tparams={'len': 4})])],
     bounds='every pipeline of two (thorough three) of the 12 combinators over lists of 0..3 arbitrary integers with an arbitrary predicate threshold, copied at every position; every constructor; ranges of up to 4 elements from every start; aggregates and exceptions at every element over lists of 0..3 (thorough 5 and 4)',
     outside='longer lists and deeper pipelines (combinators only interact through next and copy); iterate whose function throws while preparing the following element')

prop('C05', [G('c05_real.cpp', [E('c05_%s_%s' % (k, t), tparams={'depth': 4} if k == 'tree' else {}) for k in ('shrink', 'tree', 'gen') for t in 'fd'], stub=True)],
     bounds='every float and double bit pattern, the complete candidate list; shrink trees to depth 2 (thorough 4); generated values for every pair of random words at sizes {0,1,2,50,99,100,101,1000,INT_MAX}',
     outside='long double (80-bit arithmetic is not encoded); other sizes (scale factor and integer width are functions of the size)')

prop('C06', [G('c06_collections.cpp', [
        E('c06_chunks_vector', tparams={'n': 7}), E('c06_chunks_string', tparams={'n': 7}), E('c06_chunks_long', tparams={'n': 24}),
        E('c06_each_vector', tparams={'n': 6}), E('c06_each_deque', tparams={'n': 5}), E('c06_each_string', tparams={'n': 6}), E('c06_each_long', tparams={'n': 30}), E('c06_nested'), E('c06_char'), E('c06_wchar')])],
     bounds='collections of 0..5 (thorough 7) arbitrary elements and of 6..14 (thorough 24) distinct ones for run removal; 0..4 (thorough 6) arbitrary elements with an arbitrary shrink function of up to two shrinks each and 5..16 (thorough 30) elements of which any one has two arbitrary shrinks; vectors, strings, deques and nested vectors; every char and every 32-bit wchar_t with the complete tree of shrinks below it',
     outside='longer collections; character types other than char and wchar_t')

prop('C07', [G('c07_tree.cpp', [
        E('c07_map', tparams={'shapes': 8}), E('c07_filter', tparams={'shapes': 8}, weight=3), E('c07_pair', tparams={'pshapes': 4}), E('c07_mapcat'), E('c07_post_shrink'), E('c07_map_shrinks', tparams={'shapes': 8}),
        E('c07_create'), E('c07_find_local_min'), E('c07_walk_path'), E('c07_walk_far'), E('c07_observers', tparams={'shapes': 8}), E('c07_equality'), E('c07_throw')])],
     bounds='nine tree shapes of up to 7 nodes and depth 4 with arbitrary integers at every node and arbitrary functions/predicates of one parameter; products of two trees of up to 3 (thorough 4) nodes; every path of length 0..4 and every 64-bit index beyond the last shrink',
     outside='larger trees (the operations are defined node by node)')

I8 = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
prop('C09', [G('c09_serialize.cpp', [E('c09_%s_%s' % (k, t)) for k in ('fixed', 'compact', 'malformed') for t in I8] + [
        E('c09_string'), E('c09_string_truncated'), E('c09_string_malformed', tparams={'len': 14}), E('c09_pair'), E('c09_map'), E('c09_map_many'), E('c09_map_malformed', tparams={'len': 8}), E('c09_n'), E('c09_compact_range'), E('c09_compact_range_malformed', tparams={'len': 8}),
        E('c09_random'), E('c09_random_malformed'), E('c09_random_splittable'), E('c09_reproduce'), E('c09_reproduce_long'), E('c09_reproduce_truncated')], flags=SHIFTS)],
     bounds='all values of the 8 integer widths, fixed and variable length; strings of 0..3 and {126..129,200,255..257,300} characters; maps of up to 3 arbitrary entries and of 100..129 entries; sequences and shrink paths of up to 2 arbitrary elements and of 126..300; generators with every 256-bit key after 0..3 free and up to 120 fixed splits and 0..5 draws, decoded into a generator with a history; arbitrary input bytes of every length 0..12 (integers), 0..11 (strings; thorough 14), 0..6 (maps and sequences; thorough 8), 0..38 (generators), every truncation of a reproduction record, and 0..2 arbitrary bytes after the encoding',
     outside='hash values of map keys (the model hash depends on the length, any hash is legal); integers above the width inside an over-long final byte are not required to be rejected')

prop('C10', [G('c10_base64.cpp', [E('c10_roundtrip', tparams={'n': 12}), E('c10_roundtrip_long', tparams={'n': 64}), E('c10_decode_any', tparams={'n': 12}, weight=3), E('c10_map'), E('c10_map_long_key'), E('c10_map_any_text', tparams={'n': 9}), E('c10_map_corrupted')])],
     bounds='all byte strings of 0..7 (thorough 12) bytes and strings of 8..33 (thorough 64) bytes with two arbitrary adjacent bytes at every position; all texts of 0..9 (thorough 12) characters; maps of up to two entries with arbitrary keys of 0..2 characters and arbitrary seeds, sizes and path elements, keys of 100..300 characters; every text of 0..6 (thorough 9) characters read as a map; a printed map with any one character replaced by any other, and every truncation',
     outside='longer texts (the codec works on groups of three bytes); the hash function of the map (any hash is legal)')

prop('C11', [G('c11_mapparser.cpp', [E('c11_' + e, params={'dq': d}, tparams=dict(t, dq=d)) for d in (0, 1) for e, t in
        (('one', {'k': 3, 'v': 2}), ('key', {'k': 5}), ('value', {'v': 5}), ('two', {'k': 2}), ('many', {}))] +
        [E('c11_any_text', params={'n': 4, 'dq': 0}, tparams={'n': 5, 'dq': 0}), E('c11_any_text', params={'n': 3, 'dq': 1}, tparams={'n': 5, 'dq': 1}), E('c11_any_tail'), E('c11_unterminated', tparams={'n': 4}), E('c11_meaning')])],
     bounds='one arbitrary setting with keys of 1..3 and values of 0..2 characters, keys of 1..5 or values of 0..5; two settings with keys of one (thorough two) and values of up to one character, five settings of fixed shape with one arbitrary character; both quoting styles; every text of 0..4 (thorough 5) characters and every tail of up to 3 after longer text; unterminated quotations of up to 3 (thorough 4) arbitrary characters',
     outside='longer texts (the parser has one state machine per word)')
prop('C12', [G('c12_config.cpp', [E('c12_seed'), E('c12_number')] +
        [E('c12_mixed'), E('c12_reproduce')] + [E('c12_' + k, params={'key': i}) for i in range(7) for k in ('value', 'limit', 'trailing')] + [E('c12_reproduce_text', tparams={'n': 8}), E('c12_any_text', params={'n': 3}, tparams={'n': 4})])],
     bounds='numbers with arbitrary last two digits at every digit-count boundary and at the maximum of the type, all combinations of flags and of boundary numbers; reproduction data of one property with arbitrary seed, size and path of up to one step; for each of the 7 scalar settings every text of 0..3 characters, of up to 3 arbitrary characters after the leading digits of the maximum, and of a separator and an arbitrary character after a valid value; reproduction strings of 0..4 (thorough 8) characters; whole texts of 0..3 (thorough 4) characters, alone and as a value',
     outside='numbers whose other digits are arbitrary (converted by std::to_string, not by this code); negative seeds (read modulo 2^64, as documented for unsigned input)')

prop('C13', [G('c13_search.cpp', [E('c13_verdicts', tparams={'n': 4}), E('c13_tags', tparams={'n': 3}), E('c13_limits'), E('c13_sizes', tparams={'hi': 25, 'max': 24})] +
        [E('c13_sizes_any', params={'n': n}) for n in (1, 2, 3, 5, 8, 11)] + [E('c13_growth'), E('c13_streams'), E('c13_result'), E('c13_after_discards', tparams={'discards': 60, 'ratio': 25})])],
     bounds='every sequence of verdicts for up to 3 (thorough 4) required successes, ratios 0..2, with and without tags; every 31-bit discard ratio and maximum size; sizes for 0..12 cases and maxima 0..8 (thorough 25, 24) and for 1, 2, 3, 5, 8 and 11 cases with every maximum size up to 2^31-1; 60 consecutive discards; failures after 0..25 discards (thorough 60)',
     outside='runs of more cases (the state of the search is the pair of counters)')
prop('C14', [G('c14_shrink.cpp', [E('c14_shrink', tparams={'shapes': 11}), E('c14_long', tparams={'n': 25}), E('c14_test'), E('c14_noshrink')])],
     bounds='ten (thorough twelve) tree shapes of up to 19 nodes with every verdict (success, failure, discard) at every node that is looked at; descents over 1..12 (thorough 25) values to every target; complete tests failing at case 0..2, with and without shrinking',
     outside="larger trees (shrinking is a loop over one node's children at a time)")
prop('C15', [G('c15_reproduce.cpp', [E('c15_real_bool'), E('c15_real_int'), E('c15_real_vector'), E('c15_path'), E('c15_skip'), E('c15_empty'), E('c15_discards', tparams={'discards': 60})], stub=True)],
     bounds='real properties over booleans, integers and vectors with every random word, and every way of feeding the reproduction data back (directly, printed, configuration text); a complete binary tree of depth 2 with any one verdict changed and every path of length 0..3 with 64-bit steps; test identifiers of 0..3 arbitrary characters; failures after 0..30 (thorough 60) discards',
     outside='properties with other generators (determinism of generators is C19)')

C16T = ['vector', 'deque', 'list', 'forward_list', 'set', 'multiset', 'unordered_set', 'unordered_multiset', 'map', 'multimap', 'unordered_map', 'unordered_multimap',
        'coarse_set', 'coarse_unordered_set', 'coarse_map', 'coarse_unordered_map']
prop('C16', [G('c16_container.cpp', [E('c16_' + f + t, params={'words': 8}, tparams={'words': 6 if 'set' in t or 'map' in t else 9, 'n': 3}) for f in ('', 'fixed_') for t in C16T] +
        [E('c16_unique', params={'words': 5}, tparams={'words': 5, 'n': 3}), E('c16_unique_outlives', params={'words': 3}), E('c16_array'), E('c16_starve', params={'words': 3}), E('c16_patient')], stub=True)],
     bounds='all twelve standard containers, sets and maps whose comparison is coarser than equality of their elements, arrays and unique containers of 0..2 (thorough 3) elements, sized and fixed-size, with arbitrary 8-bit keys drawn from up to 8 arbitrary random words (so up to two to four retries for uniqueness); the complete list of shrinks of the generated container and, for up to one element, of its shrinks; running out of distinct elements',
     outside='longer containers; more retries with arbitrary words; unequal hash values (the model hash is constant, any hash is legal)')

prop('C17', [G('c17_select.cpp', [E('c17_element_vector', tparams={'n': 8}), E('c17_element_list'), E('c17_element_string'), E('c17_element_fair'), E('c17_sized', tparams={'n': 12}), E('c17_sized_reach', tparams={'n': 12}), E('c17_sized_many'), E('c17_weights'), E('c17_weighted'), E('c17_weighted_count'), E('c17_weighted_none'), E('c17_one_of'), E('c17_one_of_many'),
        E('c17_such_that', params={'words': 3}, tparams={'words': 6, 'tries': 6}), E('c17_non_empty', params={'words': 5}), E('c17_maybe')], stub=True), G('c27_boost.cpp', ['c17_boost_optional'], stub=True, flags=BOOST)],
     bounds='choices among 0..5 (thorough 8) arbitrary elements in vectors, lists and strings; sized choices among 0..7 (thorough 12) at sizes {0,1,2,10,33,50,99,100,101,250} for every random word, among 101 for every word below 1024; three weights of any values up to 2^60 for the lookup and of 0..3 for the generators; filters by an arbitrary threshold, bit mask or excluded value with up to three (thorough six) arbitrary draws and complete shrink trees of depth 2; 100 retries; boost::optional compared with Maybe on shrink trees of depth 2',
     outside='more than three weights; sums of weights beyond 2^64; draws after the first three (six), which are those of the real stream; sizes near INT_MAX')

prop('C18', [G('c18_text.cpp', [E('c18_string', params={'words': 3}, tparams={'words': 4, 'n': 6}), E('c18_wstring', params={'words': 3}, tparams={'words': 4, 'n': 6}), E('c18_string_shrinks', params={'words': 2}, tparams={'words': 3, 'n': 3}), E('c18_wstring_shrinks', params={'words': 2}, tparams={'words': 3, 'n': 2}),
        E('c18_char', params={'words': 2}, tparams={'depth': 2}), E('c18_wchar', params={'words': 2}, tparams={'depth': 2})], stub=True)],
     bounds='strings and wide strings of 0..3 (thorough 6) characters, every value of the first three (thorough four) random words, including the retries for the terminator; the complete list of shrinks of strings of up to 2 (thorough 3; wide 1, thorough 2) characters and of their shrinks for one character; the characters themselves',
     outside='longer text; char16_t and char32_t text (the C++ locale has no character classes for them, shrinking it throws std::bad_cast)')

C19P = re.findall(r'^PURE\((\w+),', open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness/c19_generators.cpp')).read(), re.M)
prop('C19', [G('c19_generators.cpp', [E('c19_' + e) for e in ('map', 'cast', 'tuple', 'tuple_wide', 'tuple_small', 'pair', 'apply', 'construct', 'make_unique', 'make_shared', 'build', 'mapcat', 'sizes', 'no_shrink', 'shrink', 'name', 'exception')] + [E('c19_defaults', params={'words': 4})] +
        [E('c19_pure_' + e, params={'words': 2, 'sizes': 1} if e in ('string', 'char') else {'words': 3 if e in ('set', 'unique') else 4}, tparams={} if e in ('string', 'char', 'set', 'unique') else {'sizes': 4 if e == 'vector' else 3 if e == 'int' else 5}) for e in C19P], stub=True)],
     bounds='every combinator (tuples of up to 12 components, up to 9 arguments) over sources that read two positions of their stream, with every pair of random words, sizes {0,1,7,50,100,1000} and complete shrink trees of depth 2 of two shrinks per node; default generators of pairs, tuples, arrays, optional values, durations, time points, vectors, lists and of the forms without a generator at sizes 0 and 1; purity of 29 generators at sizes {0,1,7} (thorough {0,1,7,50,100,1000}; vectors up to 100, integers up to 50), with the first two to four random words arbitrary and shrink trees compared to depth 2 (sets, unique containers, characters: 1; floating point: values only)',
     outside='other types as components (the combinators are templates that only move and copy them); scaling factors other than 0, 0.5, 2 and 3')

prop('C20', [G('c20_exec.cpp', [E('c20_exec', tparams={'depth': 3}), E('c20_arguments'), E('c20_nested'), E('c20_refused')], stub=True)],
     bounds='five bodies (straight, type of a draw depending on an earlier one, number of draws depending on one, none, five to six draws) with draws of five types, every value of the two random words each draw reads, shrink trees of depth 2 (thorough 3) of two shrinks per node, complete trees of the body to depth 2; bodies with arguments; nested bodies; refused draws in both forms',
     outside='bodies with more than six draws')

prop('C21', [G('c21_verdict.cpp', [E('c21_returns'), E('c21_throws'), E('c21_several', tparams={'n': 4}), E('c21_context'), E('c21_example', tparams={'n': 4})], stub=True)],
     bounds='bodies of every return type and eight ways to end by an exception, with messages of 0..3 arbitrary characters; every sequence of up to 4 (thorough 5) outcomes, the last returned or thrown; one case with logs, tags and draws after an earlier discarded one; up to 3 (thorough 4) draws of which any one fails',
     outside='longer messages; other exception types')

prop('C24', [G('c24_implicit.cpp', [E('c24_scopes', tparams={'n': 6}), E('c24_default')])],
     bounds='every sequence of up to 4 (thorough 6) of: opening a binding of either of two settings with any value, opening a barrier, reading, writing through a binding, leaving a scope normally or by an exception caught at any enclosing level; with and without a barrier around it',
     outside='scopes that do not end in reverse order; references kept across another binding of the same setting')

prop('C25', [G('c25_holders.cpp', [E('c25_maybe', params={'n': 2}, tparams={'n': 3}), E('c25_maybe_eq'), E('c25_variant', params={'n': 2}, tparams={'n': 3}), E('c25_variant_eq'), E('c25_any', params={'n': 3}, tparams={'n': 4}), E('c25_any_show')])],
     bounds='every sequence of up to 2 (thorough 3; type-erased values 3 and 4) operations out of construct, copy, move, assign a value, assign another holder or itself, initialise in place, reset and swap, on two holders, with any values held, and with the first, second or no copy throwing; two classes with different sizes and alignments and a plain number as the alternatives of a variant',
     outside='assigning to a holder from a reference into its own content; self move assignment; variants whose types throw when moved (documented as not supported) or when a bare value is assigned; the value of something that was moved from')

prop('C26', [G('c26_values.cpp', [E('c26_seq', params={'n': 3}, tparams={'n': 4}), E('c26_shrinkable', params={'n': 3}, tparams={'n': 5}), E('c26_gen', params={'n': 3}, tparams={'n': 5})])],
     bounds='every history of up to 3 (thorough 5, sequences 4) operations out of build, copy, move, assign (from another, from itself, from an empty or a moved-from one), swap, advance, descend, rename and derive, over two sequences, two shrink trees with a stored sequence of shrinks, or two generators; values held symbolic; user functors that throw when called or when copied the first or second time',
     outside='using the content of a moved-from tree or generator; self move assignment')

prop('C27', [G('c27_show.cpp', [E('c27_string', params={'n': 2}, tparams={'n': 3}), E('c27_format'), E('c27_format_values'), E('c27_numbers'), E('c27_containers', tparams={'n': 4}), E('c27_compound'), E('c27_sequences', tparams={'n': 4}), 'c27_endless']), G('c27_boost.cpp', ['c27_boost_optional'], flags=BOOST)],
     bounds='all strings of 0..2 (thorough 3) arbitrary characters; stream formats in 8 combinations; all 8-bit integers and small and extreme wider ones, booleans; the twelve standard containers and arrays with 0..3 (thorough 4) arbitrary elements; pairs, tuples of 0..4, pointers (also null), optional values (Maybe and boost::optional) and nested ones; lazy sequences (also endless) and command sequences of up to 3 (thorough 4)',
     outside='digits of arbitrary numbers and floating point text (produced by the standard library); user-defined showValue')

prop('C29', [G('c29_assert.cpp', [E('c29_' + e) for e in ('compare', 'operators', 'bits', 'values', 'kinds', 'unconditional', 'throws', 'property')])],
     bounds='all 18 captured operators in all four condition macros with every pair (triple) of operands from a type of eight values that counts its evaluations and comparisons; 14 built-in expressions over mixed integer types with every 8, 32 and 64-bit value; strings, containers, pointers (also null); messages of 0..3 arbitrary characters; sixteen kinds of exception against eleven expectations',
     outside='conditions of more than four operands')

prop('C28', [G('c28_reports.cpp', [E('c28_success', tparams={'k': 4, 'n': 6}), E('c28_format'), E('c28_failure'), E('c28_other'), E('c28_equal'), E('c28_multicast', tparams={'m': 4}), E('c28_reproduce'), E('c28_log'), E('c28_default'), E('c28_check')])],
     bounds='counts {0,1,2,9,10,99,100,1000,2^31-2}; distributions of 1..3 (thorough 4) tag sets with counts 1..4 (thorough 6) and up to two untagged tests; descriptions and values of 0..3 arbitrary characters, 0..12 shrinks; up to 3 listeners and 3 (thorough 4) arbitrary events; up to 3 finished tests of every kind with arbitrary identifiers and sizes; complete checks of 4 cases with every outcome, printed to the standard error stream',
     outside='longer texts; colours and other output of the host')

prop('C22', [G('c22_commands.cpp', [*[E('c22_commands', params={'words': 4, 'step': i}, tparams={'size': 2, 'words': 5}) for i in range(3)], E('c22_three', params={'words': 4}), E('c22_deep', params={'words': 4}), E('c22_length'), E('c22_impossible', params={'words': 2}), E('c22_apply', params={'words': 4}), E('c22_errors'), E('c22_one_of')], stub=True)],
     bounds='models of two states and commands of three kinds with every combination of preconditions, three ways of changing the state, generators that fail or discard, sizes 0..1 (thorough 0..2) with the complete list of shrinks, their shrinks and sequences of three commands from a state that allows everything; sequence lengths for sizes 0..6; 100 failed attempts; commands that discard in apply; choice among three command types with every random word',
     outside='larger models and longer sequences; words beyond the first four or five, which are those of the real stream')

prop('C23', [G('c23_run.cpp', [E('c23_run', tparams={'n': 5}), E('c23_run_made', tparams={'n': 5}), E('c23_apply', tparams={'n': 5}), E('c23_valid', tparams={'n': 5}), E('c23_odd'), E('c23_show')]),
        G('c23_run.cpp', [E('c23_check', params={'words': 1, 'size': 2})], stub=True)],
     bounds='sequences of 0..3 (thorough 5) commands with every 32-bit initial state, effect and precondition limit, of which any one may fail or throw when run; copyable models and models that can only be moved; complete checks inside a property',
     outside='longer sequences (running is a loop over one command at a time)')
prop('C30', [G('c30_threads.cpp', [E('c30_shrinkable', params={'switches': 3}, tparams={'switches': 5}, witness=2), E('c30_gen', params={'switches': 3}, tparams={'switches': 5}, witness=2), E('c30_three', params={'switches': 2}, tparams={'switches': 4}, witness=2)], threads=True)],
     bounds='two threads with up to 3 (thorough 5) preemptions and three threads with up to 2 (thorough 4), at any access to memory that existed when the threads started, in any order of the threads; every thread owns a copy and runs one of up to six programs that copy it, copy or assign from a shared copy, move it, use it, and finally destroy it',
     outside='more threads and preemptions; weaker than sequentially consistent executions; threads that use one and the same object without synchronisation (not promised); sequences (not shared by copying)',
     assumptions=['threads interleave at accesses to shared memory, sequentially consistent; a counterexample is searched again natively, with the same programs and values, under a scheduler that drives the instrumented code'])

HOSTDIR = os.path.dirname(os.path.abspath(__file__)) + '/harness/hosts'
HOSTS = ['-I' + HOSTDIR] + ['-I' + os.environ.get('RC_REPO', '/repo') + '/extras/%s/include' % x for x in ('gtest', 'gmock', 'catch', 'boost_test', 'doctest')]
prop('C31', [G('c31_gtest.cpp', ['c31_gtest_prop', 'c31_gtest_reproduce', 'c31_gtest_fixture', 'c31_gmock_property', E('c31_gmock_forward', tparams={'n': 3})], flags=HOSTS),
             G('c31_catch.cpp', ['c31_catch', 'c31_catch_reproduce'], flags=HOSTS), G('c31_boost.cpp', ['c31_boost', 'c31_boost_reproduce'], flags=HOSTS), G('c31_doctest.cpp', ['c31_doctest', 'c31_doctest_reproduce'], flags=['-std=c++17', '-I' + HOSTDIR + '17'] + HOSTS)],
     bounds='properties with one generated argument whose outcome for every value is any of: succeed, succeed with a tag or explicitly, fail an assertion, throw, discard, fail an assertion of the host; 2 successful cases and 2 discards allowed, no shrinking; reproduction data for the property (with a path that exists or not) or for another one; the adapters of Google Test (plain, fixture, typed fixture), Google Mock (every sequence of up to 2, thorough 3, events), Catch, Boost.Test (plain, fixture) and doctest',
     outside='the frameworks themselves, which are represented by stand-ins that record what the adapter reports through their documented macros; properties of the framework\'s fatal assertions in Google Test, which leave the body normally',
     assumptions=['the host frameworks behave as the stand-ins in /verif/harness/hosts'])


# not a property: compares the models with the real library (python3 check.py SELFTEST)
SPEC['SELFTEST'] = dict(groups=[G('selftest.cpp', ['st_out', 'st_in', 'st_lib'])], bounds='', outside='', assumptions=[])
