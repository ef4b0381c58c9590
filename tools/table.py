NOTE = ('Static verdict over every path class of every analysed public operation, for opaque (arbitrary) key, mapped, hash, equality and allocator types. '
        'A report is a definite breach on a path class; paths on which the analysis merged or lost an address are undecided and stay quiet, so silence is strong evidence, not a proof. '
        'Trusts clang 18 front end and the listed opt passes; operands are assumed not to alias.')
TECH = 'path-sensitive typestate and effect dataflow over compiler IR (property simulation)'
OPQ = 'all programs: every key, mapped, hash, equality and allocator type meeting the documented requirements, every container state and every argument'

prop('P01', 'Lookups, observers and iteration leave the container untouched',
 'In group15_flat_map, group16_flat_map and robin_hash_map, find, count, contains, at, size, empty, capacity, bucket_count, load_factor, max_load_factor(), begin, dereferencing, advancing an iterator and range iteration never modify the container, any element, the searched key or any global state, and never allocate, copy or move an element. Concurrent const access therefore needs no synchronisation.',
 ['programs', 'inputs', 'histories'], 'every state of the container, every searched key (present or not), every key/mapped/hash/equality/allocator type',
 WTC + 'a hidden write in a read path shows only under concurrency or as corruption much later.',
 ALLF + ['src/jstd/hashmap/flat_map_iterator.hpp', 'src/jstd/hashmap/flat_map_iterator15.hpp'],
 [('find_impl / find_index', 'group15_flat_table.hpp, group16_flat_table.hpp, robin_hash_map.h'), ('iterator increment', 'flat_map_iterator.hpp, flat_map_iterator15.hpp')], TECH, NOTE)
prop('P02', 'Inserting a key that is present changes nothing and reports that element',
 'When an equal key is already present, insert, emplace, emplace_hint, try_emplace and operator[] of group15_flat_map, group16_flat_map and robin_hash_map change neither the existing element nor the container, leave their arguments not moved from (except where a temporary element had to be built from rvalues first), add no second element, and return the position of the existing element with no insertion reported. The comparison is made with the key that was passed.',
 ['programs', 'inputs', 'histories'], 'every container state that holds an equal key, every overload and value category of the insertion functions, every key/mapped type',
 WTC + 'value categories, hints and piecewise forms are hardly exercised and overwriting an equal value is invisible in them.',
 ALLF, [('find_and_insert / try_emplace_impl / emplace_impl', 'the *_table.hpp files'), ('find_or_insert, insert_impl, emplace_impl', 'robin_hash_map.h')], TECH, NOTE)
prop('P03', 'insert_or_assign assigns exactly the passed value to exactly the right element',
 'When the key is present, insert_or_assign of group15_flat_map, group16_flat_map and robin_hash_map assigns the passed value (copied from lvalues, moved from rvalues) once to the mapped value of the element with the equal key, leaves its key alone, consumes no argument it was given as an lvalue and reports no insertion; when the key is absent it inserts exactly that pair.',
 ['programs', 'inputs', 'histories'], 'every container state, every value category of key and mapped argument, with and without hint',
 WTC + 'insert_or_assign is never called with a tracked value category.',
 ALLF, [('insert_or_assign', 'group15_flat_map.hpp, group16_flat_map.hpp, robin_hash_map.h')], TECH, NOTE)
prop('P04', 'A new key adds exactly one element built from exactly the arguments',
 'When no equal key is present, every insertion function of group15_flat_map, group16_flat_map and robin_hash_map builds exactly one element whose key and mapped value come from the corresponding arguments (copied from lvalues, moved from rvalues, default or piecewise constructed as requested), reports the insertion and returns the position of that element. A following lookup of that key finds the element and lookups of all other keys are unaffected. This holds equally when the insertion has to grow or displace other elements first.',
 ['programs', 'inputs', 'histories'], 'every container state without an equal key, including never allocated and full to the threshold, every overload and value category',
 WTC + 'which constructor ran and whether an argument was moved twice is not observable with integers.',
 ALLF, [('insert / emplace / try_emplace / operator[] paths', 'the table files'), ('slot construction', 'src/jstd/hashmap/slot_policy_traits.h, map_slot_policy.h')], TECH, NOTE)
prop('P05', 'size() is the number of elements after every operation',
 'In group15_flat_map, group16_flat_map and robin_hash_map the reported element count changes by exactly the number of elements added minus removed by every public operation, including insertion, erasure, clear, growth, copy, move and range operations. After clear the count is zero and no element remains.',
 ['programs', 'inputs', 'histories'], 'every public operation from every state, on each of its paths',
 WTC + 'only final sizes of a handful of fixed sequences are compared.',
 ALLF, [('slot_size_ updates', 'the table files')], TECH, NOTE)
prop('P06', 'Every element is constructed once and destroyed once',
 'No operation of group15_flat_map, group16_flat_map and robin_hash_map constructs an element over a live one, destroys an element twice, reads a moved-from or destroyed element, or leaves a temporary, moved-from or half-built element behind; an element is relocated by constructing the new one from the old and destroying the old one. Destroying or clearing the container destroys exactly the elements it holds.',
 ['programs', 'inputs', 'histories'], 'every public operation on every path, for element types with arbitrary constructors and destructors',
 WTC + 'for integers lifetime errors have no effect, and string leaks or double moves pass a checksum.',
 ALLF + ['src/jstd/hashmap/slot_policy_traits.h', 'src/jstd/hashmap/flat_map_slot_policy.hpp', 'src/jstd/hashmap/map_slot_policy.h'],
 [('construct / destroy / transfer / swap / move_assign', 'slot_policy_traits.h, map_slot_policy.h'), ('destroy_slots, clear_slots', 'the table files')], TECH, NOTE)
prop('P07', 'Storage is allocated, owned and released exactly once',
 'Every block group15_flat_map, group16_flat_map and robin_hash_map obtain from their allocator ends up owned by a container or is released by the same operation, is never released twice or used after release, and a container that has never held an element never writes to or releases the shared empty storage. Replacing or destroying the storage releases the block it replaces.',
 ['programs', 'inputs', 'histories'], 'every public operation from every state, with any allocator',
 WTC + 'leaks and writes to shared static storage do not change the checksums.',
 ALLF, [('create_slots / destroy_slots / rehash', 'the table files'), ('default_empty_groups / default_empty_ctrls', 'the table files')], TECH, NOTE)
prop('P08', 'erase removes exactly the requested element',
 'erase by key removes the element with the equal key and returns 1, or removes nothing and returns 0 when there is none; erase by iterator removes exactly the element the iterator designates. A lookup no longer finds the removed element, still finds every other one, and no other element is destroyed, duplicated or changed by an erasure, in group15_flat_map, group16_flat_map and robin_hash_map.',
 ['programs', 'inputs', 'histories'], 'every state and every key or valid iterator',
 WTC + 'an off-by-one erasure is only seen if the test later looks up the victim.',
 ALLF, [('erase_impl / erase_slot / erase_index', 'the table files and robin_hash_map.h')], TECH, NOTE)
prop('P09', 'Lookup answers follow the key equality',
 'find, count, contains and at of group15_flat_map, group16_flat_map and robin_hash_map report an element exactly if the key equality accepted one: they return the position (or mapped value) of the element that compared equal to the searched key, and end, zero, false or an out_of_range exception otherwise.',
 ['programs', 'inputs', 'histories'], 'every container state and searched key, any equality',
 WTC + 'absent keys in full tables, and elements in particular positions, are sampled only incidentally.',
 ALLF, [('find / find_index / at', 'the table files')], TECH, NOTE)
prop('P10', 'Changing the capacity keeps every element and pairs keys with their values',
 'reserve, rehash, shrink_to_fit, max_load_factor(f) and growth during insertion relocate elements without adding, dropping, copying or destroying one, in group15_flat_map, group16_flat_map and robin_hash_map, and each relocated key stays with its own mapped value and is found by lookups in the new table.',
 ['programs', 'inputs', 'histories'], 'every state and every requested capacity or load factor',
 WTC + 'capacity functions are called on few sizes and never on values below the current size.',
 ALLF, [('rehash_impl / resize / no_grow_unique_insert', 'the table files')], TECH, NOTE)

PTECH = 'dataflow with path partitioning over compiler IR; extracted probe and metadata relations tabulated over a finite domain'
PNOTE = ('Each operation is summarised per path class into closed expressions (probed position, compared slot, control bytes written, iterator fields), which are compared with the summary of find over sample geometries, hash values and small control-byte contents. '
         'The reasoning is inductive per operation: no bound on history length, but hash values and contents are finite samples and loops are peeled a few iterations; what falls outside is undecided and quiet.')
prop('P11', 'Every stored element stays reachable by a lookup of its key',
 'In group15_flat_map, group16_flat_map and robin_hash_map, whatever sequence of insertions, erasures and capacity changes came before, a lookup of a key whose element is in the container reaches that element: insertion probes the same positions in the same order as find, the control bytes it writes make find go on to and compare the slot it filled, and no other insertion, displacement, erasure or rehash makes find stop early, skip or misplace another element; after an erasure find no longer compares the removed slot and the position can be used again.',
 ['histories', 'inputs', 'programs'], 'every history (by induction over operations), every hash value, every key type and overload',
 WTC + 'an element made unreachable by a collision pattern, a displaced neighbour or a stale overflow mark needs particular hash values in a particular order.',
 ALLF, [('probe loops of find_index, find_and_insert, no_grow_unique_insert, erase_index', 'the table files'), ('insert_to_place, erase shifting', 'robin_hash_map.h')], PTECH, PNOTE)
prop('P12', 'Iteration visits every element exactly once and ends at end()',
 'For group15_flat_map, group16_flat_map and robin_hash_map, begin() designates the first element (end() when the container is empty), advancing an iterator gives the next element of the table and end() after the last one, wherever the elements sit, dereferencing gives exactly that element, and the iterator returned by find designates the found element; const and non-const iterators agree.',
 ['inputs', 'histories'], 'every distribution of elements over the table, every iterator',
 WTC + 'iteration over sparse, nearly empty or boundary-filled tables is hardly tested, a skipped last group or lane is invisible in most of them.',
 ALLF + ['src/jstd/hashmap/flat_map_iterator.hpp', 'src/jstd/hashmap/flat_map_iterator15.hpp'],
 [('begin, end, iterator_at, skip_empty_slots, next_index', 'the table files'), ('operator++', 'flat_map_iterator.hpp, flat_map_iterator15.hpp, robin_hash_map.h')], PTECH, PNOTE)
prop('P13', 'A table always has room, and its sizes, masks and thresholds agree',
 'In group15_flat_map, group16_flat_map and robin_hash_map, after construction, reserve, rehash, shrink_to_fit, max_load_factor, clear, insertion and erasure, the recorded size never exceeds the growth threshold and the threshold never exceeds the positions that exist nor the maximum load factor of a large table, so insertion grows in time and ends; reserve(n) and rehash(n) provide room for n; every position a lookup or insertion can reach from any hash value lies in allocated, initialised storage; an empty table describes no element.',
 ['inputs', 'histories'], 'every requested capacity, every load factor, every hash value, every history (by induction over operations)',
 WTC + 'an off-by-one in a mask, threshold or allocation size needs one particular capacity, load factor or fill level to show, and an insertion that never ends or overruns needs a table filled exactly to the limit.',
 ALLF, [('create_slots, rehash_impl, calc_slot_threshold, calc_slot_capacity, shrink_to_fit_capacity, clear_data', 'group15_flat_table.hpp, group16_flat_table.hpp'), ('create_slots, calc_max_lookups, min_require_capacity', 'robin_hash_map.h')],
 'dataflow with path partitioning over compiler IR; extracted field and allocation transfer functions tabulated over reachable geometries',
 'The final fields, allocations and control bytes of every path class are closed expressions of the old fields and the argument; they are compared with the lookup summary and capacity() over sample geometries (constructed for 0..5000 elements), arguments and load factors. Everything outside the samples, and set_max_load_factor arguments, is undecided and quiet.')
prop('P14', 'Whole-container operations reach every element exactly once',
 'In group15_flat_map, group16_flat_map and robin_hash_map, wherever the elements sit in the table: clear and the destructor destroy every element exactly once and touch no position without one; rehash, reserve, shrink_to_fit, max_load_factor and growth relocate every element exactly once; copy construction and copy assignment copy every element exactly once, leave the source as it was and make the copies findable; a loop from begin() to end() visits every element exactly once.',
 ['inputs', 'histories'], 'every distribution of elements over the table, every table size',
 WTC + 'the scan loops of clear, rehash, copy and iteration meet few distributions, so a skipped last group or lane, or a position taken twice, goes unnoticed or only leaks.',
 ALLF, [('clear_slots, destroy_slots, rehash_impl, copy_slots_array_from', 'group15_flat_table.hpp, group16_flat_table.hpp'), ('clear_slots, rehash_impl, copy_slots_from', 'robin_hash_map.h')],
 'dataflow with path partitioning over compiler IR; scan loops peeled exactly and their conditions tabulated over sample table contents',
 'Contents are finite samples (empty, one, two, nine elements, a full first or last group) over two table sizes; relocation is judged for at most one element and copies in the robin table only for the elements copied, not for where they land.')

prop('P15', 'Move, swap and copy carry over the whole state of a container',
 'For group15_flat_map, group16_flat_map and robin_hash_map, move construction and move assignment hand over the elements, element count, capacity, growth threshold, maximum load factor, hash function and key equality, and leave the source an empty container that can be used again; swap (member and free) exchanges all of these in both directions; copies take over the elements, maximum load factor, hash function and key equality and leave the source unchanged. Allocators follow the propagate_on_container traits of the allocator type, and a constructor keeps the hash function, key equality and allocator it is given.',
 ['programs', 'inputs', 'histories'], 'every state of both containers, stateful hash, equality and allocator objects, propagating and non-propagating, equal and unequal allocators',
 WTC + 'all tests use stateless hash functions, equalities and allocators, for which a forgotten or misdirected transfer has no effect, and a stale mask, threshold or load factor shows only when the container grows later.',
 ALLF, [('copy and move constructors, operator=, swap, swap_content, swap_policy', 'the table files'), ('copy and move constructors, swap', 'robin_hash_map.h')],
 'dataflow with path partitioning over compiler IR; extracted transfer function of every container field tabulated against the fields before',
 'The fields of both containers after the operation are closed expressions of the fields before; they are evaluated on a few sampled states per path class, with storage fields opaque. The elements of copies are judged by P14; move assignment of a non-empty container between unequal allocators is judged as a sequence of insertions by other properties only.')

prop('P90', 'Operation sequences are equivalent to an abstract map',
 'Every sequence of operations on group15_flat_map, group16_flat_map or robin_hash_map gives the results an ideal map would give.',
 ['histories'], 'all operation histories', 'Histories are unbounded; the tests replay a handful.', ALLF, [('all operations', 'the table files')], '', '',
 na='The full functional equivalence needs an inductive invariant over the unbounded contents of the group metadata (which control byte describes which slot); the static analysis here decides its per-operation building blocks (the other properties) but not the inductive whole.')
prop('P91', 'Lookups take constant expected time',
 'With a well distributed hash, lookups and insertions in group15_flat_map, group16_flat_map and robin_hash_map touch a bounded expected number of elements.',
 ['inputs', 'histories'], 'all key distributions', 'The benchmark measures time on a few distributions only.', ALLF, [('probe sequence', 'group_quadratic_prober.hpp')], '', '',
 na='A statement about runtime distributions of hash values and probe lengths, which no source-level argument bounds.')
