#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
D = 'include/sim_ds/'
S = D + 'string_util/'
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=observe, hook_needed=None)))

p('C01', 'A bit vector is a resizable sequence of independent bits',
  'After any sequence of constructions, element writes (through index, at, front/back, references, iterators or range fill), push_back, resize, assign, reserve and shrink_to_fit, a BitVector has exactly the size and the bits that a std::vector<bool> has after the same calls; a write or fill changes the addressed bits and no other, and bits that appear by growing have the requested value (false if none is given) even where the vector had been larger before. '
  'Indexing, at (which throws std::out_of_range exactly when index >= size), front, back and iteration in both directions agree with that sequence, and iterators obey random-access arithmetic (it+n, it-n, +=, -=, ++/-- in prefix and postfix form, difference, ordering, indexing) for every pair of positions.',
  ['histories', 'inputs'],
  'All operation histories over sizes up to several 64-bit words, in particular every combination of positions around word boundaries for range fill and every shrink-then-grow history.',
  'Tests build a few random vectors and read them back; they never shrink and regrow, never fill sub-ranges across word boundaries, and use iterators only to scan forward.',
  [D+'BitVector.hpp', D+'BitReference.hpp'],
  [('word mask fill of [begin,end)', D+'BitVector.hpp:_fill'), ('resize fills only the new bits', D+'BitVector.hpp:_resize'), ('word pointer + bit offset iterator', D+'BitReference.hpp:BitIterator')],
  ['BitVector public members', 'iterators'],
  [('actual_size_', 'number of bits', D+'BitVector.hpp'), ('storage_', 'packed 64-bit words; bits past the size are unspecified', D+'BitVector.hpp')])

p('C02', 'rank on a succinct bit vector counts exactly the ones before a position',
  'For every bit vector b of any length n (including 0) and every position i with 0 <= i <= n, rank(i) = rank_1(i) is the number of ones among b[0..i), rank_0(i) = i - rank_1(i), operator[] returns the original bit and size() is n, whichever constructor is used and with select support on or off. '
  'Answering never reads outside the structure, also at i = n when n is a multiple of the word or block size, and does not depend on bits the source vector had beyond its current size.',
  ['inputs'], 'All bit vectors (lengths crossing 64- and 512-bit boundaries, runs and densities of every kind) and all positions 0..n.',
  'Tests query random vectors of one length, mostly sparse, and never ask for rank(n) at a block boundary or for dense words.',
  [D+'SuccinctBitVector.hpp', D+'bit_util.hpp'],
  [('512-bit block totals + seven packed 9-bit word counts', D+'SuccinctBitVector.hpp:SuccinctBitVector(BitVector&&)'), ('masked popcount of the last word', D+'bit_util.hpp:cnt')],
  ['SuccinctBitVector::rank/rank_1/rank_0/operator[]/size'])

p('C03', 'select on a succinct bit vector returns the position of the k-th one',
  'For every bit vector b and every k smaller than its number of ones, select(k) (with select support on) is the position p with b[p] = 1 and rank(p) = k: the positions of all ones, in order. '
  'This holds in every build, with or without hardware popcount/BMI2, for words and blocks of any density (empty, full, single bits) and wherever the ones sit relative to 64-bit words, 512-bit blocks and multiples of 512 ones.',
  ['inputs', 'configurations'], 'All bit vectors and every k, in every instruction-set configuration.',
  'Tests sample random vectors of moderate density in one build; full words, the last block and ones crossing the 512-ones index never come up.',
  [D+'SuccinctBitVector.hpp', D+'bit_util.hpp'],
  [('select tips every 512 ones + binary search over blocks', D+'SuccinctBitVector.hpp:select'), ('in-word select', D+'bit_util.hpp:sel')],
  ['SuccinctBitVector<true>::select'])

p('C04', 'A fixed-width integer vector stores every value exactly and in isolation',
  'A FitVector of width w (1 <= w <= 64, default 64) returns at every index the value last written there, for every value of at most w bits, after any history of writes (index, at, front/back, element references), push_back, resize with or without a value, assign and reserve; a write changes no other element, also when the element straddles two machine words, and elements that appear by growing without a value read 0. '
  'at throws std::out_of_range exactly when index >= size, iteration visits the elements in order with consistent random-access iterator arithmetic, and a vector built from a list of unsigned integers uses exactly the bit width of the largest of them (1 if all are 0) and holds that list.',
  ['histories', 'inputs'], 'All widths 1..64, all values of that width, all operation histories.',
  'Tests push random values into automatically sized vectors and read them by index; widths 63/64, boundary-straddling overwrites, shrink/grow and iterators are untouched.',
  [D+'FitVector.hpp', D+'BitsReference.hpp', D+'calc.hpp'],
  [('two-word masked read/write', D+'BitsReference.hpp:BitsReference'), ('word count for n elements', D+'FitVector.hpp:resize'), ('bit width of the maximum', D+'calc.hpp:SizeFitsInBits')],
  ['FitVector public members', 'BitsReference', 'BitsIterator'])

p('C05', 'Directly addressable codes return every element of the source list',
  'A DacVector built from any list of unsigned integers of up to 64 bits, with automatic layer selection or with any explicit list of positive layer widths (each at most 64 bits) whose sum covers the largest value, has the size of the list and returns list[i] from operator[], at(i), front, back and its iterators for every i; at throws std::out_of_range exactly when i >= size. '
  'Automatic selection uses at least 1 and at most 8 layers for a non-empty list, depth(i) is one less than the number of layers element i occupies (the fewest leading layers whose widths cover its value), and an empty list gives an empty vector with size 0.',
  ['inputs'], 'All lists of integers: every distribution of bit lengths 1..64, equal values, a single element, empty, and all layer-width lists that cover the maximum.',
  'Tests store random 32-bit values in one or two shapes; distributions that yield one layer, more than eight candidate layers, 64-bit values or oversized explicit widths are not exercised.',
  [D+'DacVector.hpp', D+'calc.hpp', D+'SuccinctBitVector.hpp', D+'FitVector.hpp'],
  [('layer/presence-bit decomposition', D+'DacVector.hpp:DacVector(vector, units)'), ('space-optimal split plan capped at 8 levels', D+'calc.hpp:split_positions_optimized_for_dac')],
  ['DacVector::operator[]/at/begin/end/depth/num_layers/size'])

p('C06', 'A multi-bit vector returns what was set and ranks equal symbols',
  'A MultiBitVector of 1, 2 or 3 bits per symbol returns at every index the symbol last set there (never-set positions up to the largest set index read 0), in whatever order indices are set, overwritten or grown. '
  'After build(), rank(i) at a position holding a non-zero symbol s is the number of earlier positions holding s, for every length and every mixture of symbols, and a later set followed by another build() is reflected.',
  ['histories', 'inputs'], 'All set histories and symbol strings over 1-, 2- and 3-bit alphabets, at every position including word and block boundaries.',
  'Tests use one long random string per width, set in increasing order and built once.',
  [D+'MultiBitVector.hpp', D+'bit_util.hpp'],
  [('per-symbol L1/L2 rank tips', D+'MultiBitVector.hpp:build'), ('pattern popcounts', D+'bit_util.hpp:popcnt10/11/1xx')],
  ['MultiBitVector::operator[]/rank/set/build'])

p('C07', 'A wavelet tree answers access and rank like the plain byte string',
  'For every non-empty sequence of symbols 0..255, a WaveletTree built from it returns the i-th symbol from operator[](i), the number of earlier occurrences of that symbol from rank(i), both from AccessAndRank(i), and its length from size(). '
  'rank(c, i) for every symbol c in 0..255 (present in the sequence or not) and every 0 <= i <= size() is the number of occurrences of c among the first i symbols.',
  ['inputs'], 'All byte sequences: any alphabet size (1..256, powers of two and not), any length, every position and every symbol.',
  'Tests check one random sequence and only positions whose symbol equals the queried one.',
  [D+'WaveletTree.hpp', D+'SuccinctBitVector.hpp'],
  [('level-wise bit routing by rank', D+'WaveletTree.hpp:rank'), ('height from the largest symbol', D+'WaveletTree.hpp:WaveletTree(vec)')],
  ['WaveletTree::operator[]/rank/AccessAndRank/size'])

p('C08', 'Packed records keep every field exact and independent',
  'A MultipleVector configured with any list of field widths of 1..8 bytes behaves like an array of records: after any history of push_back, emplace_back, resize (with and without initial values), per-field writes (direct, through a block reference by static or run-time field id, width-restricted, or by assigning a list of values) every field of every record reads back the value last written to it truncated to its width, and no write changes another field or record. '
  'Records appended without values read 0, size() is the number of records, and setting the field widths of an empty vector again replaces the previous layout.',
  ['histories', 'inputs'], 'All field layouts, record counts, values and operation histories.',
  'Tests use one layout and write each field once.',
  [D+'MultipleVector.hpp'],
  [('byte offset table per field', D+'MultipleVector.hpp:set_element_sizes'), ('little-endian byte loops', D+'MultipleVector.hpp:set_/get_')],
  ['MultipleVector and block reference members'])

p('C09', 'A heap always yields its extreme element',
  'After construction from any list and any interleaving of push and pop (on a non-empty heap), front() of a MinHeap (MaxHeap) is the smallest (largest) of the values currently contained, pop removes exactly one occurrence of it, and size() is the number of values contained. '
  'In particular, popping until empty yields all pushed values, duplicates included, in sorted order. '
  'The nodes 1..size() form one tree under root(), parent(), left(), right() and is_leaf(), whose values are the values contained and in which no child precedes its parent; after a value was replaced through value_reference(), Build() restores this (and Heapify() at that node does when the new value is no better than the old).',
  ['histories', 'inputs'], 'All initial lists and push/pop histories with arbitrary (also equal) values.',
  'Tests build once from a random list and pop; pushing after construction or between pops is not covered.',
  [D+'Heap.hpp'], [('sift down', D+'Heap.hpp:Heapify'), ('bottom-up build', D+'Heap.hpp:Build'), ('push', D+'Heap.hpp:push')],
  ['Heap::push/pop/front/size'])

p('C10', 'HeapSort sorts every range under every strict weak order',
  'HeapSort(begin, end) and HeapSort(begin, end, compare) rearrange the range into a sorted permutation of its original elements (no element with a later one comparing less before it), for every random-access range, including empty and single-element ranges and ranges with equal elements, for every strict weak ordering, and touch no element outside the range.',
  ['inputs'], 'All ranges up to permutation/equality pattern, default and custom comparators, sub-ranges of larger arrays.',
  'Tests sort a few random vectors in ascending order.',
  [D+'sort.hpp'], [('in-place heap and swap-out', D+'sort.hpp:HeapSorter')], ['HeapSort'])

p('C11', 'Initializable arrays read back the last write or the last fill value',
  'For both initializable array classes (the folklore one for any size, the in-place one for every supported element type and size), after any sequence of set, operator[] assignment and init/fill, get(i) and operator[](i) return the value last written to i since the last init/fill (or construction), and the last fill value for indices not written since then; size() never changes. '
  'This must hold whatever the element values are (also when they look like the internal bookkeeping) and whatever bytes the storage held before construction.',
  ['histories', 'inputs'], 'All operation histories, all element values (including values equal to indices) and all initial memory contents.',
  'Tests use random histories on one size with one element type; values that imitate the internal links and uninitialised-memory contents cannot be chosen by a test sample.',
  [D+'InitializableArray.hpp'],
  [('verified back-pointer chain', D+'InitializableArray.hpp:_chained_to/_is_chained'), ('area extension on first write', D+'InitializableArray.hpp:_extend')],
  ['get/set/init/fill/operator[]/size'])

p('C12', 'The compact hash table is a map from keys to values',
  'For every key width up to 63 bits, load limit, initial bucket count (a power of two), value width and bijective hash, a CHT behaves like std::map after any history of set, erase, get, reserve and copies: get(k) reports presence and the latest value exactly when k was set and not erased since, size() is the number of present keys, erase of an absent key changes nothing and a key can be set again after erase. '
  'Every operation terminates, including when all slots have been used by erased keys, when runs of colliding keys shift each other or wrap around the end of the table, and across every automatic or requested resize.',
  ['histories', 'inputs'], 'All histories of set/erase/reserve over key sets with every collision pattern.',
  'Tests insert random keys and look them up; erase is never called and collision/wrap-around patterns are left to chance.',
  [D+'CHT.hpp', D+'BijectiveHash.hpp', D+'FitVector.hpp'],
  [('Cleary run encoding (occupied/continuation/shifted)', D+'CHT.hpp:set'), ('tombstone flag', D+'CHT.hpp:erase'), ('rehash from quotient+bucket', D+'CHT.hpp:_resize')],
  ['CHT::set/get/erase/reserve/size'])

p('C13', 'The bijective hashes are invertible on their whole key width',
  'For every supported width w (1..64, including the default) SplitMixHash(w).hash maps the w-bit integers one-to-one onto the w-bit integers and ihash is its exact inverse in both directions; the same holds for every stage K = 0, 1, 2 of MultiplyHash and Xorshift.',
  ['inputs', 'configurations'], 'All widths and all keys of each width.',
  'Tests round-trip random keys for one width; a wrong table row is visible only at its own width.',
  [D+'BijectiveHash.hpp'],
  [('odd multipliers with modular inverses per width', D+'BijectiveHash.hpp:PRIME_TABLE'), ('xorshift by at least half the width', D+'BijectiveHash.hpp:Xorshift')],
  ['hash/ihash of SplitMixHash, MultiplyHash, Xorshift'])

p('C14', 'The compact dynamic array stores any 64-bit value at any index',
  'A CDRWArray of any size returns from get(i) the value last set at i, 0 if never set, for every history of set calls with values of any bit length 0..64, in particular when the bit length at an index grows, shrinks, returns to an earlier length or becomes 0, and a set changes no other index; construction from a range holds that range.',
  ['histories', 'inputs'], 'All sizes, all set histories over all value widths.',
  'Tests write each index once with random values; moving an index between width classes repeatedly and 64-bit values are not covered.',
  [D+'CDRWArray.hpp', D+'CHT.hpp'],
  [('one compact table per bit width + width vector', D+'CDRWArray.hpp:set')], ['CDRWArray::get/set/size'])

p('C15', 'The compact dynamic vector behaves like a vector of integers',
  'After any history of push_back, pop_back, set, resize, reserve, shrink_to_fit, clear and copies, a CDRWVector has the size and elements that a std::vector<uint64_t> has after the same calls (pop_back on an empty vector does nothing), starting from any initial size including 0; elements that appear by growing with resize read 0 and capacity() is never below size().',
  ['histories', 'inputs'], 'All operation histories and values of every bit length.',
  'Tests only push_back/pop_back in one monotone pattern; clear/resize/shrink interactions and growth from an empty vector are not covered.',
  [D+'CDRWArray.hpp'], [('doubling/halving reallocation copying live elements', D+'CDRWArray.hpp:_allocate')],
  ['CDRWVector public members'])

p('C16', 'The trie is a map from byte strings to items',
  'After any sequence of inserts, traverse(key) yields the item last inserted under exactly that key and null for every other byte string (proper prefixes, extensions and keys with NUL or high bytes included), insert returns the address of the stored item, and this holds for every supported index type. '
  'dfs (pre-order, children by increasing byte) and bfs (level order) visit every node reachable from the root exactly once with its correct depth, size() is the number of nodes, and exactly the end nodes of inserted keys are reported terminal.',
  ['histories', 'inputs'], 'All insert sequences over all key sets (shared prefixes, NUL bytes, empty key, re-insertion).',
  'Tests insert one word list and look the same words up.',
  [S+'graph_util.hpp'], [('byte-labelled edges with a terminating edge per key', S+'graph_util.hpp:insert'), ('lookup walk', S+'graph_util.hpp:_traverse')],
  ['Trie::insert/traverse/dfs/bfs/size'])

p('C17', 'The factor oracle accepts every factor and exactly the oracle language',
  'For every text over any bytes (including NUL, high bytes and the empty text), the FactorOracle accepts every substring of the text including the empty one, accepts no string longer than the text, and accepts exactly the strings spelled by paths of the factor-oracle automaton of Allauzen, Crochemore and Raffinot for that text; stepping with image() from the start moves along that automaton and fails exactly where it has no transition. '
  'Construction terminates for every text.',
  ['inputs'], 'All texts and all query strings, texts longer than one 256-slot allocation block included.',
  'Tests accept the factors of a couple of texts; rejections, texts whose transitions collide or fill a block, and unusual bytes are not covered.',
  [S+'FactorOracle.hpp'],
  [('double-array transitions with check-by-target letter', S+'FactorOracle.hpp:_insert_trans'), ('free-slot list', S+'FactorOracle.hpp:_expand_block/set_next'), ('supply links (on-line construction)', S+'FactorOracle.hpp:_build')],
  ['FactorOracle::accept/image'])

p('C18', 'Every pattern matcher reports exactly all occurrences in order',
  'For every non-empty key and every text over any byte values, each of the matchers Simple, KMP, BM, BOM, TurboBOM, Sunday QS and Sunday MS (class and free function) returns precisely the list of all positions where the key occurs in the text, overlapping ones included, in increasing order; a text shorter than the key gives an empty list. '
  'The result depends only on the characters of key and text, never on memory around them, and one matcher object can be used for any number of texts.',
  ['inputs'], 'All keys and texts over small and full-byte alphabets, overlapping and periodic ones, keys that are slices of larger buffers.',
  'Tests search a few words in one English text; periodic keys, overlapping matches, bytes >= 0x80 and short texts are not covered.',
  [S+'PatternMatching.hpp', S+'FactorOracle.hpp'],
  [('failure function', S+'PatternMatching.hpp:Kmp'), ('bad-character shifts', S+'PatternMatching.hpp:Bm/SundayQS'), ('oracle windows with KMP re-scan', S+'PatternMatching.hpp:TurboBom'), ('ordered-pattern good shifts', S+'PatternMatching.hpp:SundayMS')],
  ['find_all', 'PatternMatch* functions'])

p('C19', 'The suffix array is the sorted suffix order with exact LCP values',
  'For every byte string (any bytes, including NUL and 0x80..0xFF, any length including 0 and 1), the suffix array written out by SuffixArray is the permutation of positions that sorts the suffixes lexicographically by unsigned bytes, and the LCP array holds, for each rank but the last, the length of the longest common prefix of that suffix and the next one, and 0 at the last rank. '
  'char_at and suffix(i[, len]) return the bytes of the string.',
  ['inputs'], 'All byte strings: all short ones over small alphabets, periodic and run-rich long ones that force recursion of the induced sort.',
  'Tests build one or two natural strings and hardly inspect the arrays.',
  [S+'SuffixArray.hpp', D+'FitVector.hpp'],
  [('SA-IS induced sorting with recursion', S+'SuffixArray.hpp:Sais_'), ('Kasai-style LCP', S+'SuffixArray.hpp:BuildLCP_')],
  ['Write/WriteSA/WriteLCP', 'char_at', 'suffix'])

p('C20', 'The SAMC key set accepts exactly its keys',
  'A Samc built from any sorted list of distinct keys (each over bytes 0x01..0xFE, the empty key allowed), in the default and in the legacy construction, accepts a byte string exactly when it is one of the keys: every key is accepted, and every other byte string (prefixes, extensions, mutations, strings with NUL or 0xFF, longer than every key, empty) is rejected without reading outside the structure. '
  'An empty key list or a default-constructed object accepts nothing.',
  ['inputs'], 'All key sets and all query strings.',
  'Tests accept the words of one dictionary; no non-member is ever queried and no adversarial key set is built.',
  [S+'Samc.hpp'],
  [('per-level character offsets found by first fit', S+'Samc.hpp:y_check_'), ('level range + check byte on every step', S+'Samc.hpp:accept')],
  ['Samc::accept'])

p('C21', 'The SAMC dictionary is a bijection between n keys and ids 0..n-1',
  'A SamcDict built from any sorted list of n distinct keys (bytes 0x01..0xFE, the empty key allowed) assigns through lookup a different id in 0..n-1 to each key, access(id) returns exactly the key with that id for every id, and lookup of any other byte string returns the error value; an empty key list or a default-constructed object finds nothing.',
  ['inputs'], 'All key sets, all ids and all query strings.',
  'Tests round-trip the words of one dictionary; ids of adversarial key sets, single keys, many keys (over 512 leaves) and misses are not covered.',
  [S+'Samc.hpp', D+'SuccinctBitVector.hpp'],
  [('rank/select over the leaf bits', S+'Samc.hpp:id/leaf'), ('walk back through level offsets', S+'Samc.hpp:access')],
  ['SamcDict::lookup/access'])

p('C22', 'Saving and loading reproduces every structure exactly',
  'For every serialisable structure (bit vector, succinct bit vectors, fixed-width vector, DAC vector, multi-bit vector, wavelet tree, packed records, suffix array, SAMC set and dictionary) and every content including the empty one, reading back what was written yields an object that answers every query like the original, consumes exactly the bytes that were written, and writes identical bytes again. '
  'This holds for a fresh target and for a target that already holds other content, and for several objects stored one after another in one stream in any order.',
  ['inputs', 'histories'], 'All contents, all pairs (old target content, new content), all sequences of stored objects.',
  'Tests save and load one non-empty instance of a few structures into a fresh object.',
  [D+'basic.hpp', D+'BitVector.hpp', D+'SuccinctBitVector.hpp', D+'FitVector.hpp', D+'DacVector.hpp', D+'MultiBitVector.hpp', D+'WaveletTree.hpp', D+'MultipleVector.hpp', S+'SuffixArray.hpp', S+'Samc.hpp'],
  [('length-prefixed raw arrays', D+'basic.hpp:write_vec/read_vec'), ('per-class Read/Write', 'every listed header')],
  ['Write/Read, StoreTo/LoadFrom, stream constructors'])

p('C23', 'The word-level bit functions equal their naive definitions',
  'For every operand, popcounts (8/16/32/64-bit, prefix counts, and the 2- and 3-bit pattern counts over aligned fields), bit-field extraction, trailing/leading zero counts (operand width for 0), in-word select of the k-th one (1-based, 1 <= k <= popcount), masks (widths 0..64) and field swaps return what counting bit by bit gives, for every argument in their documented domain.',
  ['inputs'], 'All 8/16-bit operands exhaustively and all 32/64-bit operands built from exhaustive per-byte/per-field patterns, all lengths and offsets.',
  'Tests call a few of the functions on random words; dense words, zero and full-width arguments are where the portable versions differ.',
  [D+'bit_util.hpp'],
  [('parallel bit sums', D+'bit_util.hpp:popcnt*'), ('table-driven select', D+'bit_util.hpp:sel/kLtSel'), ('binary search zero counts', D+'bit_util.hpp:ctz/clz')],
  ['functions of namespace sim_ds::bit_util'])

p('C24', 'The 256-bit block functions equal their naive definitions',
  'For every 256-bit block, set, copy, zero test, popcount, trailing and leading zero count (256 for the zero block) and the xor permutation (destination bit i is source bit i xor mask, for every mask 0..255), in portable and vector form, return what the bit-by-bit definition gives and write nothing outside the destination block.',
  ['inputs', 'configurations'], 'All masks, all single- and two-bit blocks and exhaustive per-word pattern combinations.',
  'Tests check the xor permutation on a few random blocks; zero counts of blocks with bits in several words are not covered.',
  [D+'bit_util256.hpp'], [('butterfly steps per mask bit', D+'bit_util256.hpp:xor_map'), ('word-wise scans', D+'bit_util256.hpp:ctz256/clz256')],
  ['functions of bit_util256.hpp'])

p('C25', 'Results do not depend on the instruction-set build options',
  'The same program gives the same answers whether the headers are compiled with no instruction-set option or with any combination of popcnt, BMI1, BMI2, LZCNT, AVX2 and the host-native set: every bit function, rank, select, multi-bit rank, wavelet tree, DAC, hash table and dictionary query returns identical results, and data written by one build is read identically by another.',
  ['configurations', 'inputs'], 'All combinations of the instruction-set switches the headers test for, times the exhaustive input sets of the underlying functions.',
  'The test suite is compiled in exactly one configuration.',
  [D+'bit_util.hpp', D+'bit_util256.hpp'], [('#ifdef __POPCNT__/__BMI__/__BMI2__/__LZCNT__/__AVX2__ variants', D+'bit_util.hpp')],
  ['transcripts of all queries, compared across builds'])

p('C26', 'Width and layer planning is exact and minimal',
  'The number of bits, bytes or g-bit units computed for an unsigned 64-bit value is the least positive number that can represent it, for every value and unit; bit-length frequencies and cumulative frequencies of a list equal direct counting. '
  'The layer plan for a non-empty list contains between 1 and max_levels positive widths summing exactly to the bit length of its largest element, computing it never touches memory outside its arrays, and unless the level limit interferes no other division into layers has a smaller estimated size under the documented cost (elements reaching each layer times its width plus the rank-index overhead of every layer but the last).',
  ['inputs'], 'All values around every power of two; all lists up to bit-length multiset within bounds, including distributions that want more than eight layers.',
  'Tests call the planner on one random list and look only at the resulting vector.',
  [D+'calc.hpp'], [('shift loop', D+'calc.hpp:SizeFitsInUnits'), ('dynamic program over bit positions', D+'calc.hpp:split_positions_optimized_for_dac')],
  ['functions of namespace sim_ds::calc'])

p('C27', 'Re-initialising an array costs a constant number of element writes',
  'init/fill of an initializable array, and set and get, perform a number of element assignments bounded by a constant that does not depend on the array size or on how many elements were written before; in particular fill does not rewrite the stored elements.',
  ['histories', 'configurations'], 'All histories and all sizes up to the bound.',
  'Tests cannot see cost; a fill that loops over the array passes all of them.',
  [D+'InitializableArray.hpp'], [('chain length reset', D+'InitializableArray.hpp:init')], ['element type that counts its assignments'])

p('C28', 'Queries never modify the object, so readers need no coordination',
  'Every const query of every structure (reads, rank/select, searches, traversals, writing to a stream) leaves every byte of the queried object and of everything it owns, and every global of the library, unchanged, and keeps no state from one call to the next. '
  'Hence any number of threads may query one object concurrently: every interleaving returns the results of sequential calls, and repeating a query gives the same result in any order.',
  ['schedules', 'histories'], 'All query sequences and all interleavings of concurrent readers of one object.',
  'Tests are single-threaded and compare results only, never the memory of the object.',
  [D+'BitVector.hpp', D+'SuccinctBitVector.hpp', D+'FitVector.hpp', D+'DacVector.hpp', D+'MultiBitVector.hpp', D+'WaveletTree.hpp', D+'MultipleVector.hpp', D+'CHT.hpp', D+'CDRWArray.hpp', D+'InitializableArray.hpp', S+'graph_util.hpp', S+'FactorOracle.hpp', S+'PatternMatching.hpp', S+'SuffixArray.hpp', S+'Samc.hpp'],
  [('const member functions without mutable state or function-level statics', 'every listed header')], ['object memory write-protected during queries'])

p('C29', 'Copies are independent values and moves carry the value over',
  'For every copyable structure, a copy (constructed or assigned, also onto an object with other content or onto itself) answers every query like the original at that moment and later modifications or destruction of either side never affect the other; a move-constructed or move-assigned object answers like the source did before, and the source can be destroyed or assigned a new value.',
  ['histories'], 'All histories over two or three objects mixing modification, copy, move, self-assignment and destruction.',
  'Tests never modify or destroy the source after a copy.',
  [D+'BitVector.hpp', D+'SuccinctBitVector.hpp', D+'FitVector.hpp', D+'DacVector.hpp', D+'MultiBitVector.hpp', D+'WaveletTree.hpp', D+'MultipleVector.hpp', D+'Heap.hpp', D+'CHT.hpp', D+'CDRWArray.hpp', D+'InitializableArray.hpp', S+'graph_util.hpp', S+'FactorOracle.hpp', S+'PatternMatching.hpp', S+'SuffixArray.hpp', S+'Samc.hpp'],
  [('value members only, default copy/move', 'every listed header')], ['copy/move special members'])

p('C30', 'Stream primitives round-trip and the recursion helper recurses',
  'read_val, read_vec and read_string return exactly what write_val, write_vec and write_string stored, for every value, element type and length including 0, consuming exactly the bytes written, with no undefined memory access, and read_vec replaces the previous content of its target. '
  'recursive(f) returns a callable that stays valid after the call, passes itself to f for recursion and forwards its arguments; ShowAsBinary prints exactly the bits of the value from most to least significant, a space after each byte, and a newline. The timing helpers run the given process exactly once before they return and report its duration in the stated unit.',
  ['inputs'], 'All lengths, element sizes, alignments and nesting depths in bounds.',
  'The helpers are only used indirectly by the tests.',
  [D+'basic.hpp', D+'log.hpp'], [('raw byte IO', D+'basic.hpp:read_*/write_*'), ('self-passing closure', D+'basic.hpp:recursive')], ['functions of basic.hpp and log.hpp'])

p('C31', 'Headers can be included in any order and in several translation units',
  'Every public header can be the only one included in a translation unit, in any order with the others, and a program whose several translation units include any subset of them compiles, links and behaves as if there were one.',
  ['programs'], 'All include orders and subsets of headers over several translation units.',
  'Each test program has one translation unit and includes gtest first.',
  ['include/sim_ds.hpp'] , [('include guards; inline definitions', 'every header')], ['compiler and linker'])

p('C32', 'Structures stay within their stated space and grow by a factor',
  'Every structure takes the memory its contents ask for, up to 3 % and a few words: BitVector n/8 bytes, SuccinctBitVector at most 1.3 n/8 plus 1/64 byte per one for select, FitVector of width w n*w/8, a DacVector its layers plus 1.3 bits per continuation flag (when it chooses the layers itself at most 1.05 times the cheapest division into at most eight layers of one width), MultiBitVector its packed symbols plus 1.1 bits per symbol and value, WaveletTree 1.3 n*height/8 plus 128 bytes per node, MultipleVector n records, a heap n elements; '
  'an in-place InitializableArray holds its N elements and a constant number of words and allocates nothing, the Folklore variant allocates at most four words per element; a CHT never has more buckets than the larger of its initial number and 4 * (most keys ever held or reserved) * 100/load factor + 8, each of (key bits - bucket bits) + 4 + value bits, and after removals, unless it was made or reserved larger, at most 400/(load factor - 1) per key left plus 512; a CDRWArray takes 7 bits per element and table entries for its non-zero values; the capacity of a CDRWVector is at most twice the most elements ever asked for, at most three times its size after pop_back, and its size after shrink_to_fit; a Trie has one node per distinct prefix of its keys and one per key; automata, suffix arrays and dictionaries are linear in their input. '
  'These bounds hold for objects built, copied and loaded; size_in_bytes() is within two words of the bytes written to a stream. Appending one by one allocates a total proportional to the final size in a logarithmic number of allocations; HeapSort allocates nothing and makes at most 2n log2 n + 4n + 4 comparisons; popping from a heap allocates nothing.',
  ['inputs', 'histories', 'configurations'], 'All sizes up to the bound and around every power of two, all widths and parameters, all histories of waves of insertions and removals in bounds.',
  'Tests check answers only: waste, quadratic growth or a wrong reported size passes them all.',
  [D+'BitVector.hpp', D+'SuccinctBitVector.hpp', D+'FitVector.hpp', D+'DacVector.hpp', D+'MultiBitVector.hpp', D+'WaveletTree.hpp', D+'MultipleVector.hpp', D+'Heap.hpp', D+'sort.hpp', D+'CHT.hpp', D+'CDRWArray.hpp', D+'InitializableArray.hpp', S+'graph_util.hpp', S+'FactorOracle.hpp', S+'SuffixArray.hpp', S+'Samc.hpp'],
  [('geometric growth', D+'FitVector.hpp:push_back'), ('doubling and shrinking', D+'CDRWArray.hpp:CDRWVector'), ('growth of the table', D+'CHT.hpp:reserve'), ('size reports', 'size_in_bytes of every structure')],
  ['size_in_bytes(), bucket(), capacity(), size()', 'bytes requested from the allocator', 'bytes written to a stream'])

p('C33', 'Running out of memory is reported and leaves usable objects and no leaks',
  'When an allocation fails during any operation of any structure, std::bad_alloc reaches the caller (or the operation succeeds with the right result); nothing crashes, is accessed out of bounds or is leaked. An operation on one object never disturbs another: the source of a failed copy, construction or comparison, and every other object, are unchanged. A failed const operation leaves the object unchanged. A failed modification of a BitVector, FitVector, MultipleVector, MultiBitVector, CHT, CDRWArray, CDRWVector or Trie leaves the contents either as before the call or as after it, and repeating it with memory available gives the result of an undisturbed run. '
  'After a failed assignment, move or load the target (of any structure) can be destroyed and assigned a new value, with the right answers afterwards. After destruction of all objects every byte allocated has been returned.',
  ['faults', 'histories'], 'Every single allocation of every operation failing, in every content and every history in bounds.',
  'No test ever makes an allocation fail.',
  [D+'BitVector.hpp', D+'SuccinctBitVector.hpp', D+'FitVector.hpp', D+'DacVector.hpp', D+'MultiBitVector.hpp', D+'WaveletTree.hpp', D+'MultipleVector.hpp', D+'Heap.hpp', D+'CHT.hpp', D+'CDRWArray.hpp', D+'InitializableArray.hpp', S+'graph_util.hpp', S+'FactorOracle.hpp', S+'PatternMatching.hpp', S+'SuffixArray.hpp', S+'Samc.hpp'],
  [('rebuild, then move in', D+'CHT.hpp:_resize'), ('new value stored before the old one is released', D+'CDRWArray.hpp:CDRWArray::set'), ('node stored before the edge to it', S+'graph_util.hpp:Trie'), ('aligned allocation', D+'SuccinctBitVector.hpp')],
  ['allocator (operator new/delete, posix_memalign) with one failing request', 'answers to all queries afterwards', 'bytes still allocated at the end'])

p('C34', 'Streams may end, fail or deliver in portions at any byte',
  'Storing and loading any structure works over every std::ostream and std::istream, however many bytes the stream takes or delivers at a time, whether or not it can be repositioned and whatever formatting is set: the image is the same, exactly its bytes are consumed, formatting stays as it was. '
  'When the input ends or its device fails before the last byte of the image, the stream is left failed (and the exception of a stream with exceptions enabled reaches the caller, no other one does); loading returns after reading no more than is there and without allocating more memory than the complete image needs; the object concerned can still be destroyed, copied, assigned a new value and loaded again, with the right answers afterwards; nothing is leaked. What read_val, read_vec and read_string hand over then is determined by the bytes that were there, never by indeterminate memory, and every complete element of the vector or string is delivered. '
  'When the output refuses or fails before the last byte, the bytes it took are the beginning of the image, the stream says so, and the object written is unchanged and can be written again.',
  ['faults', 'inputs'], 'Every byte at which a stream can end or fail, every size of portion within bounds.',
  'Tests only use intact string streams.',
  [D+'basic.hpp', D+'BitVector.hpp', D+'SuccinctBitVector.hpp', D+'FitVector.hpp', D+'DacVector.hpp', D+'MultiBitVector.hpp', D+'WaveletTree.hpp', D+'MultipleVector.hpp', S+'SuffixArray.hpp', S+'Samc.hpp'],
  [('stream primitives', D+'basic.hpp:read_val/read_vec/read_string/write_*'), ('Read, Write, LoadFrom, StoreTo', 'every serialisable structure')],
  ['state of the stream, bytes consumed and taken', 'bytes requested from the allocator', 'answers of the object afterwards'])

p('C35', 'Distinct objects share no mutable state',
  'Operations on distinct objects are independent, on one thread in any order and on several threads at once: constructing, querying, modifying, copying, assigning, moving, swapping, storing, loading and destroying an object, and the free functions (HeapSort, calc, bit_util, the stream helpers), write only to the objects they are given, to local and thread-local storage. Apart from constants that are set up once, no operation writes static data or memory owned by it, so no interleaving of threads working on different objects can influence any result: each object answers as it does in a program that uses nothing else.',
  ['interleavings', 'histories'], 'Every interleaving of threads using different objects, every order of operations.',
  'Tests use one thread and rarely two objects of a kind in alternation.',
  [D+'BitVector.hpp', D+'SuccinctBitVector.hpp', D+'FitVector.hpp', D+'DacVector.hpp', D+'MultiBitVector.hpp', D+'WaveletTree.hpp', D+'MultipleVector.hpp', D+'Heap.hpp', D+'sort.hpp', D+'calc.hpp', D+'bit_util.hpp', D+'basic.hpp', D+'CHT.hpp', D+'BijectiveHash.hpp', D+'CDRWArray.hpp', D+'InitializableArray.hpp', S+'graph_util.hpp', S+'FactorOracle.hpp', S+'PatternMatching.hpp', S+'SuffixArray.hpp', S+'Samc.hpp'],
  [('construction in local buffers', S+'SuffixArray.hpp, '+S+'Samc.hpp, '+D+'calc.hpp'), ('constant tables', D+'BijectiveHash.hpp:PRIME_TABLE, '+D+'bit_util.hpp')],
  ['writable sections of the program and blocks that outlive all objects, around every operation', 'answers compared with a fresh process'])

p('C36', 'User code may throw or re-enter, and arguments may refer to the structure itself',
  'Items, elements, comparators, visitors, iterators, lists and recursive functions handed to the library may throw at any call. That exception, and no other, reaches the caller; nothing is leaked, destroyed twice or touched outside the given range. A Trie whose item throws holds the keys and items it held before the call or the ones it would hold after it, and inserting again works; an InitializableArrayFolklore whose element throws reads as before or as after the call; the source of a failed copy or assignment is unchanged and the target can be assigned again. A traversal whose visitor throws leaves the trie as it was, later traversals are complete, and a visitor may traverse the trie itself. '
  'HeapSort compares only elements of the range and keeps exactly its elements whatever its comparator answers; constructing from a range whose iterators throw leaves nothing behind. Moving a Trie and its items calls no throwing operation. '
  'Values, keys and items passed to BitVector, FitVector, Heap, Trie and InitializableArrayFolklore may be references to, or views of, what is stored in that same object.',
  ['faults', 'histories', 'inputs'], 'Every single call of user code throwing in every history in bounds; every sequence of answers of a comparator; every choice of an own element as argument.',
  'No test uses an element or a callback that throws, re-enters, or refers to the object.',
  [S+'graph_util.hpp', D+'InitializableArray.hpp', D+'sort.hpp', D+'Heap.hpp', D+'BitVector.hpp', D+'FitVector.hpp', D+'CDRWArray.hpp', D+'basic.hpp', S+'FactorOracle.hpp', S+'Samc.hpp'],
  [('node, item, then index', S+'graph_util.hpp:Trie::insert'), ('value before chain', D+'InitializableArray.hpp:InitializableArrayFolklore::set'), ('swaps within the range', D+'sort.hpp:HeapSorter'), ('arguments by value', D+'BitVector.hpp, '+D+'FitVector.hpp, '+D+'Heap.hpp')],
  ['exceptions that reach the caller', 'contents, items alive and bytes allocated afterwards', 'elements compared and visited'])

p('C37', 'Every operation costs what its structure promises',
  'Counted in steps executed, bytes moved and bytes allocated, and up to a constant factor. '
  'BitVector, FitVector, MultipleVector, MultiBitVector: reading or writing one element and moving a random-access iterator are O(1), n push_backs O(n), also mixed with pop_back, resize and reserve in any order. '
  'SuccinctBitVector: rank and access O(1), select O(log n); MultiBitVector rank O(1); WaveletTree access and rank O(bits of the symbol); DacVector access and depth independent of n; all are built in O(n). '
  'Heap: push and pop O(log n), construction from an array and Build O(n), HeapSort O(n log n). InitializableArray (in place and Folklore): get, set and fill O(1), and construction O(1) in place. '
  'CHT with keys the hash spreads (consecutive, scattered): n calls of set, get, erase in any order O(n), hits and misses alike; CDRWArray and CDRWVector likewise, including push_back and pop_back in turn. '
  'Trie insert and traverse, Samc accept, SamcDict lookup and access: O(length of the key) independent of the number of keys; dfs and bfs O(nodes). FactorOracle: image O(1), accept O(length). '
  'Suffix and LCP arrays are built in O(n log n) for repetitive texts too; suffix and char_at are O(1). Kmp: O(text + pattern). The other matchers: O(text) for a pattern of fixed length; Bm, Bom, SundayQS and SundayMS look at O(text / pattern) letters when no letter of the text is in the pattern. '
  'Moving or swapping any of these objects (except in-place InitializableArray) is O(1); copying, writing and reading one is O(size).',
  ['inputs', 'histories'], 'All positions of all contents and sizes; all histories of growing and shrinking: the cost of the worst operation, at sizes far above those of the tests.',
  'Tests are small and look at results only: a linear scan where a constant is promised passes all of them.',
  [D+'BitVector.hpp', D+'FitVector.hpp', D+'MultipleVector.hpp', D+'SuccinctBitVector.hpp', D+'MultiBitVector.hpp', D+'WaveletTree.hpp', D+'DacVector.hpp', D+'Heap.hpp', D+'sort.hpp', D+'InitializableArray.hpp', D+'CHT.hpp', D+'CDRWArray.hpp', S+'graph_util.hpp', S+'FactorOracle.hpp', S+'PatternMatching.hpp', S+'SuffixArray.hpp', S+'Samc.hpp'],
  [('rank and select dictionaries', D+'SuccinctBitVector.hpp'), ('constant-time fill', D+'InitializableArray.hpp'), ('clusters and rebuilding', D+'CHT.hpp:set, erase, _resize'), ('shifts', S+'PatternMatching.hpp'), ('LCP from the one before', S+'SuffixArray.hpp:BuildLCP_')],
  ['basic blocks entered, bytes moved by the C library, bytes allocated, for each operation'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        f.write(json.dumps(q, ensure_ascii=False) + '\n')
print(len(P))
