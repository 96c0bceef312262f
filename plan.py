# property -> harnesses, builds per tier, bounds (prose, for the evidence file)
Q = ['fast', 'asan']
T = ['fast', 'asan', 'native']
N = ['fast', 'asan', 'native']
ASSUMPTIONS = [
    'gcc 13, x86-64, the compilation flags listed in check.py; each harness is one translation unit',
    'state matching (where used) identifies states by a 128-bit hash of the memory image of a cloned object',
    'nothing is claimed beyond the bounds listed under coverage.bounds',
]
PLAN = {
    'C23': dict(units=[('bits', N, T)], bounds='words over byte palettes, all two-run words, all bytes and halfwords in context, all (start,len); thorough: all 2^32 32-bit operands'),
    'C24': dict(units=[('bits256', N, T)], bounds='blocks over a 16-word palette (16^4), all single-run blocks, every bit under every one of the 256 masks, palette blocks under all masks'),

    'C01': dict(units=[('bitvector', Q, T)], bounds='all operation sequences to depth 4 (thorough 5), all strings up to 14 (18) bits, 3 (4) runs of border lengths, all sizes to 320 (1099), all fill ranges, all pairs of iterator positions, 24 standard algorithms over every content of every range of up to 7 (9) bits at ten places; bit vectors of more than 2^32 bits'),
}
PLAN.update({
    'C02': dict(units=[('succinct', Q, T)], bounds='all strings up to 14 (18) bits, runs of border lengths, 512-bit blocks of chosen density and arrangement, all sizes to 1099 (2199); a vector of more than 2^32 bits'),
    'C03': dict(units=[('succinct', Q, T)], bounds='as C02, every select argument; a vector of more than 2^32 bits'),
})
PLAN.update({
    'C04': dict(units=[('fitvector', Q, T)], bounds='all operation sequences to depth 4 (thorough 5) for 5 (10) widths, every width 1..64 x every position x 6 backgrounds x 6 values, every shrink/grow point, every maximum width, all pairs of iterator positions, the reading standard algorithms over every list of up to 5 (6) border values; more than 2^32 bits and 2^16 elements of every width'),
})
PLAN.update({
    'C26': dict(units=[('calc', Q, T)], bounds='every bit length x every unit 1..64, all 16-bit values, unit lists of up to 4 widths, all lists up to 4 (5) over 15 border values, frequency profiles over 6 (7) bit lengths x level limits, geometric profiles whose unlimited optimum exceeds 8 layers; more than 2^16 values'),
})
PLAN.update({
    'C05': dict(units=[('dac', Q, T)], bounds='all lists up to 4 (5) over 14 border values, all lists of 1..3 (4) layer widths with values at every layer border, frequency profiles with up to 513 elements per bit length in three orders, profiles beyond 8 layers; lists of more than 2^16 values'),
})
PLAN.update({
    'C06': dict(units=[('multibit', Q, T)], bounds='1-, 2- and 3-bit symbols: all strings up to 12/6/5 (15/8/6), alternating runs of border lengths, all sizes to 539 (1099), set/build histories to depth 4 (5); more than 2^16 symbols and symbols far apart'),
})
PLAN.update({
    'C07': dict(units=[('wavelet', Q, T)], bounds='alphabets of 1..17 values and borders up to 2^8: all sequences to the bound of each alphabet, run-structured long sequences; every access/rank/select argument, absent symbols included; more than 2^16 values'),
    'C08': dict(units=[('multiple', Q, T)], bounds='all operation sequences to depth 4 (5) over three record shapes, every position x field x border value; every layout of 1..4 fields; more than 2^16 records'),
    'C09': dict(units=[('heap', Q, T)], bounds='the whole tree of nodes after every history of pushes, pops and edits in place to 3 (4) steps from every list of up to 5 (6) values; all push/pop histories to depth 8 (10) over 4 keys, all permutations of 7 (8) keys; 65535 to 140000 values in 8 shapes'),
    'C10': dict(units=[('heap', Q, T)], bounds='all arrays to length 7 (8) over 4 values, all permutations, structured long arrays, three element types and both orders; 65535 to 140000 values in 8 shapes'),
    'C11': dict(units=[('initarray', Q, T)], bounds='closure of the reachable states of arrays of 0..5 elements (every history), and all histories to depth 5 (6) on larger ones, for each variant; arrays of more than 2^16 elements'),
    'C12': dict(units=[('cht', Q, T)], bounds='closure of the reachable states of small tables over chosen colliding key sets, all histories to depth 5 (6), growth histories to thousands of keys, every key width 1..63; tables of more than 2^16 buckets'),
    'C13': dict(units=[('hash', Q, T)], bounds='every width to 16 (20) bits exhaustively, border keys of every width to 64, every row of the primes table'),
    'C14': dict(units=[('cdrw', Q, T)], bounds='closure/histories to depth 5 (6) over border keys and values of every bit length; more than 2^16 elements'),
    'C15': dict(units=[('cdrw', Q, T)], bounds='all operation histories to depth 5 (6) from every initial size 0..9, growth histories; more than 2^16 elements'),
    'C27': dict(units=[('initarray', Q, T)], bounds='every transition of the closures of C11, assignments counted per operation; sizes to 4096'),
})
PLAN.update({
    'C16': dict(units=[('trie', Q, T)], bounds='all insert/traverse histories to depth 5 (6) over key pools, every subset of 12 (15) keys, every pair of first bytes, all numbers of nodes to the capacity of an 8-bit index, up to 4000 (20000) nodes; item types and index types varied; every dfs/bfs start; tries of more than 2^16 nodes, 16-bit indices up to their capacity'),
    'C17': dict(units=[('oracle', Q, T)], bounds='all texts over small alphabets to length 6..10 with every query one longer, every pair of bytes, u^k v for all short u and v, polynomial sequences modulo 25 alphabet sizes, all lengths to 560 (1100); accepted language compared with the automaton built by the published algorithm, level by level; texts of more than 2^16 bytes'),
    'C18': dict(units=[('pattern', Q, T)], bounds='all pairs (key, text) over 2, 3 and 4 letters to lengths 7x11 / 5x7 / 4x5 (9x13 / 6x9 / 4x7), high and NUL bytes included, every byte in the key against every other in the text, all binary keys of length 7..9 (11) against texts of their near misses, keys beyond 256 bytes, texts shorter than the key; keys and texts of more than 2^16 bytes (SundayMS: keys below 1000 only, its preparation is cubic)'),
    'C19': dict(units=[('suffix', Q, T)], bounds='all strings over 2, 3 and 4 letters to the bound of each alphabet, every pair of bytes, fixed points of all small morphisms, all lengths to 700 (1500) in 7 families, runs of border lengths; texts of more than 2^16 bytes'),
    'C20': dict(units=[('samc', Q, T)], bounds='all subsets of pools of 13 to 15 words (binary words, edge bytes, long words with shared ends), one and two keys over every byte, products of word sets, up to 2500 (12000) numbers in six bases, long keys leaving each other at every depth; queries: all words one longer, every prefix, extension, replacement and odd byte of the keys; more than 2^16 keys and nodes (not for the legacy build, which is quadratic)'),
    'C21': dict(units=[('samc', Q, T)], bounds='as C20: ids of all keys, access of every id, lookup of every other query; more than 2^16 keys and nodes'),
    'C30': dict(units=[('basic', Q, T)], bounds='every kind of value and vector, every border value, every length to 70 (300) over every previous length, all sequences to 4 (5) of writes read back in order, long data around page and buffer sizes, all recursion depths to 60 (200), all single-run words for ShowAsBinary'),
})
ISA_ALL = ['fast', 'native', 'nommx'] + ['+'.join(f for i, f in enumerate(['popcnt', 'bmi', 'bmi2', 'lzcnt', 'avx2']) if m >> i & 1) for m in range(1, 32)]
ISA_SOME = ['fast', 'popcnt', 'bmi+bmi2', 'avx2', 'popcnt+bmi+bmi2+lzcnt', 'native']
ISA_FEW = ['fast', 'popcnt', 'bmi+bmi2', 'popcnt+bmi+bmi2+lzcnt', 'native']
PLAN.update({
    'C22': dict(units=[('serial', Q, T)], bounds='every serialisable structure: all (content, previous content of the target, what follows in the stream) over 7 to 13 contents each, then every one or two modifications of the loaded object; all sequences of two (type, content) and of three types in one stream; all bit strings to length 14 (18), every size to 1100 (2600), every width x length, all short lists, every set of 11 words; every structure with more than 2^16 elements'),
    'C25': dict(units=[('bits', ISA_ALL, ISA_ALL), ('bits256', ISA_ALL, ISA_ALL)] + [(h, ISA_SOME, ISA_ALL) for h in ('succinct', 'multibit', 'wavelet', 'dac')] + [(h, ISA_FEW, ISA_ALL) for h in ('cht', 'samc', 'serial')],
                compare=True, technique='bounded exhaustive enumeration of executions of the real code in every instruction-set build, observations compared build by build',
                bounds='the scopes of C23, C24, C02, C03, C05, C06, C07, C12, C20, C21, C22 in 5 to 34 builds: bit functions in all 32 combinations of popcnt, BMI1, BMI2, LZCNT and AVX2, without MMX, and with the native set; the structures in 5 or 6 of them (thorough: all). Every observation and every byte written goes into a digest per scope that has to be the same in every build'),
    'C28': dict(units=[('constq', Q, T)], technique='exhaustive enumeration of query sequences on objects in read-only memory, globals compared around every query; no query writes, so all interleavings of concurrent queries are equivalent to one',
                bounds='37 structures, 4 to 13 contents each: every query as the first one of an untouched locked object; every query on two locked objects with the writable sections, thread-local block and retained heap blocks compared before and after; all sequences of two (thorough three) queries over two objects; every answer equal to that of a fresh process'),
    'C29': dict(units=[('value', Q, T)], bounds='37 structures: all histories of 3 (thorough 4; three objects: 2) steps over two objects in every starting situation, steps being copy and move construction, copy, self and move assignment, swap, assignment of a new object, every modification, destruction'),
})
PLAN.update({
    'C32': dict(units=[('space', N, T)], technique='exhaustive enumeration of contents, sizes, parameters and histories within bounds on the real code, every byte requested from the allocator counted, against closed-form space bounds',
                bounds='all sizes to 700 (2100) and around every power of two to 40000 (200000) for vectors; every width 1..64; 12 layer divisions x 8 shapes of lists; 13 alphabets; 5 record shapes; all histories of 3 (4) waves of insertions and removals on hash tables, up to 5000 keys inserted and removed in three orders, and of changes on CDRWVector; every key and value width; every element of a CDRWArray through all 64 widths and back; four families of keys, six of texts'),
    'C33': dict(units=[('faults', ['fast', 'asan'], T)], technique='exhaustive fault injection: every allocation of every operation fails in turn, on the real code, in every content and history within bounds',
                bounds='37 structures x 4 to 13 contents x {construct, copy, assign, modify, load, load onto another, every query, write, move} x every allocation of the operation (to the 200th, with sanitizers the 40th; thorough to the 500th and 200th); 11 structures: all histories of 2 to 3 operations, each operation failing at every allocation, then repeated'),
})
PLAN.update({
    'C34': dict(units=[('torn', Q, T)], technique='exhaustive fault injection: every byte of every image at which a stream can end, refuse or throw, on the real code, followed by every way of using the object afterwards',
                bounds='16 serialisable structures x 7 to 13 contents x {fresh target, two others} x exceptions on and off x stream ends or throws x every byte of the image (images beyond 96 bytes, with sanitizers 24: their beginning, their end and a grid between; thorough 1200 and 200) x {complete image read again, another image, copy and assignment, destruction}; 16 sizes of portion; the primitives for 7 element types at every byte'),
    'C35': dict(units=[('shared', Q, T), ('shared_rest', Q, T)], technique='exhaustive enumeration of operations on two threads with all shared writable memory compared around every operation; no operation writes shared memory, so all interleavings are equivalent to one; all ordered pairs of operations on two objects against a fresh process',
                bounds='37 structures and the free functions: every operation on content j after every content k, and on every content after all others, on another thread; all pairs of (construct, load, copy, modify) x content on one and on two threads'),
})
PLAN.update({
    'C37': dict(units=[('cost', ['steps'], ['steps'])], technique='exhaustive enumeration of contents, sizes, positions and histories within bounds on the real code, with every basic block, byte moved and byte allocated counted, against the laws each operation promises',
                bounds='25 structures: every element operation at every position of 3 to 9 kinds of content at sizes up to 2^19 bits, 10^5 numbers, 6*10^4 keys (thorough: 2^22, 10^6, 2.5*10^5); sizes of 240 to 8192 set the constant, 4 times that is allowed; all words of up to 9 (12) letters as Kmp patterns over texts made of each prefix and a letter; patterns of 8 to 1000 letters over texts that share none of them; all histories of 4 (5) waves of up to 1100 set, erase, push_back, pop_back, resize, reserve, shrink_to_fit; push and pop in turn at every size to 300 (1200)'),
    'C36': dict(units=[('user', Q, T)], technique='exhaustive fault injection and environment nondeterminism: every call of user code throws in turn, every sequence of answers of a comparator, on the real code in every history within bounds',
                bounds='tries of two kinds of item: all histories of 4 (thorough 5 to 6) steps from {insert 4 keys, copy, assign to two targets, move}, up to two steps with every call throwing, then repeated or not; traversals of all 128 subsets of 7 keys, throwing at every visit or traversing inside every visit; Folklore arrays of 0..3 elements: all histories of 4 (5) steps; HeapSort of up to 6 (7) elements under every sequence of answers {less, not less, throw} and of all words of up to 4 (5) letters with every call throwing; 10 constructors from ranges, every iterator operation throwing; recursion to depth 40 (200); 6 families of histories of 3 to 4 operations whose arguments are own elements'),
})
NA = {
    'C31': 'a property of translation units (compiling and linking), not of executions: there is no state space to explore; harnesses do include the headers',
}
