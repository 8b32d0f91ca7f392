#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
PF='src/hyperloglog.rs';PL='src/hyperloglogplus.rs';CO='src/common.rs';EN='src/encoding.rs';CN='src/constants.rs';LB='src/lib.rs';LG='src/log.rs'

prop('C01','The estimate depends only on the set of distinct elements inserted',
 'For both sketch types and every precision, the value returned by count() is a function of the set of distinct elements inserted: insertion order, repeated insertions of the same element, and count() calls made in between never change it. Re-inserting an element that is already in the sketch never changes any later estimate.',
 ['inputs','histories','configurations'],'every precision, every set of element hashes, every order, duplication and interleaving of insert and count, in every representation (pending, sparse, dense) and across the transition',
 'The tests insert at most a few dozen fixed hashes in one order; they never compare two histories of one set, and never cross the sparse to dense transition in two different ways.',
 [PL,PF,CO,EN],[('registers keep a maximum',CO+' set_greater'),('temporary set merged into sorted list, equal codes collapsed',PL+' merge_sparse'),('count() merges the temporary set first',PL+' count')],
 [dict(name='tmpset',meaning='codes not yet merged',where=PL),dict(name='sparse',meaning='sorted, difference encoded codes',where=PL),dict(name='registers',meaning='packed registers',where=CO)],['HyperLogLog::count'])
prop('C02','Merging is set union',
 'After a successful merge the receiving sketch is indistinguishable, by every later estimate, from a sketch into which all elements of both sketches were inserted; hence merging is commutative, associative and idempotent, and merging an empty sketch changes nothing. The other sketch is unchanged. This holds for every combination of internal representations and pending insertions on either side, including merges that trigger the switch to the dense representation.',
 ['inputs','histories','configurations'],'every precision, every pair (or tree) of sketches reachable by insert/count/merge, all representation combinations',
 'Six unit tests merge sketches of five to ten fixed elements at precision 16 in the four representation combinations; none merges pending with flushed codes, overlapping ranks, big sketches, or triggers the transition by merging.',
 [PL,PF,CO,EN],[('four representation cases',PL+' merge'),('register-wise maximum',PF+' merge, '+CO+' set_greater'),('zero count kept up to date',CO+' zeros')],None,['merge','HyperLogLog::count'])
prop('C03','Precision bounds and mismatched merges are rejected without side effects',
 'Construction succeeds exactly for precisions 4 to 16 (original HyperLogLog) and 4 to 18 (HyperLogLog++), and fails with the invalid-precision error for every other value. Merging sketches of different precision fails with the incompatible-precision error and leaves both sketches unchanged in every later estimate; merging sketches of equal precision always succeeds. The message of each error names its own reason.',
 ['inputs','histories','configurations'],'all 256 precision values, all pairs of valid precisions, all representation combinations of the two sketches',
 'One mismatched pair per type is tested, the constructor is only tested with valid values, and nothing checks that a rejected merge leaves the sketches alone.',
 [PF,PL,LB],[('range check in new',PF+' new, '+PL+' new'),('precision comparison before any mutation',PF+' merge, '+PL+' merge')],None,['new','merge'])
prop('C04','HyperLogLog (PF) estimates follow the published estimator',
 'For every set of inserted elements, HyperLogLogPF::count() equals the estimator of Flajolet et al. computed over the low 32 bits of the element hashes: first p bits choose the register, the register keeps the maximum position of the first one bit in the rest, and the harmonic-mean estimate is replaced by linear counting when it is at most 2.5m with empty registers, and corrected for 32-bit collisions above 2^32/30. When the raw estimate reaches 2^32 the result is a finite, saturated value.',
 ['inputs','configurations'],'every precision 4..16, every set of 32-bit hashes, all three estimator ranges and their boundaries',
 'test_count checks 0 and 5 elements at precision 16: the raw and large-range branches are never executed by any test.',
 [PF,CO],[('register index and rank from the hash',PF+' insert_impl'),('raw estimate, alpha, linear counting',CO+' estimate_raw_plus, alpha, linear_count'),('range corrections',PF+' count')],None,['HyperLogLog::count'])
prop('C05','HyperLogLog++ dense estimates follow the published estimator',
 'Once a HyperLogLogPlus uses the dense representation, count() equals the HyperLogLog++ estimator computed over the full 64-bit hashes: linear counting when some register is empty and its value is at most the published per-precision threshold, otherwise the harmonic-mean estimate, from which, up to 5m, the bias linearly interpolated between the two neighbouring published calibration points is subtracted.',
 ['inputs','configurations'],'every precision 4..18, every set of 64-bit hashes large enough to be dense, every bias-table segment, both sides of every threshold',
 'Tests look up eight bias values directly and check one dense estimate at precision 4 to within 1; thresholds, the uncorrected range and nearly all of the 5,600 table entries are never exercised.',
 [PL,CO,CN],[('register index and rank from the hash',PL+' insert_impl'),('bias interpolation',PL+' estimate_bias'),('thresholds',PL+' threshold'),('estimator selection',PL+' count'),('calibration data',CN)],None,['HyperLogLog::count'])
prop('C06','Sparse HyperLogLog++ counts at 25-bit precision until the list outgrows dense',
 'As long as the sorted, difference- and varint-encoded list of the 32-bit hash codes of the inserted elements is no longer than 4*2^p/5 bytes (rounded down), count() is linear counting of the distinct codes over 2^25 registers, whatever the precision p. Once it is longer the sketch is dense, and the switch loses nothing: all later estimates equal those of a sketch whose registers were filled directly from the element hashes.',
 ['inputs','histories','configurations'],'every precision 4..18, every set of hashes including clustered, adjacent and widely spaced codes, long zero runs, and every point of the history around the switch',
 'Tests check two tiny transitions (p=4, p=7), five codes by value, and a count of five; no test compares registers or estimates before and after a realistic switch, nor the sparse estimate beyond 10 elements.',
 [PL,EN,CO],[('encode/decode of hash codes',PL+' encode_hash, decode_hash, index'),('varint and difference coding',EN),('size limit and conversion',PL+' merge_sparse, sparse_to_normal'),('linear counting over 2^25',PL+' count')],
 [dict(name='counts',meaning='register counts and sparse size limit',where=PL)],['HyperLogLog::count'])
prop('C07','Estimates are accurate at every cardinality',
 'With a well-distributed hash function the relative standard error of the estimates is about 1.04/sqrt(2^p) for every precision and every cardinality: from one element to well beyond 10^9 for HyperLogLog++, and to 10^8 (below the large-range correction for 32-bit collisions) for the original HyperLogLog. They are essentially unbiased, apart from the known bias of at most about 3% of the original HyperLogLog around 2.5*2^p elements, where it leaves linear counting. While HyperLogLog++ is sparse, its error is that of 2^25 registers, far smaller.',
 ['inputs','configurations'],'random hash streams: all precisions, cardinalities 1 to 10^8 (PF) and 10^15 (HyperLogLog++)',
 'Accuracy is a statistical statement over all hash streams; the tests contain no accuracy check at all (the evaluation figures are produced by hand).',
 [PF,PL,CO,CN],[('estimators and corrections',PF+' count, '+PL+' count'),('calibration data',CN)],None,['HyperLogLog::count'])
prop('C08','Serialization round trips preserve the sketch at any point of its history',
 'At any point of any history, a sketch serialized through serde and deserialized again, in any of several formats, gives the same estimate as the original, and goes on behaving like the original under every later sequence of insertions, merges, counts and further round trips, with the same hasher state. Serializing does not change the original.',
 ['inputs','histories','configurations'],'every precision and representation, including not yet merged insertions; JSON, bincode and CBOR; every continuation',
 'Two tests round-trip one five-element sketch per representation through JSON, right after count() has flushed all pending state, and then insert one element.',
 [PL,PF,CO,EN],[('derived Serialize/Deserialize of every part of the state',PL+', '+PF+', '+CO+', '+EN)],None,['serde'])
prop('C09','No input makes a sketch panic, corrupt memory, or return a non-number',
 'No history of valid API calls (insert, count, merge, clone, serialize/deserialize of its own output) on any element hashes, including adversarially chosen ones, panics, overflows an integer, or causes undefined behaviour; and every estimate is finite, not NaN and not negative, and zero exactly when nothing was inserted.',
 ['inputs','histories','configurations'],'all precisions, all API histories, adversarial hash values (all zeros, all ones, single bits, saturating every register)',
 'Tests only use benign inputs, without sanitizers; saturated registers and boundary hashes are never generated.',
 [PF,PL,CO,EN],[('bounds of index and rank',PF+' insert_impl, '+PL+' insert_impl'),('shift amounts',CO+' extract'),('saturation of the large range correction',PF+' count'),('varint decoding',EN)],None,['all public functions'])
prop('C10','All build configurations compile and give the same estimates',
 'The library builds, and the same history gives the same estimates (up to floating-point rounding), with and without the const-loop feature, with optimisation or without, and, for the original HyperLogLog, without std using the alloc feature.',
 ['configurations','inputs'],'feature sets {default, const-loop, std+alloc, no_std+alloc, no_std+alloc+const-loop} x build profiles, over histories that cover every estimator range',
 'Each test run sees one configuration and never compares two; the no_std code (its own logarithm, smaller lookup table) is never compiled by the tests.',
 [CO,LB,LG,PF],[('lookup table for const-loop',CO+' rawlut_impls, estimate_raw_plus'),('own natural logarithm',LG),('feature gates',LB)],None,['cargo build','HyperLogLog::count'])
prop('C11','Results do not depend on the target platform',
 'The same history of element hashes gives the same estimates (up to floating-point rounding) on 32-bit and 64-bit, little- and big-endian targets, without overflow or undefined behaviour, and a sketch serialized on one target can be deserialized and continued on another.',
 ['configurations','inputs'],'x86_64, i686 (32-bit usize) and s390x (big endian), all precisions, both representations',
 'The tests run on one 64-bit little-endian host.',
 [CO,PF,PL,EN],[('squared register count in floating point',CO+' estimate_raw_plus'),('usize arithmetic',PL+' new, '+CO),('fixed width words and bytes',CO+', '+EN)],None,['HyperLogLog::count','serde'])
prop('C12','Memory stays bounded, however many elements are inserted',
 'The heap memory held by a sketch is bounded by a constant multiple of its dense register array (32 bits per six 5-bit or five 6-bit registers) plus about 4 KB, whatever and however many elements were inserted or merged: 2 times for the original HyperLogLog, 6 times for a HyperLogLog++ that is only inserted into and counted, 32 times after merges. Inserting elements already present does not make it grow without bound, and dropping the sketch frees all of it.',
 ['inputs','histories','configurations'],'all precisions, all histories of insert, count and merge, streams much longer than the number of registers',
 'No test measures memory; longest test stream is about 100 elements.',
 [PL,CO,EN],[('temporary set limited to 1% of the dense size',PL+' insert_impl, merge'),('sparse list limited to the dense size',PL+' merge_sparse'),('temporary state cleared on conversion',PL+' sparse_to_normal')],None,['global allocator'])
prop('C13','Counting is pure and clones are independent',
 'count() may reorganise a sketch but never changes its meaning: repeated calls return the same value, and calling it at any time has no effect on any later estimate or merge. A clone equals its original, and afterwards no operation on one of them (including dropping it) affects the other.',
 ['histories','inputs'],'all histories, all precisions and representations, clone taken at any point',
 'The tests never clone a sketch and never compare runs with and without interleaved count() calls.',
 [PL,PF,CO,EN],[('count() takes &mut self and flushes pending codes',PL+' count'),('derived Clone',PL+', '+PF)],None,['HyperLogLog::count','Clone'])
prop('C14','An element is identified by its hash, through every entry point',
 "Every way of inserting an element (insert, insert of a borrowed form, insert_any, the deprecated add) has the same effect, determined only by the 64-bit hash that the sketch's own BuildHasher computes for that element from a fresh hasher; earlier insertions do not influence it. The original HyperLogLog uses exactly the low 32 bits of that hash, HyperLogLog++ all 64.",
 ['inputs','histories'],'element types of every shape (integers, strings, slices, tuples, nested, zero-sized, unsized), keyed and stateful hashers, all entry points',
 'Tests insert u64 through one entry point with a pass-through hasher; insert_any, add and borrowed forms are never compared.',
 [PF,PL,LB],[('single insert_impl behind all entry points',PF+', '+PL),('fresh hasher per insertion',PF+' insert_impl, '+PL+' insert_impl')],None,['insert','insert_any','add'])
prop('C15','Sketches can be used from many threads without races',
 'Sketches are Send and Sync whenever their parameters are. Building shards on many threads and merging them, including many threads merging from or cloning one shared sketch at the same time, is free of data races and gives the same estimates as doing the same sequentially, under every schedule; sketches share no hidden state.',
 ['schedules','histories'],'thread counts 2..16, random schedules with injected yields, shared read-only sources, both sketch types and all representations',
 'All tests are single threaded.',
 [PL,PF,CO,EN],[('no interior mutability, no globals',PL+', '+PF+', '+CO),('merge borrows the other sketch immutably',PL+' merge')],None,['merge','clone','count'])
prop('C16','The evaluation program reports what the sketches estimate',
 "The evaluation program's run command writes, for every input file of hashes, one file with one line per prefix: its length and the truncated estimate of the chosen sketch and precision over exactly that prefix; in cardinalities mode, one file per run with one line per requested cardinality, estimated from that many random elements drawn independently for each run. Its gen command writes the requested number of files and decimal hashes of the requested width. The output does not depend on the number of jobs.",
 ['inputs','configurations','schedules'],'both sketch types, both modes, all precisions, any input files, any job count',
 'The evaluation program has no tests.',
 ['evaluation/src/main.rs'],[('run and generate','evaluation/src/main.rs run_impls, generate'),('parallel iteration per file','evaluation/src/main.rs')],None,['output files of evl'])
prop('C17','Sketches persisted by the published version remain readable',
 'A sketch serialized to JSON by version 0.4.1 of the library, in any representation and with or without pending insertions, is deserialized by the current code to a sketch with the same set of elements: further insertions and merges of those elements change nothing, and new ones are counted.',
 ['inputs','histories','configurations'],'payloads recorded from version 0.4.1 for all precisions and representations',
 'The tests only read what the same build has just written.',
 [PL,PF,CO,EN],[('field names and types of the serialized state',PL+', '+PF+', '+CO+', '+EN),('meaning of codes and packed registers',PL+' decode_hash, '+CO)],None,['serde'])
prop('C18','Every bucket keeps exactly the largest rank it has received',
 'In the dense state, however it was reached (insertions, switching from sparse, merges, clones, round trips), each of the 2^p buckets holds exactly the maximum, over the elements routed to it, of the position of the first one bit after the p index bits of the hash; no operation changes a bucket to which no element was routed.',
 ['inputs','histories','configurations'],'every precision, every bucket including those at word boundaries and the last one, every rank from 1 to the maximum, every order of arrival',
 'Tests read a handful of registers by hand at two precisions; neighbouring registers in a word, high ranks and overwrites after merging are not covered.',
 [CO,PF,PL],[('packed registers',CO+' set_greater, iter'),('rank and index',PF+' insert_impl, '+PL+' insert_impl, decode_hash')],None,['HyperLogLog::count of probed clones'])
prop('C19','Estimates never go backwards within one estimator',
 'Adding an element never lowers the estimate, except at the switch from one estimator to another (sparse to dense, linear counting to harmonic mean, bias-corrected to uncorrected) or within the few non-monotone stretches of the published bias calibration points.',
 ['histories','inputs'],'every insertion sequence, every precision, estimate observed after each insertion',
 'Tests never observe the estimate along a history.',
 [PF,PL,CO,CN],[('registers only grow',CO+' set_greater'),('estimators are monotone in the registers',PF+' count, '+PL+' count')],None,['HyperLogLog::count after every insert'])
prop('C20','The experiment driver computes the documented statistics',
 'The experiment script prepares the cardinality list as the sorted, duplicate-free integer parts of a geometric series with ratio 1.007 that reaches the requested maximum, passes the requested options to the evaluation program, and computes, per cardinality, mean, median and standard deviation of the absolute relative error over all result files.',
 ['inputs','configurations'],'any set of result files (equal or different lengths), any maximum cardinality, all sub-commands',
 'The script has no tests.',
 ['evaluation/exp.py'],[('statistics','evaluation/exp.py calculate_statistics'),('series','evaluation/exp.py generate_cardinalities'),('command lines','evaluation/exp.py prepare, run')],None,['calculate_statistics','generate_cardinalities','subprocess command lines'])
prop('C21','Operations keep their cost: constant-time insertion, linear count and merge',
 'Inserting an element takes amortised constant time, in every representation, whatever the precision and however many elements were inserted before; so does merging a sparse HyperLogLogPlus of one element, also into a dense one. Creating, counting, cloning and merging take time at most linear in the size of the dense register arrays (2^p), never in the number of elements inserted. Every operation returns.',
 ['inputs','histories','configurations'],'every precision, every representation of both operands, empty to millions of elements, new and repeated elements, ascending and descending codes',
 'No test measures anything, and the benchmarks are run by hand and judge nothing: an insertion that flushes the temporary set every time, or scans all registers, passes every test.',
 [PL,PF,CO,EN],[('flush only when the temporary set has grown to a hundredth of the size limit',PL+' insert_impl, merge'),('zero count kept up to date instead of recounted',CO+' set_greater'),('linear merge of two sorted lists',PL+' merge_sparse')],None,['processor time of insert, count, merge, clone, new'])
prop('C22','Failures in user code and in serialization leave sketches intact',
 'When the Hash implementation of an element, the hasher or its builder panics during an insertion or a clone, the panic reaches the caller and the sketch is as it was before the call, in every later estimate. Serializing into a writer that fails reports the error and leaves the sketch unchanged; an incomplete serialized sketch (cut off at any byte) is rejected with an error, without panic. A Hash implementation may itself insert into, count and merge other sketches.',
 ['inputs','histories','fault_sequences'],'every representation with and without pending insertions; panics before, during and after hashing; every cut-off point in JSON, bincode and CBOR',
 'No test has a failing hasher, a failing writer or an incomplete payload.',
 [PL,PF],[('hash computed before anything is changed',PL+' insert_impl, '+PF+' insert_impl'),('derived Serialize/Deserialize',PL+', '+PF)],None,['insert_any','Clone','serde'])
prop('C23','Safe code cannot make a sketch violate memory safety, not even with corrupted data',
 'Whatever a program written in safe Rust does with the library, built as users build it (optimised, without overflow checks), no memory is read or written outside its allocation, used before it is initialised or after it is freed, or freed twice. This includes sketches deserialized from data that was corrupted or forged in any way and used afterwards in insertions, counts, merges with each other and with intact sketches, clones and serialization; hash functions and hashers that panic; and hash values of any kind. The worst outcomes are an error, a panic or a meaningless estimate.',
 ['inputs','histories','fault_sequences','configurations'],'structure-aware corruptions of JSON and CBOR payloads of every precision and representation: fields exchanged between sketches, buffers cut, extended and overwritten, sizes and precisions changed; random operations afterwards',
 'No test deserializes anything but what the library has just written.',
 [PL,PF,CO,EN],[('bounds-checked packed registers',CO+' set_greater, iter'),('bounds-checked variable-length decoding',EN+' decode'),('bounds-checked calibration tables',PL+' estimate_bias')],None,['every public operation, under sanitizers'])
with open('properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
