import json
EV=["enum_vec/src/vec_u8/mod.rs","enum_vec/src/vec_u16/mod.rs","enum_vec/src/vec_u32/mod.rs","enum_vec/src/vec_u64/mod.rs","enum_vec/src/vec_u128/mod.rs","enum_vec/src/smallvec_u32/mod.rs"]
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)
M="enum_vec/src/vec_*/mod.rs, enum_vec/src/smallvec_u32/mod.rs"
ST=[("storage","the blocks; its length may exceed what len() needs","EnumVec.storage"),("num_elements","the logical length","EnumVec.num_elements")]
p("C01","Safe vector operations never touch memory outside the initialised storage",
 "No sequence of calls to the safe operations of a packed vector (and of its iterators) ever reads or writes an element or storage block outside the initialised part of the vector's backing storage. This holds for every storage block type and element width, with and without arithmetic overflow checks, and also when a caller-supplied iterator or closure panics or an iterator misreports its length; after each operation every vector it leaves behind still owns initialised storage for all of its elements.",
 ["histories","inputs","configurations","fault_sequences"],"all histories of safe calls, all arguments, 6 storages x all element widths, debug and release arithmetic, panics in callbacks",
 "The tests run a few short histories with 1-4 bit elements in a debug build; an out-of-bounds access needs a particular length/width residue, a wrapped size computation or a panicking callback and then often reads plausible data.",
 EV,[("every public operation keeps storage.len() >= ceil(num_elements / ELEMS_PER_BLOCK)",M),("grow_if_needed / reserve / fix_storage",M),("get_unchecked / get_unchecked_mut only behind a length check",M)],ST)
p("C02","Reading and writing one element never disturbs another",
 "Storing a value at a valid position of a packed vector (set, push, swap, swap_remove, in-place mutation) makes that position read back exactly that value and leaves the value at every other position unchanged; pop and swap_remove return the value they take out. This holds for every position, every length, every element width and every storage block type.",
 ["inputs","configurations","histories"],"every index, length, previous content, element width 1..63 bits and storage type",
 "Tests use a handful of positions with a few element widths; a wrong mask, shift or block index shows only at particular widths or at positions that straddle a block boundary.",
 EV,[("block_index, ELEMENT_MASK, get_raw_unchecked, set_raw_unchecked",M),("push/pop/set/swap/swap_remove",M)],ST)
p("C03","Elements get the minimal number of bits and unsupported types do not compile",
 "A type with N >= 2 variants is stored in exactly ceil(log2 N) bits, and every storage block holds as many whole elements as fit in it. Using a vector with a type that has fewer than two variants, or whose elements do not fit in one storage block, is rejected at compile time and never silently truncates values.",
 ["programs","configurations"],"every number of variants from 0 to usize::MAX and every storage block type",
 "Whether a program compiles is outside what unit tests observe, and tests only use types with 2 to 100 variants; the number of bits is a sum of threshold comparisons any one of which may be wrong.",
 EV,[("BITS_PER_ELEM, ERROR_TOO_MANY_VARIANTS, ERROR_ZERO_SIZED, ELEMS_PER_BLOCK, ELEMENT_MASK",M)])
p("C04","Out-of-range positions are refused without changing the vector",
 "Reading at a position >= the length gives no value, popping from an empty vector gives no value, and set, swap, swap_remove and remove at a position >= the length, as well as insert and split_off at a position > the length, panic. A refused operation leaves the length and every element unchanged.",
 ["inputs","configurations"],"every index and every length (including usize::MAX and the empty vector), every width and storage type, with and without overflow checks",
 "No test passes an out-of-range position; the position space is unbounded and the interesting failures (stale slots just past the end, wrap-around of index arithmetic) look like ordinary data.",
 EV,[("the i >= self.len() guards in get_raw/set_raw, unwrap of absent values, assert in split_off and insert",M)],ST)
p("C05","insert and remove shift exactly the elements behind the position",
 "insert(i, x) with i <= length yields the old elements before i, then x, then the old elements from i on, in order; remove(i) with i < length returns the i-th element and yields the remaining ones in order. This holds for every length, position, previous history, element width and storage block type, and neither panics.",
 ["inputs","histories","configurations"],"every length, index, stored content (including stale bits behind the end and unused bits of a block), width and storage type",
 "Tests insert and remove at about ten positions with 2-bit elements; the whole-block shifting path depends on the residue of the index and length modulo the elements per block and on bits that are not part of any element.",
 EV,[("insert: element-wise shift up to the block end, then whole-block shifts",M),("remove: mirror image, from the last block down",M)],ST)
p("C06","Bulk operations keep exactly the right elements in order",
 "append moves all elements of the other vector, in order, behind the own ones and leaves the other empty; split_off(i) keeps the first i elements and returns the rest; extend, collecting, conversion from a Vec or slice and the vec-like macro append exactly the given items in order; resize and from_elem produce the requested length filled with the given value; truncate and clear keep exactly a prefix; conversion to a Vec returns exactly the elements. Each holds for every length, item count, element width, storage block type and previous content.",
 ["inputs","histories","configurations"],"every length and count, any well-behaved iterator, any stored content, width and storage type",
 "Tests cover block-aligned and unaligned cases of one or two widths with short inputs; the fast paths switch on length residues and on a count threshold.",
 EV+["enum_vec/src/lib.rs"],[("append, split_off, extend, extend_with_value, from_elem, from_slice, From/Into Vec, resize, truncate, clear",M)],ST)
p("C07","retain and for_each visit every element exactly once, in order",
 "retain calls its predicate exactly once for each element, in order, and afterwards the vector consists of exactly the accepted elements in their original order. for_each calls its function exactly once for each element, in order, and every element becomes what the function left in it, with the length unchanged.",
 ["inputs","configurations","histories"],"every length, predicate/function behaviour, width and storage type",
 "One example each in the documentation tests; predicates are arbitrary functions and the vector is of arbitrary length.",
 EV,[("retain: read cursor / write cursor",M),("for_each: get, call, set",M)],ST)
p("C08","any and all agree with looking at each element",
 "any(x) is true exactly when some element equals x and all(x) exactly when every element equals x (so false respectively true on an empty vector), and neither panics. The answer never depends on stale data behind the end of the vector or on unused bits of a storage block.",
 ["inputs","histories","configurations"],"every content, length, searched value, width and storage type, any garbage in bits that belong to no element",
 "The word-parallel zero test and its masks are exercised for 1 and 2 bit elements with near-constant content; its correctness is a statement about all words of up to 128 bits and every tail length.",
 EV,[("any: haszero bit trick with one_mask/high_mask and last_block_mask",M),("all: valid_mask and last_block_mask comparison",M)],ST)
p("C09","Equality and hashing see exactly the logical elements",
 "Two vectors compare equal exactly when they have the same length and equal elements at every position, and equal vectors feed identical data to a hasher. Neither depends on capacity, stale data behind the end, unused bits of a storage block or the history that produced the vector.",
 ["inputs","histories","configurations"],"every pair of vectors with every history",
 "No existing test compares or hashes two vectors; equal vectors with different internal representations arise only from particular histories.",
 EV,[("PartialEq, Hash element-wise over 0..len",M)],ST)
p("C10","Vector iterators yield each element once, in order, from either end",
 "Iterating a vector by reference or by value yields exactly its elements in order; next, next_back and nth consume from their respective ends without skipping or repeating an element in any interleaving. The reported size is always exactly the number of elements still to come, and count equals it.",
 ["inputs","histories","configurations"],"every interleaving of next/next_back/nth/len/count on every vector",
 "Existing tests only run forward iteration in doc examples; interleavings of front and back consumption and nth are not sampled.",
 EV,[("EnumVecIter / EnumVecIntoIter delegate to a Range<usize>",M)],[("range","positions still to be yielded","EnumVecIter.range, EnumVecIntoIter.range")])
p("C11","Storage stays proportional to the requested number of elements",
 "After any sequence of operations on a vector the number of storage blocks is at most one more than what is needed for the largest number of elements that the vector has held or that was explicitly reserved. In particular creating a vector of n copies of a value uses at most ceil(n / elements-per-block) + 1 blocks, with_capacity and reserve make capacity() at least what was asked for, and shrink_to_fit leaves exactly the blocks needed for the current length.",
 ["inputs","histories","configurations"],"every operation from every state, every count, width and storage type",
 "No test looks at the amount of storage beyond 'not empty'; quadratic growth is invisible for the small counts tests use.",
 EV,[("reserve, with_capacity, extend_with_value, grow_if_needed, fix_storage, shrink_to_fit",M)],ST)
p("C12","All storage variants offer the same interface",
 "Every storage variant of the packed vector (8 to 128 bit blocks and the inline small-vector variant) provides the same public methods with the same signatures and safety, the same trait implementations and the same iterator types, so a program can switch storage by changing one import. Operations that can expose uninitialised or foreign storage without any check are callable only from unsafe code in every variant.",
 ["programs","configurations"],"every program written against one variant",
 "Tests of one variant never mention the others; a missing implementation, a changed signature or an unchecked operation that became safe in one variant is only seen by programs nobody wrote yet.",
 EV,[("the six generated modules (gen.sh)","enum_vec/gen.sh")])
EL=["enum_like/src/lib.rs"]
p("C13","The unchecked operations do what the checked ones do when their preconditions hold",
 "For a position below the length, get_raw_unchecked returns the discriminant of exactly that element and set_raw_unchecked with a valid discriminant makes exactly that element the value with this discriminant, leaving every other element and the length alone. set_len to a length that the storage covers changes only the length. storage and storage_mut give access to the vector's own blocks, hold all of its elements and change nothing by themselves.",
 ["inputs","configurations","histories"],"every position, length, content, valid discriminant, width and storage type",
 "No test calls the unchecked operations directly; their contract only shows at particular widths and positions.",
 EV,[("get_raw_unchecked, set_raw_unchecked, set_len, storage, storage_mut",M)],ST)
p("C14","A clone has exactly the same elements and the original is left alone",
 "Cloning a packed vector or a set (with clone or clone_from) gives one with exactly the elements of the original, whatever its history, and leaves the original unchanged; clone_from replaces everything the receiver held before.",
 ["inputs","histories","configurations"],"every vector and every pair of vectors, any previous content, stale data and spare capacity, width and storage type; every set",
 "No test clones a vector after a history that leaves stale data or spare blocks behind.",
 EV+["enum_set/src/lib.rs"],[("derive(Clone) on EnumVec",M),("derive(Clone) on EnumSet","enum_set/src/lib.rs")],ST)
p("C15","Debug output shows exactly the elements, in order",
 "Formatting a packed vector with Debug shows a list with exactly its elements, in order, each once; formatting a set shows a set with exactly its members, in increasing order of discriminants, each once. Nothing behind the end of the vector is shown.",
 ["inputs","histories","configurations"],"every vector (any length, content, history, width, storage type) and every set",
 "The few tests that print a vector do not compare the output; it must be right for every length and content.",
 EV+["enum_set/src/lib.rs"],[("impl Debug for EnumVec: debug_list over iter()",M),("impl Debug for EnumSet: debug_set over iter()","enum_set/src/lib.rs")],ST)
p("L01","Built-in types map one-to-one onto 0..NUM_VARIANTS",
 "For every type for which the library provides the enum-like mapping ((), bool, Option, Result, tuples of 1 to 32 components, arrays of 0 to 32 elements), composed from any component types that respect the contract, the discriminant of every value is below the number of variants, converting it back gives the same value, and the number of variants equals the number of distinct values. Converting to and from discriminants never panics on valid input.",
 ["inputs","programs"],"all component types (any number of variants, including zero and one) and all values",
 "Tests enumerate bool-based instances of small arity and sample arrays; component types with other sizes, mixed tuples beyond arity 3 and types whose values have unusual representations are not covered.",
 EL,[("impl EnumLike for (), bool, Option, Result, (T,), (T,S), tuple_impls!, array_impls!","enum_like/src/lib.rs")])
p("L02","The value iterator enumerates every variant exactly once, in discriminant order",
 "values() yields the value of every discriminant from 0 to NUM_VARIANTS-1 exactly once in increasing order and then stays exhausted; nth(n) skips exactly n values (or exhausts the iterator) for every n including the largest integer, and last returns the final value or nothing. The reported size and count are always exactly the number of values still to come; no call panics or moves backwards.",
 ["inputs","histories"],"every type, every interleaving of next/nth/size_hint/count/last, every n, with and without overflow checks",
 "Tests call next to exhaustion and nth/last once each; nth on a partly consumed iterator and extreme arguments are not sampled.",
 EL,[("Values::{next,size_hint,count,last,nth}","enum_like/src/lib.rs")],[("current, max","next discriminant and end","Values")])
p("L03","Packed integers round-trip every value and reject types that do not fit",
 "Packing a value into the 8-bit or 16-bit wrapper and unpacking it returns the same value, for every type whose number of variants fits (up to exactly 2^8 and 2^16 respectively). Using a wrapper with a type that has more variants is rejected at compile time.",
 ["inputs","programs"],"every type and value",
 "One value per wrapper is tested; rejection at compile time cannot be tested by unit tests, and the boundary sizes are not sampled.",
 EL,[("PackedU8/PackedU16 new/get and CHECK_LIMIT_VARIANTS","enum_like/src/lib.rs")])
p("L04","Packed integers compare like the discriminants of their values",
 "Two packed values of the same type are equal exactly when the values they hold have the same discriminant, and cmp, partial_cmp and the comparison operators order them by discriminant (so the order is total and the same for the 8-bit and the 16-bit wrapper). A copy or clone of a packed value holds the same value. No comparison panics.",
 ["inputs"],"every type that fits and every pair of values",
 "No test compares packed values; the pairs around the middle and the end of the range are never sampled.",
 EL,[("PackedU8/PackedU16 and their comparison implementations","enum_like/src/lib.rs")])
DR=["enum_like_derive/src/lib.rs"]
p("D01","Derived mappings are one-to-one onto 0..NUM_VARIANTS",
 "For every struct or enum on which the mapping is derived (unit, tuple and named-field structs; enums mixing unit, tuple and named variants in any order; generic parameters of any component type), the discriminant of every value is below the number of variants, converting it back gives the same value including every field, and the number of variants is the sum over variants of the products of their fields' numbers of variants.",
 ["programs","inputs"],"every declaration shape, all component types and all values",
 "The repository's tests of the derive exercise the published release instead of this source tree, and sample a few bool-based declarations; declarations and component sizes are unbounded.",
 DR,[("num_variants_product, from_discr_body, to_discr_body, MatchArm, all_variants_of","enum_like_derive/src/lib.rs")])
p("D02","Derived discriminants of field-less variants count from zero in declaration order",
 "Deriving the mapping on a field-less enum numbers its variants 0, 1, 2, ... in declaration order, ignoring explicit discriminant values. In an enum that also has variants with fields, the field-less variants still come first, numbered from zero in declaration order, followed by the variants with fields in declaration order.",
 ["programs"],"every enum declaration",
 "Tests only check that the mapping is invertible, never which number a variant gets; the workspace tests do not even build this source of the derive.",
 DR,[("generate_c_enum_code, all_variants_of","enum_like_derive/src/lib.rs")])
ES=["enum_set/src/lib.rs"]
p("S01","Set operations compute the mathematical set operations on the stored values",
 "insert, remove and contains act on exactly the given value and report whether it was newly added, was present, is present; union, intersection, difference and symmetric difference (as iterators and in place), is_disjoint, is_subset, is_superset, is_empty, len and clear give the results of the corresponding operation on the mathematical sets, for every pair of sets and every value. In-place operations change only the receiver, and building or extending a set from items adds exactly those items.",
 ["inputs","histories"],"every element type, all pairs of sets, all values",
 "One test inserts and removes a single value; no algebraic operation of this source tree is tested at all (the example crate tests the published release).",
 ES,[("EnumSet methods delegating to bit_set::BitSet","enum_set/src/lib.rs"),("FromIterator, Extend, Default","enum_set/src/lib.rs")],[("inner","the set of discriminants","EnumSet.inner")])
p("S02","Set iterators yield the members themselves",
 "Every iterator over a set, or over a combination of two sets, yields exactly the values whose discriminants it visits, each converted back with the mapping of the element type, in the order and with the size bounds of the underlying bit set. Converting to and from the underlying bit set preserves the members.",
 ["inputs","histories"],"every element type and every set",
 "Set iteration of this source tree is not tested.",
 ES,[("WrapIter::{next,size_hint}, iter, into_iter, from_bit_set, into_bit_set, get_ref","enum_set/src/lib.rs")],[("WrapIter.inner","underlying bit-set iterator","WrapIter")])
p("S03","Set equality, ordering and hashing see exactly the members",
 "Two sets are equal exactly when they have the same members; cmp, partial_cmp and the comparison operators order sets like the ascending sequences of their members' discriminants, so the order is total, says equal exactly for equal sets and the reverse for swapped operands; equal sets feed identical data to a hasher. None of this depends on the room or history of the underlying bit set.",
 ["inputs","histories"],"every element type and every pair of sets",
 "No test of this source tree compares, orders or hashes sets.",
 ES,[("derived PartialEq, Eq, PartialOrd, Ord, Hash of EnumSet","enum_set/src/lib.rs")],[("inner","the set of discriminants","EnumSet.inner")])
p("N01","Word-parallel search is faster than element-wise search",
 "any and all on long vectors take time proportional to the number of storage blocks rather than the number of elements, and are faster than the equivalent search in a plain Vec.",
 ["inputs","configurations"],"every length and content",
 "Unit tests do not measure time; benchmarks sample a few sizes.",
 EV+["README.md"],[("any, all","enum_vec/src/vec_u32/mod.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
