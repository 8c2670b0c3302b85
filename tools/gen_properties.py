import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
I="include/cista/"
C=I+"containers/"
p("P01","Serialize then deserialize gives back an equal value",
 "For every value composed of the supported types (integers, floats, enums, strings, C strings, vectors, hash maps and sets, optionals, variants, tuples, pairs, arrays, bit sets, owning pointers, multimaps, durations, nested in any way), serializing it and deserializing the result in the same mode yields a value that reads exactly like the original and is accepted without an error. This holds whatever sequence of public operations (growing, shrinking, erasing, clearing, reassigning, moving) produced the value, with relative and with absolute pointers, and again when the deserialized value itself is serialized.",
 ["inputs","histories","configurations"],"every value of the supported types, every operation history that led to it, every mode and both pointer families",
 "The tests round-trip a few hand-written values; the cross product of container states (reserved, emptied, tombstoned, moved-from), nestings and modes is unbounded.",
 [I+"serialization.h",I+"serialized_size.h",I+"cista_member_offset.h",C+"vector.h",C+"string.h",C+"cstring.h",C+"hash_storage.h",C+"variant.h",C+"optional.h",C+"unique_ptr.h"],
 [("per-container serialize overloads",I+"serialization.h"),("convert_endian_and_ptr / check_state / recurse",I+"serialization.h")],
 [("byte image","linear buffer with one block per owned allocation",I+"serialization.h")],["serialize()","deserialize()"])
p("P02","Pointers keep their targets across serialization, including cycles",
 "In a graph of objects linked by plain pointers, every pointer whose target is an owned object, an object marked as addressable or an element of an addressable vector refers after deserialization to the copy of exactly that target; null pointers stay null and sharing, self references, forward references and cycles are preserved. A pointer to something that is not part of the serialized graph becomes null instead of pointing anywhere.",
 ["inputs","configurations"],"every object graph: every assignment of pointers to targets, every order in which owners and referrers are written",
 "The tests use two or three fixed graphs; whether a pointer is resolved at once or deferred depends on the order in which objects happen to be visited.",
 [I+"serialization.h",I+"indexed.h",C+"unique_ptr.h",C+"vector.h",C+"offset_ptr.h",C+"ptr.h"],
 [("resolve_pointer with offsets_, vector_ranges_, pending_",I+"serialization.h"),("indexed wrapper",I+"indexed.h")],
 [("offsets_","address of written object -> position",I+"serialization.h"),("pending_","pointers to patch after the walk",I+"serialization.h")],["serialize()","deserialize()"])
p("P03","Checked deserialization of arbitrary bytes throws or is memory safe",
 "Whatever bytes are given to checked deserialization, it either throws or returns an object whose complete traversal through the public interface (elements, characters, map entries, optional and variant payloads, owned objects, and with deep checking also pointer targets) touches only the given buffer and terminates. Sizes, capacities, offsets, alignment, ownership flags, control bytes and discriminants that contradict the buffer are rejected.",
 ["inputs"],"every byte image, in particular every corruption of every header field of a valid image, for every container type",
 "The security tests set about ten fields by hand to one bad value each; fuzzing does not cover deserialization of the containers.",
 [I+"serialization.h",C+"hash_storage.h",C+"string.h",C+"variant.h",C+"optional.h",I+"verify.h"],
 [("deserialization_context::check_ptr",I+"serialization.h"),("check_state overloads",I+"serialization.h"),("checked_addition / checked_multiplication",I+"serialization.h")],
 [("header fields","offset, size, capacity, flags inside the untrusted image",I+"serialization.h")],["deserialize()"])
p("P04","Type hash accepts the same layout and rejects a different one",
 "With type versioning enabled (dynamic or static), data written as a type is accepted when read as that type or as an identically structured one and rejected with an error when the reading type differs in structure: number, order, width or kind of fields, element types, array length, pointee, container kind or alternatives. The hash of a type is the same in every build unit and run.",
 ["programs","inputs"],"every pair of types expressible with structs, scalars, arrays, pointers and the containers",
 "The tests compare a handful of constant hashes; they cannot enumerate pairs of types.",
 [I+"type_hash/type_hash.h",I+"type_hash/static_type_hash.h",I+"type_hash/type_name.h",I+"serialization.h",I+"hash.h"],
 [("type_hash recursion",I+"type_hash/type_hash.h"),("static_type_hash",I+"type_hash/static_type_hash.h"),("check()",I+"serialization.h")],None,["type_hash()","static_type_hash()","deserialize()"])
p("P05","Integrity mode rejects every altered image and accepts every intact one",
 "With integrity checking enabled, an image whose payload or stored checksum differs from the written one in any byte, or that was truncated or extended, is rejected with an error, while the unmodified image is always accepted, from any target and in combination with every other mode. When the reader is told to skip version or checksum, those header bytes are ignored and the payload is still found at the right place.",
 ["inputs","configurations"],"every position and value of a byte change, every truncation and extension, every combination of version, integrity and skip modes",
 "The existing tests flip one byte in one image; mode combinations shift header positions and are not enumerated.",
 [I+"serialization.h",I+"hash.h",I+"mode.h",I+"targets/buf.h",I+"targets/file.h"],
 [("integrity_start / data_start / check",I+"serialization.h"),("checksum of the targets",I+"targets/")],None,["serialize()","deserialize()"])
p("P06","Hash map and set behave like a mathematical map over any history",
 "After any history of insertions, assignments, lookups, erasures, rehashes, clears, copies, moves and swaps, a hash map or set answers every lookup, size and equality query like the mathematical map, iterates over every entry exactly once, and never loses, duplicates or resurrects an entry. Inserting an existing key reports so and leaves the value, lookups by a compatible key type agree, and missing keys are reported as such.",
 ["histories","inputs"],"every operation history, key set and hash distribution, including colliding hashes, tombstones and growth boundaries",
 "Tests and fuzzers run particular insert/erase sequences with a good hash; group-probing, tombstone reuse and in-place rehash depend on long histories and on collisions.",
 [C+"hash_storage.h",C+"hash_map.h",C+"hash_set.h",I+"bit_counting.h"],
 [("Swiss-table probing and tombstones",C+"hash_storage.h"),("erase / was_never_full / growth_left",C+"hash_storage.h"),("rehash_and_grow_if_necessary",C+"hash_storage.h")],
 [("ctrl_","control byte per slot",C+"hash_storage.h"),("growth_left_","insertions before growth",C+"hash_storage.h")],["hash_map/hash_set public API"])
p("P07","Vectors hold exactly the sequence the operations define",
 "After any history of appends, insertions, erasures, resizes, reservations, copies, moves, assignments and clears, a vector contains exactly the sequence those operations define, returned positions refer to the documented element, and out of range checked access throws. Every element is constructed once and destroyed once, none leaks or is used after destruction, and storage is aligned for the element type.",
 ["histories","inputs"],"every operation history, element type and capacity, including operations whose argument is an element of the vector itself",
 "The tests check a few operations one at a time on trivially copyable elements.",
 [C+"vector.h",I+"allocator.h",I+"aligned_alloc.h",I+"next_power_of_2.h"],
 [("reserve and element relocation",C+"vector.h"),("insert / erase shifting",C+"vector.h")],
 [("el_, used_size_, allocated_size_, self_allocated_","storage, length, capacity, ownership",C+"vector.h")],["vector public API"])
p("P08","Strings and C strings keep value, length and ownership",
 "After any history of assignments, copies, moves, erasures, resets and growth across the inline/heap boundary, a string or C string reads exactly the character sequence assigned, including embedded zeros where a length is given, compares and orders like that sequence, and is terminated where promised. An owning string keeps its own copy, a non-owning one refers to the given memory, and no history leaks, frees twice or reads freed memory.",
 ["histories","inputs"],"every history over lengths around the inline limit and every ownership combination",
 "The tests sample two or three lengths and no multi-step ownership histories.",
 [C+"string.h",C+"cstring.h"],[("short/heap representation switch",C+"string.h"),("set_owning / set_non_owning / move_from",C+"cstring.h")],
 [("s_/h_ union","inline or heap representation",C+"string.h")],["string, string_view, cstring public API"])
p("P09","Bit sets and bit vectors behave like sets of bit positions",
 "After any history of set, reset, resize, shift, complement and bitwise combination, a bit set or bit vector of any size answers test, count, any, none, size, comparison, string conversion and set-bit iteration exactly like the set of positions it represents. Positions at or beyond the size are never reported as set.",
 ["histories","inputs"],"every size (in particular around block boundaries), every operation history",
 "The fuzzer checks one fixed-size bit set against the standard one; bit vectors, iteration and odd sizes are sampled with single examples.",
 [C+"bitset.h",C+"bitvec.h",I+"bit_counting.h"],[("sanitized_last_block",C+"bitset.h"),("next_set_bit / for_each_set_bit",C+"bitvec.h")],
 [("blocks_","machine words",C+"bitvec.h")],["bitset/bitvec public API"])
p("P10","Nested-sequence containers equal the sequence of sequences they store",
 "A vector of vectors, an n-level nested vector and a frozen multimap contain, after any history of bucket appends, element appends, resizes and clears, exactly the nested sequences the operations define: sizes, elements, iteration order, distances and bounds-checked access all agree. Growing one bucket never changes the contents of another.",
 ["histories","inputs"],"every operation history and every shape, including empty buckets at every position and level",
 "The tests build one or two shapes.",
 [C+"vecvec.h",C+"nvec.h",C+"fws_multimap.h"],[("bucket start index array",C+"vecvec.h"),("multi-level index",C+"nvec.h")],
 [("bucket_starts_/index_","prefix positions",C+"vecvec.h")],["vecvec, nvec, fws_multimap public API"])
p("P11","Mutable multimaps keep buckets disjoint and exact over any history",
 "After any history of appends, insertions, erasures, resizes, reservations and clears on any buckets, a mutable multimap holds exactly the sequence defined for every key, the reported element count equals the sum of bucket sizes, and iteration in both directions visits every bucket. Storage released by one bucket and reused by another never makes two live buckets overlap.",
 ["histories","inputs"],"every history over several buckets, including storage reuse orders",
 "The tests run short scripts; the free-list reuse order depends on the whole history.",
 [C+"mutable_fws_multimap.h"],[("grow_bucket / release_bucket / free_buckets_",C+"mutable_fws_multimap.h")],
 [("index_","begin, size, capacity per key",C+"mutable_fws_multimap.h"),("free_buckets_","released storage per size class",C+"mutable_fws_multimap.h")],["mutable_fws_multimap public API"])
p("P12","Paged nested vectors keep pages disjoint and contents exact",
 "After any history of bucket creation, element appends, bucket resizes, insertions, container resizes and clears, a paged vector of vectors holds exactly the sequences the operations define. A page freed by one bucket may be reused, but two live buckets never share storage and a bucket keeps its contents when it or another one grows.",
 ["histories","inputs"],"every history, every page-size boundary and reuse order",
 "The tests append to a few buckets once; recycling pages through the in-place free list needs long histories.",
 [C+"paged.h",C+"paged_vecvec.h"],[("create_page / free_page / resize_page, in-place free list",C+"paged.h")],
 [("free_list_","head of released pages per size class",C+"paged.h")],["paged_vecvec public API"])
p("P13","Spatial tree search returns exactly the matching entries",
 "After any history of insertions and deletions, a spatial tree search reports exactly the stored entries whose rectangle intersects the query, each once, and stops when the visitor asks to; deletion removes exactly one matching entry and nothing else. The same holds for a copied and for a serialized and deserialized tree.",
 ["histories","inputs"],"every history of insertions and deletions with rectangles in general and degenerate position, deep enough to split, underflow and shrink the tree",
 "The fuzzer checks insertions with one query style; node splits, underflows and root collapses depend on the whole history.",
 [C+"rtree.h"],[("node_insert / split / node_delete / free list",C+"rtree.h")],
 [("nodes_, root_, path_hint_","tree nodes and cached path",C+"rtree.h")],["rtree public API"])
p("P14","Memory mapped files persist exactly what was written",
 "Bytes written through a memory mapped file or a vector backed by one are exactly the bytes in the file after it is closed or reopened, the file's size equals the used size, and growing, shrinking, moving or reassigning the mapping preserves the common prefix. Reopening for reading or modification sees the same contents; no mapping or descriptor is leaked.",
 ["histories","fault_sequences"],"every history of open, write, resize, reserve, sync, move and reopen, with sizes around page boundaries",
 "The tests write once and read once.",
 [I+"mmap.h",C+"mmap_vec.h",I+"memory_holder.h"],[("resize_file / resize_map / sync / destructor",I+"mmap.h")],
 [("size_, used_size_, addr_","mapped size, logical size, address",I+"mmap.h")],["mmap, mmap_vec public API, file system"])
p("P15","Relative-pointer data stays valid at any address",
 "An image or object built with relative pointers and holding only internal references can be copied or mapped as a whole to any suitably aligned address and read there with the same result, without modifying it. Copying, assigning, comparing and advancing a single relative pointer preserves or moves its target exactly like an ordinary pointer does, including null.",
 ["inputs","histories"],"every object graph, every displacement of the image, every sequence of pointer operations",
 "The tests read the buffer where it was written.",
 [C+"offset_ptr.h",C+"ptr.h",I+"offset_t.h",I+"serialization.h"],[("offset_ptr arithmetic and copy",C+"offset_ptr.h")],
 [("offset_","distance from the pointer to its target",C+"offset_ptr.h")],["offset_ptr public API","deserialize()"])
p("P16","A variant holds exactly the alternative last assigned to it",
 "After any history of constructions, assignments of values or of other variants, emplacements, swaps, copies and moves, a variant holds exactly the alternative and value last given to it, reports the matching index, compares, orders, hashes and visits accordingly, and access to another alternative is refused. Every held object is constructed once and destroyed once.",
 ["histories","inputs"],"every history over every pair of old and new alternative, including the same one and the empty state",
 "The tests check single assignments of selected alternatives.",
 [C+"variant.h"],[("assignment, emplace, apply dispatch",C+"variant.h")],[("idx_, storage_","active alternative and storage",C+"variant.h")],["variant public API"])
p("P17","Optionals, owning pointers and tuples have exact value and lifetime",
 "After any history of construction, assignment, null assignment, reset, copy and move (self assignment and chains of owning pointers included), an optional holds exactly the last value or nothing, an owning pointer owns exactly the object it was given or nothing, and a tuple or pair holds exactly the assigned components and compares lexicographically. Every held object is constructed once and destroyed exactly once, and access to an absent value is refused.",
 ["histories","inputs"],"every history over present, absent and moved-from states, including self assignment and null assignment",
 "The tests construct and read once.",
 [C+"optional.h",C+"unique_ptr.h",C+"tuple.h",C+"pair.h",C+"array.h"],[("optional copy/move/reset",C+"optional.h"),("unique_ptr ownership flag",C+"unique_ptr.h"),("tuple storage and comparison",C+"tuple.h")],None,["optional, unique_ptr, tuple public API"])
p("P18","Concurrent bit and min/max updates are atomic under every schedule",
 "When several threads concurrently set or clear bits, claim the next set bit, or raise a maximum or lower a minimum through the atomic operations, every interleaving ends in the state some sequential order would give: no update is lost, no unrelated bit changes, and every set bit is claimed by exactly one thread. The minimum and maximum operations leave the smallest or largest of all values, and every such operation returns the value it replaced.",
 ["schedules"],"every interleaving of the memory accesses of several threads",
 "The single stress test samples schedules of the minimum operation only, and races show up rarely on real hardware.",
 [I+"atomic.h",C+"bitvec.h"],[("fetch_or / fetch_and / fetch_min / fetch_max",I+"atomic.h"),("bitvec::atomic_set, next_set_bit claiming",C+"bitvec.h")],None,["atomic functions","bitvec atomic API"])
p("P19","Equal values have equal hashes and compare as equal everywhere",
 "For all keys a and b of a hashable type, if a and b are equal then their hashes are equal, also across types that are interchangeable for lookup such as the various string types and literals; equality and ordering are consistent with each other and with the field-wise comparison of structs. Hashing is a pure function of the value, not of its address, capacity, ownership or representation.",
 ["inputs","histories"],"every pair of values of the supported hashable types, in every representation (inline, heap, view, literal, container with other history)",
 "The tests hash a few constants.",
 [I+"hashing.h",I+"hash.h",I+"equal_to.h",I+"reflection/comparable.h",C+"string.h",C+"variant.h"],[("hashing dispatch",I+"hashing.h"),("equal_to dispatch",I+"equal_to.h")],None,["hashing<T>","equal_to<T>","operator== and operator<"])
p("P20","Every output target yields the same image with aligned objects",
 "Serializing the same value in the same mode into a growing buffer, a memory mapped file or a plain file yields byte-identical images, checksums and sizes. Every object in the image lies at an offset that is a multiple of its alignment, no two objects overlap, and writing past or patching an earlier position changes exactly the intended bytes.",
 ["inputs","configurations","histories"],"every value, every mode, every sequence of appends with any alignment and back-patches",
 "The tests compare one or two images and never the targets with each other.",
 [I+"targets/buf.h",I+"targets/file.h",I+"buffer.h",I+"chunk.h",I+"mmap.h"],[("write with alignment padding, positioned write, checksum",I+"targets/")],None,["target write/checksum","serialize()"])
p("P21","Big-endian mode round-trips and stores most significant byte first",
 "In big-endian mode every integer of every width, including sizes and offsets inside containers and wide characters, is stored most significant byte first, and deserializing such an image in that mode gives back the original value. Single bytes, plain floating point numbers and enumerations are stored as in host byte order, and byte swapping applied twice is the identity.",
 ["inputs","configurations"],"every value of every integer width, every container and combination with other modes",
 "The tests check a few integers.",
 [I+"endian/conversion.h",I+"endian/detection.h",I+"serialization.h"],[("convert_endian",I+"endian/conversion.h"),("convert_endian_and_ptr",I+"serialization.h")],None,["serialize()","deserialize()"])
p("P22","Reflection visits every member once and in declaration order",
 "For every aggregate with supported member types and every class that lists its members, the reported number of members, the tuple view and the field visitors cover each member exactly once, in declaration order, and refer to the object itself rather than to copies. Derived comparison operators agree with lexicographic comparison of that tuple.",
 ["programs","inputs"],"every struct shape up to the supported number of members and every value of it",
 "The tests check single struct shapes.",
 [I+"reflection/arity.h",I+"reflection/to_tuple.h",I+"reflection/for_each_field.h",I+"reflection/comparable.h",I+"reflection/member_index.h"],[("arity detection",I+"reflection/arity.h"),("to_tuple bindings",I+"reflection/to_tuple.h")],None,["arity, to_tuple, for_each_field, for_each_ptr_field, comparison macros"])
p("P23","Deserialized containers can be modified without touching foreign memory",
 "Strings, vectors, maps, owning pointers and nested structures obtained by deserialization can be modified, grown, shrunk, erased from, reassigned, moved from and destroyed like freshly built ones and keep giving the results of the abstract value. Memory inside the image is never passed to the deallocator, memory that replaces image memory belongs to the modified container and is released exactly once with it, and untouched parts of the image keep their values. (Elements that still live in image memory are not destroyed with their container.)",
 ["histories","inputs"],"every operation history applied to a deserialized value of every container type",
 "The tests modify one deserialized vector and one map.",
 [C+"vector.h",C+"string.h",C+"hash_storage.h",C+"unique_ptr.h",I+"serialization.h"],[("self_allocated_ ownership flags",C+"vector.h")],None,["container public API after deserialize()"])
p("P24","Dense matrices, arrays and strong types address exactly their cells",
 "A flat matrix of any dimensions stores each (row, column) in its own cell, keeps the row contents when rows are added or removed and everything across copying and serialization, and refuses out-of-range checked access. A strongly typed integer behaves in arithmetic, comparison, hashing and as a container key exactly like the wrapped integer.",
 ["inputs","histories"],"every dimension pair, every cell and operation history; every value of the wrapped type",
 "The tests use one small matrix and few constants.",
 [C+"flat_matrix.h",C+"array.h",I+"strong.h"],[("row-major index",C+"flat_matrix.h"),("strong operators",I+"strong.h")],None,["matrix, array, strong public API"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
