import json
m={c['property']:c for c in json.load(open('/verif/MANIFEST.json'))['checks']}
props={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d['title']
specs={
'P01':('Record (98 fields), cfgs _mc _enum _sim','record.cc, fields.h'),
'P02':('PtrGraph (_mc _enum _one _bare _sim), PtrWalk (_mc)','ptrgraph.cc'),
'P03':('Hostile, HostileHeap (_mc)','hostile.cc'),
'P04':('TypeHash (simulated; _all: every kind once)','typehash.cc + generated C++'),
'P05':('Integrity','integrity.cc'),
'P06':('Map, SwissTable (_mc, refines a map)','map.cc'),
'P07':('Vector, VecLimit','vector.cc, veclimit.cc'),
'P08':('Str','str.cc'),
'P09':('Bits, BitBlocks (_mc, refines Bits)','bits.cc'),
'P10':('VecVec, NVec, Fws; designs VecVecStarts, NVecIndex','nested.cc'),
'P11':('MMap; design MMapSlots','mmultimap.cc'),
'P12':('Paged; design PagedFree','paged.cc'),
'P13':('RTree; design RTreeNode','rtree.cc'),
'P14':('Mmap, MVec','mmapf.cc'),
'P15':('OffsetPtr, Record','offsetptr.cc, record.cc'),
'P16':('Variant, VariantIndex','variant.cc, varindex.cc'),
'P17':('Holders, TupleLayout, TupleOrder','holders.cc, order.cc, special.h'),
'P18':('Atomics','atomics.cc, sched.cc'),
'P19':('Equal','equal.cc'),
'P20':('Target, Record','target.cc, record.cc'),
'P21':('Endian, Record','endian.cc, record.cc'),
'P22':('ReflectShapes, Reflect','reflect.cc + generated C++'),
'P23':('Vector, Map, Str, Holders, VecVec, MMap, Paged, Record','the harnesses of these, in image mode'),
'P24':('FlatMatrix, Strong','matrix.cc, strong.cc'),
}
out='''# Model-based verification of cista with TLA+

Language: **TLA+, checked and simulated with TLC**. The properties are about state machines over sets, sequences and
functions (maps, nested sequences, byte images, object graphs, ownership); TLC enumerates them explicitly, its
simulator produces tens of thousands of behaviours per minute, and `Json`/`CSV`/`IOUtils` from the community
modules let a specification write its own behaviours out for replay. Quint would go through comparable engines with
less control over emission, and Apalache's symbolic encoding is a poor match for nested sequences of sequences.

## How a property is decided

1. `spec/<Name>.tla` describes abstract state and transitions. Where the code has hidden state that matters (slots and
   tombstones of the hash table, free pages, buckets, unused bits, bucket starts, tree rectangles, deferred pointers, ownership
   bookkeeping, interleavings) there is a second, design-level specification; TLC checks that it refines the abstract one.
2. TLC checks the specifications exhaustively in small constants (`*_mc.cfg`): invariants, refinement, frame.
3. TLC generates behaviours from the *same actions*: exhaustive enumerations (`*_enum.cfg`, `*_one.cfg`) and random walks
   (`*_sim.cfg`, seeded by `VERIF_SEED`). Each step carries operation, arguments, and the result and the state the
   specification demands: the oracle is the specification, the harness contains none.
4. `harness/*.cc` replays every behaviour through the public API of the real headers of /repo/include (rebuilt on every
   run, ASan + UBSan + leak detection, C++17 and C++20 where they differ) and compares after every step. A difference, sanitizer
   report, failed assertion, leak, crash or hang is a violation; it is re-run before it is reported and the behaviour is kept as replay file.
5. Threads (P18): the specification derives the set of permitted outcomes of each small program; the real functions run under
   *every* schedule (deterministic scheduler at the memory-access hooks of -fsanitize=thread) and each outcome is looked up in that set.

Harnesses use the public API only (P03: the documented header fields of images), so refactorings do not disturb
them. `lib/vf.py` holds the runner (compile, TLC, replay, evidence, violations, known findings), `checks/PXX.py` one check per property.
`VERIF_REPO` lets a check run against a copy (used for mutation experiments only).

## Per property

| id | property | specification | harness |
|----|----------|---------------|---------|
'''
for p in sorted(specs): out+=f'| {p} | {props[p]} | {specs[p][0]} | {specs[p][1]} |\n'
out+='\nWhat is covered, and within which bounds (the numbers of each run are in evidence/<id>.json):\n\n'
for p in sorted(specs): out+=f'- **{p}**: {m[p]["level_note"]}\n'
out+='''
Cost: quick checks take between 20 s (P24) and 180 s (P05, P20) on 8 idle cores; thorough ones run the same specifications with larger
constants, more and longer behaviours, and more instantiations.

Why this reaches what the tests cannot: the unit tests run some hundred fixed scenarios. The histories replayed here cross every
operation with every reachable small state (exhaustive part) and reach the rare combinations (tombstones x growth x copy, page reuse,
splits, boundary lengths, deserialized x modified x moved, ...) in long walks; pairs of types, values, struct shapes, headers x corruption,
pointer x target, and schedules are enumerated rather than sampled.

## Limits (what the specifications deliberately do not demand)

- P03: exhaustion of the stack by very deep chains of owning pointers in large images; contents that are merely meaningless.
- P04: both types use the same pointer family; signedness, bool against one byte integers, const, sizes of bitsets within one block, `strong` or `indexed` around
  a type of the same layout, tags and clocks do not count as structure (the static hash ignores `strong`, tags and clocks, the dynamic one does not);
  identical structure means equal up to renaming of structs. The static hash is compile-time only where the hash function allows it.
- P02: `void*` is always written as null (the library's documented behaviour); pointers to members or to objects the serializer does not
  address (inline members, map values) may come back null or correct, never anything else.
- Not offered by the library, hence not demanded: hashing of u16 strings, optional, tuple, unique_ptr; `basic_cstring_view` serialization;
  differences and `+=` on relative pointers; deserialization to a different pointer family; images from a valueless variant (throws).
- Moved-from containers are only required to be usable after being cleared or assigned; moved-from matrices keep their dimensions.
- rtree: overflow of areas of integer coordinates; vectors: pushing beyond the maximum of the size type.
- paged, rtree, vecvec ... are replayed with a representative set of element types, sizes and node capacities, not with all.
- Windows code paths are not compiled here.

## Findings

Every genuine defect that the checks found is listed in `known-findings.txt` with its commit. Two are recorded, not repaired:

- P06 `move_assign_leak_probe`: move assignment of a hash map does not release the storage of its target. Releasing it needs a decision about the destruction of
  the elements in a `noexcept` operation of a class with intentionally trivial reset; the leak does not affect contents.
- P04 `boundary`: the dynamic type hash does not mark where a nested struct ends. A repair changes the hash of every nested type, which the existing tests
  pin as literal numbers (and which would invalidate images in the field).

'''
nf=sum(1 for l in open('/verif/known-findings.txt') if l.startswith('fixed:'))
out+=f'{nf} were repaired by minimal `fix:` commits in /repo (existing tests unchanged and passing). By property:\n\n'
import collections
d=collections.defaultdict(list)
for l in open('/verif/known-findings.txt'):
    if l.startswith('fixed:'):
        a=l.split(' ',3); d[a[1].split('=')[1]].append((a[2][:7],a[3].strip()))
for p in sorted(d): out+=f'- {p}: '+'; '.join(f'{t} ({c})' for c,t in d[p])+'\n'
out+='''
False alarms met on the way were corrected in the machinery (never listed as findings): element destruction inside image storage (by design never
done), tuple comparison of different sizes, `file::content()` reading from the current position, comparison of addresses in constant
expressions under GCC+UBSan, valueless variants in images, moved-from matrices, implementation-defined member order of the pointer walk.

## Planted bugs

`seeded/<id>/` holds changes that compile, pass all 453 tests and break one property (demonstration beside the patch).

| change | property | needs | caught by |
|--------|----------|-------|-----------|
'''
import os
caught={'empty-map-sentinel': 'checks/P03.py, missed at first: images now contain tables with storage but no element, and their headers and control bytes are corrupted too',
        'type-hash-bucket-sizes': 'checks/P04.py, missed at first: TypeHash_all.cfg now contains every kind of type and number once, in a program of its own'}
for s in sorted(os.listdir('/verif/seeded')):
    j=json.load(open(f'/verif/seeded/{s}/meta.json')); out+=f"| {s} | {j['property']} | {j['needs']} | {caught.get(s,'checks/'+j['property']+'.py')} |\n"
out+='''
Besides these, checks were run against hand-written mutants of the code it anchors in; survivors were either shown
to be equivalent or led to the additions above (for example: the Bare system of PtrGraph for an empty offset table, VecLimit, VariantIndex and TupleOrder for boundary sizes,
blocks of the file target beyond 512 kB in P05, narrow size types in P07).
'''
open('/verif/DESIGN.md','w').write(out)
