#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Merkle roots of typed values follow SSZ",
  "For every value of every supported type, merkleizing it (into a backend, or with the root-only function) yields exactly the SSZ hash-tree-root: little-endian scalars in zero-padded 32-byte chunks; compact sequences packed (bits packed LSB first), composite sequences one subtree per element; zero-subtree padding up to the power of two covering the declared maximum (or the current length if there is none). Lists mix in their length, and options and enums mix in their variant number, as the right child of the root. Structs, tuples and fixed arrays merkleize as the vector of their fields in declaration order.",
  ["inputs", "configurations"],
  "All values of all supported types (bool, u8..u128, U256, H256, H512, Value, unit, Option, Box, tuples of 2-9, [T;1..32], GenericArray, VecArray, Vec, slices, MaxVec with any maximum, Compact/CompactRef forms, derived structs and enums incl. #[bm(compact)] fields), all lengths including 0, chunk and power-of-two boundaries, and any 32-byte digest.",
  "spec.rs and derive.rs compare about 20 hand-picked roots (mostly scalars and short bit vectors); no composite list, no u16..U256 packed list, no Option/enum root, no MaxVec padding beyond one case is compared with an expected root.",
  ["le/src/basic.rs", "le/src/elemental_fixed.rs", "le/src/elemental_variable.rs", "le/src/fixed.rs", "le/src/variable.rs", "le/src/utils.rs", "src/utils.rs", "le/derive/src/lib.rs"],
  [("IntoTree impls", "le/src/basic.rs, le/src/fixed.rs, le/src/variable.rs"), ("chunk packing", "le/src/elemental_fixed.rs into_compact_vector_tree"), ("padding to max length", "src/utils.rs vector_tree, required_depth, host_max_len"), ("length / type mix-in", "le/src/utils.rs mix_in_length, mix_in_type"), ("derive", "le/derive/src/lib.rs into_tree_derive")],
  ["bm_le::tree_root", "IntoTree::into_tree return value", "nodes inserted in the backend"])

p("C02", "Decoding a merkleized value returns the same value",
  "For every supported type and every value, decoding from the backend and root produced by merkleizing that value returns an equal value. This holds whatever else has been merkleized into the same backend before or after, including values that share subtrees with it or that contain, as plain data, hashes of its nodes.",
  ["inputs", "histories"],
  "All values of all types that support both directions, all lengths and maxima; any sequence of other values stored in the same backend earlier or later.",
  "Round trips are tested for a handful of fixed values, each in a fresh backend; U256 packed lists, H512, u128 lists, nested composites and shared backends are never decoded.",
  ["le/src/basic.rs", "le/src/elemental_fixed.rs", "le/src/elemental_variable.rs", "le/src/fixed.rs", "le/src/variable.rs", "le/derive/src/lib.rs", "src/memory.rs"],
  [("FromTree impls", "le/src/*.rs"), ("packed reads", "src/packed.rs PackedVector::get, coverings"), ("node storage", "src/memory.rs InMemoryBackend::insert/get"), ("derive", "le/derive/src/lib.rs from_tree_derive")],
  ["FromTree::from_tree result"])

p("C03", "A root does not depend on backend or on what is stored",
  "Merkleizing a value gives the same root with the discarding backend, an empty in-memory backend, an in-memory backend that already holds anything, a proof-recording backend and an error-erasing wrapper; merkleizing it again gives the same root and adds no new node. The same holds for trees changed in place: the roots observed do not depend on other content of the backend.",
  ["inputs", "configurations", "histories"],
  "All values, all backend kinds, all prior backend contents; all histories of in-place operations run in parallel on different backends.",
  "Tests use one fresh backend per value; the discarding backend is compared with another backend nowhere, and no test reuses a filled one.",
  ["src/memory.rs", "src/proving.rs", "src/traits.rs", "src/utils.rs", "le/src/lib.rs"],
  [("NoopBackend", "src/memory.rs"), ("DynBackend", "src/traits.rs"), ("ProvingBackend", "src/proving.rs"), ("tree_root", "le/src/lib.rs"), ("empty subtree creation", "src/memory.rs empty_at")],
  ["roots returned for the same value by each backend", "set of stored nodes before and after"])

p("C04", "Raw tree reads return exactly what was written",
  "In a raw tree, after any history of writes at generalized indices, reading an index returns the value last written there, or the hash of its two subtrees if something below was written since, or (below a written node whose content is known) the corresponding node of that content. A write changes only the written node, its descendants and its ancestors, and the root always equals the hash of the resulting tree, with the default value standing for positions never written.",
  ["histories", "inputs"],
  "All sequences of writes and reads at any generalized index (depth 0 to 60), values fresh, repeated, default or roots of other live trees (grafts), owned and dangling roots, both empty-node conventions.",
  "Seven unit tests write at most 32 leaves of one fixed depth-5 level or the same node twice; no mixed-depth histories, no reads of untouched positions.",
  ["src/raw.rs", "src/index.rs"],
  [("Raw::get", "src/raw.rs"), ("Raw::set path rebuild", "src/raw.rs"), ("Raw::subtree", "src/raw.rs"), ("route", "src/index.rs Index::route")],
  ["Raw::get", "Raw::root", "Raw::subtree"])

p("C05", "Vectors and lists behave like an array under any history",
  "A vector or list behaves like a growable array under every sequence of create, get, set, push and pop: each call returns what the array would return, the reported length always matches, and all other elements keep their value. This holds for owned and dangling roots, with and without a maximum length, for both empty-node conventions, and with several sequences living in one backend.",
  ["histories", "inputs"],
  "All operation sequences of any length, all lengths (in particular crossing powers of two in both directions), any element values including default and repeated ones, all initial lengths and maxima.",
  "Tests push 0..100 then pop everything (twice) and set each element once; they never interleave, never use a maximum length, never start from a non-zero length and never share a backend.",
  ["src/vector.rs", "src/list.rs", "src/length.rs", "src/raw.rs"],
  [("extend / shrink", "src/vector.rs"), ("pop empties the largest vacated subtree", "src/vector.rs pop"), ("length mixing", "src/length.rs with_mut"), ("depth from length", "src/vector.rs current_max_len, depth")],
  ["Vector/List get, set, push, pop, len results"],
  [("len", "number of elements", "src/vector.rs Vector.len"), ("raw", "tree holding the elements", "src/vector.rs Vector.raw")])

p("C06", "Packed vectors and lists behave like an array",
  "A packed vector or packed list behaves like a growable array of its element type under every sequence of create, get, set, push and pop: each call returns what the array would return, the length matches, and operations on one element never disturb its neighbours in the same chunk. This holds for any element size relative to the chunk: smaller, equal, larger, or not a divisor of it.",
  ["histories", "inputs", "configurations"],
  "All operation sequences, all element sizes (1 to 100 bytes tried) on 32-byte chunks, all lengths including chunk and power-of-two boundaries, all maxima.",
  "The only tests use 64-byte elements on 32-byte chunks, push 100, then pop 100: an element never shares a chunk with another, and set is never called.",
  ["src/packed.rs", "src/vector.rs", "src/utils.rs"],
  [("coverings", "src/packed.rs"), ("PackedVector get/set/push/pop", "src/packed.rs"), ("host_len", "src/utils.rs")],
  ["PackedVector/PackedList get, set, push, pop, len results"])

p("C07", "In-place changes give the root of the resulting content",
  "After any history of in-place operations, the root of a vector, list, packed vector or packed list equals the root obtained by merkleizing its current content from scratch with the same maximum length; so two histories ending in the same content have the same root, and popping undoes pushing. Trees built by typed merkleization and trees built in place are interchangeable: either can be opened, read and modified as the other.",
  ["histories", "inputs"],
  "All operation histories, element sizes, maxima and lengths; for the unit convention (empty subtree = default value) the root is a function of the content and length, for pushes and pops from empty.",
  "Only two tests compare a root after pop with the root after the matching push, of an unbounded list; nothing compares an in-place root with a merkleized one.",
  ["src/vector.rs", "src/packed.rs", "src/length.rs", "src/utils.rs", "le/src/elemental_fixed.rs", "le/src/variable.rs"],
  [("pop restores empties", "src/vector.rs pop, src/packed.rs pop"), ("empty subtree at depth", "src/memory.rs empty_at"), ("vector_tree", "src/utils.rs")],
  ["root() after every operation vs independently computed root"])

p("C08", "Garbage collection never removes a live tree's node",
  "Whatever trees sharing an in-memory backend are created, modified, grafted into each other, leaked, restored or dropped, every node of every tree that still has an owner stays in the backend: all its elements remain readable with their values and its root stays the same. Dropping or changing one tree never makes another unreadable.",
  ["histories"],
  "All interleavings of operations on several owned raw trees, vectors, lists and packed sequences in one backend, with shared subtrees, duplicate values, equal roots, grafts of a live tree's root into another tree, leak/restore and drops in any order.",
  "No test has two trees in one backend except one two-step raw test; drop is never called.",
  ["src/memory.rs", "src/raw.rs", "src/vector.rs", "src/length.rs"],
  [("reference counts", "src/memory.rs insert/rootify/unrootify/remove"), ("new root rooted before old is released", "src/raw.rs set"), ("drop", "Tree::drop in src/raw.rs, src/vector.rs, src/length.rs")],
  ["reads of all live trees after each step", "InMemoryBackend contents (AsRef)"],
  [("reference count", "parents plus owners of a node", "src/memory.rs InMemoryBackend.0")])

p("C09", "Garbage collection reclaims everything no owner needs",
  "At any quiescent point of a history of successful operations on owned raw trees, vectors, packed vectors and length-prefixed lists, the in-memory backend holds exactly the nodes reachable from the roots that still have an owner (plus the default node). In particular, after all trees are dropped it is back to its initial state.",
  ["histories"],
  "All interleavings of operations and drops of several owned trees sharing subtrees in one backend, both empty-node conventions, any sizes and maxima.",
  "Three unit tests count backend entries after fixed raw writes; vectors, lists and drops are not covered.",
  ["src/memory.rs", "src/raw.rs", "src/vector.rs", "src/packed.rs", "src/length.rs"],
  [("reference counts", "src/memory.rs"), ("unrootify of replaced roots", "src/raw.rs set, src/vector.rs extend"), ("drop", "Tree::drop")],
  ["InMemoryBackend contents (AsRef) vs reachability from live roots"],
  [("reference count", "parents plus owners of a node", "src/memory.rs InMemoryBackend.0")])

p("C10", "A recorded proof is enough to replay the session",
  "Let any sequence of reads and modifications of a tree run over a proof-recording backend. Running the same sequence on a fresh in-memory backend populated only with the recorded proof, starting from the same root, gives the same results for every call and the same roots. The same holds when the proof has been through its compact form, and typed values decoded in the session decode equally from the proof.",
  ["histories", "inputs"],
  "All sessions of get/set/push/pop on raw trees, vectors, lists and packed sequences and of typed decoding and partial updates, over any base tree, including trees with repeated subtrees, and sessions that re-create nodes that already exist.",
  "One test records two reads of a list and replays them; no proof of a modification is ever replayed.",
  ["src/proving.rs", "src/memory.rs"],
  [("recording of reads", "src/proving.rs ProvingBackend::get"), ("insert tracking", "src/proving.rs ProvingBackend::insert"), ("populate", "src/memory.rs InMemoryBackend::populate"), ("insert over a known leaf", "src/memory.rs insert")],
  ["results and roots of the original and of the replayed session"],
  [("proofs", "nodes read that the session did not create", "src/proving.rs ProvingState"), ("inserts", "nodes the session created", "src/proving.rs ProvingState")])

p("C11", "Compact proofs are lossless and bound to their root",
  "Compacting a set of proof entries from a root and expanding it again returns the same root and exactly the entries reachable from that root; the compact form's own root, length and tree agree with it, and merkleizing it stores those entries. Any change of a compact proof other than abbreviating a subtree to its hash (changing a value, swapping sides, dropping or adding a branch) changes its root. A single-leaf branch proof evaluates to the tree's root exactly when leaf, index and siblings are the tree's, and is refused when the number of siblings does not match the index.",
  ["inputs"],
  "All proofs recorded from any tree, all compact proofs (any shape), all single mutations of them, all indices, leaves and sibling lists.",
  "One compact proof of one list is round-tripped; from_plain, root, fold and merkleization of a compact value are untested.",
  ["src/proving.rs", "le/src/basic.rs"],
  [("into_compact / from_compact", "src/proving.rs"), ("fold / root / len", "src/proving.rs CompactValue"), ("from_plain", "src/proving.rs"), ("IntoTree for CompactValue", "le/src/basic.rs")],
  ["Proofs::into_compact, from_compact, CompactValue::{root,len,from_plain}, IntoTree"])

p("C12", "Generalized index arithmetic is consistent",
  "For every generalized index: its route is the sequence of left/right choices from the root, following the route with the child functions returns the index, parent undoes child, and the selection at a depth is the route's entry. An index relative to another equals following both routes in turn; one index is a descendant of another exactly when its route strictly extends the other's. Building from one-based, zero-based or (position, depth) coordinates gives the index with those coordinates, and zero is refused.",
  ["inputs"],
  "All indices up to the width of the machine word (depth 0 to 63), all pairs whose composition fits.",
  "Two descendant assertions and five routes of depth at most five are tested; sub, from_depth, from_zero and deep indices are not.",
  ["src/index.rs"],
  [("Index", "src/index.rs")],
  ["Index::{root,left,right,parent,has_descendant,from_one,from_zero,from_depth,route,sub}, IndexRoute::at_depth"])

p("C13", "A tree saved and reopened is the same tree",
  "Saving a tree as its metadata, as its root hash (lists) or as a raw tree, and restoring it from that with the same parameters gives a tree with the same root, length, maximum and elements, on which every further operation behaves as on the original; ownership is carried over, so nothing is lost or kept too long. Opening a subtree or a non-owning view reads the same values.",
  ["histories", "crash_points"],
  "All histories with save/restore inserted at every possible point, for raw trees, vectors, lists, packed vectors and packed lists, owned and dangling.",
  "One test reconstructs one list from its hash and reads it; metadata, packed restore, raw conversions and modification after restore are untested.",
  ["src/raw.rs", "src/vector.rs", "src/list.rs", "src/packed.rs", "src/length.rs", "src/traits.rs"],
  [("Leak", "src/traits.rs and impls"), ("deconstruct / reconstruct", "src/length.rs, src/list.rs"), ("from_raw / into_raw", "src/vector.rs, src/packed.rs"), ("as_dangling / subtree", "src/raw.rs")],
  ["results of operations after restore"])

p("C14", "Lengths and declared maxima are enforced",
  "Reading or writing at or beyond a sequence's length fails with an overflow error and changes neither root, length nor any element; a sequence with a maximum length accepts exactly that many elements, and a further push fails and changes nothing; popping an empty sequence returns nothing. A sequence can be created exactly when its initial length is within a non-zero maximum. Merkleizing a list value that holds more elements than its declared maximum, and decoding one from a tree claiming more, is refused with an error instead of committing to or returning part of it.",
  ["inputs", "histories", "configurations"],
  "All sequence kinds, all maxima (1 to 2^40), lengths and out-of-range positions (just past the end, in the padding of the last chunk, past capacity, huge), at every point of any history; all MaxVec element types.",
  "No test triggers any overflow error or uses a maximum length on a sequence.",
  ["src/vector.rs", "src/packed.rs", "src/list.rs", "src/utils.rs", "le/src/elemental_variable.rs", "le/src/variable.rs"],
  [("bounds checks", "src/vector.rs get/set/push, src/packed.rs"), ("create parameter check", "src/vector.rs create, src/packed.rs create"), ("vector_tree limit", "src/utils.rs"), ("decode limit", "le/src/elemental_variable.rs from_list_tree")],
  ["returned errors; root, len and elements before and after"])

p("C15", "Decoding hostile or incomplete trees fails cleanly",
  "For every root and every backend content, however incomplete, inconsistent or adversarial (missing nodes, absurd lengths, unknown variant numbers, trees of another type), decoding any type and opening and reading any list terminates with a value or an error: it never panics, overflows or runs without bound. If a node needed for the value is missing the result is an error, never an invented value; an unknown variant number, a non-empty unit, and a length that exceeds the declared maximum are reported as a corrupted database.",
  ["inputs", "fault_sequences"],
  "All roots and node sets: valid trees of every type with any subset of nodes removed, any leaf replaced (lengths up to 2^256-1, tags), trees decoded as a different type, random node graphs.",
  "No test decodes anything but the intact tree it just encoded.",
  ["le/src/utils.rs", "le/src/elemental_fixed.rs", "le/src/elemental_variable.rs", "le/src/basic.rs", "le/src/fixed.rs", "le/derive/src/lib.rs", "src/vector.rs", "src/length.rs"],
  [("decode_with_length / decode_with_type", "le/src/utils.rs"), ("CorruptedDatabase on missing nodes", "src/vector.rs get, src/raw.rs"), ("variant match", "le/derive/src/lib.rs"), ("length check", "le/src/elemental_variable.rs from_list_tree")],
  ["from_tree result, panics, number of backend reads, CPU time per case"])

p("C16", "Backend failures are reported and do no collateral damage",
  "If the backend fails at any point of any operation, the operation reports exactly that failure: it does not panic, succeed, or turn it into another error. After a failed modification every element that the operation did not target is still readable with its value, other trees in the backend are unaffected, and a failed read changes nothing. If no call fails, no failure is reported.",
  ["fault_sequences", "histories"],
  "Every backend call (get, insert, rootify, unrootify) of every operation on raw trees, vectors, lists, packed sequences, merkleization, decoding, partial updates, drop and proof recording, at any point of a history, failing once.",
  "No test uses a backend that fails.",
  ["src/raw.rs", "src/vector.rs", "src/list.rs", "src/packed.rs", "src/length.rs", "src/proving.rs", "src/traits.rs"],
  [("error propagation with ?", "all modules"), ("old root released last", "src/raw.rs set"), ("Error::Backend", "src/traits.rs")],
  ["result of the failed call; reads of all trees afterwards"])

p("C17", "Partial updates equal changing the whole value",
  "Reading a field through a partial view returns that field of the stored value. Setting any subset of fields, list elements and pushed list elements through a partial view and flushing it gives the same root as merkleizing the whole value with those changes, leaves all other fields decodable unchanged, and a flush with nothing set changes nothing.",
  ["inputs", "histories"],
  "All structs deriving a partial view (any number of fields, nested), unbounded lists of any element type and length accessed by position, all subsets of fields set, several flushes in a row.",
  "One test sets one field of one nested struct; lists, pushes and repeated flushes are untested.",
  ["le/src/partial.rs", "le/derive/src/lib.rs"],
  [("PartialIndex::resolve", "le/src/partial.rs"), ("PartialValue get/set/flush", "le/src/partial.rs"), ("PartialVec at/push/flush", "le/src/partial.rs"), ("Partialable derive", "le/derive/src/lib.rs")],
  ["values read through the view; root after flush vs re-merkleized root"])

p("C18", "Stored nodes are keyed by their hash and never change",
  "Every internal node any operation writes to a backend is written under the hash of its two children, and whatever the order in which parents and children are written (also when a value was first known only as a leaf, or is written repeatedly), looking up a written node that is still needed returns exactly its two children. No operation ever changes what a present node's lookup returns, except that an unknown node may become known.",
  ["histories", "inputs"],
  "All sequences of direct backend writes, rootings, releases and proof population, and all sequences of tree operations and merkleizations observed at the backend boundary.",
  "No test inspects the nodes written, or writes a parent before its child.",
  ["src/memory.rs", "src/raw.rs", "src/utils.rs", "src/proving.rs"],
  [("intermediate_of as key", "src/raw.rs set, src/utils.rs vector_tree, le/src/basic.rs"), ("insert", "src/memory.rs"), ("populate", "src/memory.rs")],
  ["WriteBackend::insert calls", "ReadBackend::get results"],
  [("node map", "key to children", "src/memory.rs InMemoryBackend.0")])

p("C19", "Serialized proofs, nodes and bounded lists survive transport",
  "Encoding a node value, a compact proof, a compact wrapper or a bounded list with the binary codec or with serde and decoding it returns an equal value, consuming exactly the bytes written. Decoding a bounded list with more elements than its maximum is refused, and no truncated input is accepted as the original or causes a panic.",
  ["inputs", "configurations"],
  "All values, compact proofs of any shape up to tree depth, bounded lists of any length and maximum, all truncations of their encodings.",
  "Serialization is not tested at all (the codec and serde features have no tests).",
  ["src/proving.rs", "le/src/lib.rs", "le/src/variable.rs"],
  [("derived Encode/Decode, Serialize/Deserialize", "src/proving.rs CompactValue, le/src/lib.rs Value, Compact"), ("MaxVec Decode / Deserialize limit", "le/src/variable.rs")],
  ["parity_codec Encode/Decode, serde_json"])

p("C20", "Proof recording is transparent and records exactly the reads",
  "Running operations over a proof-recording (or error-erasing) backend gives the same results and leaves the same stored nodes as running them directly on the wrapped backend. The recorded proof holds exactly the nodes, with their children, that the session successfully read and had not itself written before, and saving and resuming the recording state in the middle changes nothing.",
  ["histories"],
  "All sessions of reads, modifications, merkleizations and drops over any base content, with the recorder suspended and resumed at any point.",
  "One test checks the size of one proof of two reads.",
  ["src/proving.rs", "src/traits.rs"],
  [("ProvingBackend get/insert/rootify/unrootify", "src/proving.rs"), ("into_state / from_state", "src/proving.rs"), ("DynBackend", "src/traits.rs")],
  ["call log of the wrapped backend vs recorded proof; backend contents"],
  [("proofs / inserts", "recording state", "src/proving.rs ProvingState")])

p("C21", "Behaviour does not depend on the standard-library feature",
  "Built with or without the standard-library feature, the libraries give the same roots, results, errors, stored nodes, proofs and compact proofs for every sequence of operations.",
  ["configurations", "histories"],
  "Both feature configurations of both libraries, all operation histories.",
  "Only the default features are ever compiled by the test suite.",
  ["src/memory.rs", "src/proving.rs", "src/lib.rs", "le/src/partial.rs", "le/src/lib.rs"],
  [("Map/Set aliases chosen by feature", "src/memory.rs, src/proving.rs, le/src/partial.rs")],
  ["event-log digest of the same workload in both builds"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json")) if os.path.exists("/root/.vp/PROPERTIES.schema.json") else None
if s:
    for x in P: jsonschema.validate(x, s)
print(len(P), "properties")
