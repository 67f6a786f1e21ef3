#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            observe_at=list(observe), hook_needed=hook)))

I = "src/layer/internal/"
p("A01", "All query forms agree on which triples a layer holds",
  "A layer denotes one set of triples. Asking whether a triple exists, listing all triples, and listing by subject, by subject and predicate, by predicate, by object, or asking for a single triple for a subject and predicate all answer exactly according to that one set, for every id including zero, unused and out-of-range ids, and whatever the depth of the layer's history.",
  ["inputs", "histories"], "every layer built by any history of commits, rollups and squashes, and every (subject, predicate, object) id argument",
  "The tests query a handful of hand-built layers of depth one to four; the claim ranges over every index layout (gaps, single-entry groups, empty layers) and every add/remove interleaving over the stack.",
  [I+"mod.rs", I+"subject_iterator.rs", I+"predicate_iterator.rs", I+"object_iterator.rs", I+"base.rs", I+"child.rs"],
  [("adjacency list search", I+"mod.rs: sp_o_position, layer_triple_exists"), ("newest change wins walk", I+"mod.rs: InternalLayer::triple_exists, single_triple_sp"), ("merged stack iterators", I+"subject_iterator.rs, predicate_iterator.rs, object_iterator.rs")],
  [("s_p / sp_o / o_ps adjacency lists", "the encoded triple set of one layer's additions or removals", I+"base.rs, "+I+"child.rs")],
  ["Layer::triple_exists", "Layer::triples*", "Layer::single_triple_sp"])
p("A02", "Triple enumeration is strictly ascending and starts where sought",
  "Listing a layer's triples, or a layer's own additions or removals, yields them in strictly ascending (subject, predicate, object) order without duplicates. Seeking to a subject, or to a subject and predicate, continues exactly with the smallest stored triple that is not below the sought position.",
  ["inputs", "histories"], "every encoded layer, every seek argument, every interleaving of seek, peek and next",
  "Tests compare complete listings of small layers; seeking past the end of a group, onto gaps and on the last subject is only sampled.",
  [I+"subject_iterator.rs"],
  [("position invariants of the cursor", I+"subject_iterator.rs: InternalLayerTripleSubjectIterator"), ("lowest-first merge", I+"subject_iterator.rs: InternalTripleSubjectIterator")],
  [], ["Layer::triples", "triple_additions", "triple_removals"])
p("A03", "A commit yields exactly the parent plus additions minus removals",
  "Committing a builder on a parent yields a layer whose triples are the parent's triples, with every requested addition present and every requested removal absent. A triple that was both added and removed in the same builder keeps the state it has in the parent, duplicates and removals of unknown names have no effect, and the order of requests does not matter.",
  ["inputs", "histories"], "every parent layer and every finite multiset of additions and removals, by name or by id, in every order",
  "Tests commit a few fixed scripts; duplicates, cancellation against the parent state, new names used in several roles and id/name mixtures form an unbounded input space.",
  ["src/layer/simple_builder.rs", "src/layer/builder.rs", I+"child.rs", I+"base.rs"],
  [("resolution and cancellation of requests", "src/layer/simple_builder.rs: calculate_triple, commit"), ("writing the sorted triples as adjacency lists", "src/layer/builder.rs: TripleFileBuilder")],
  [], ["LayerBuilder::commit", "StoreLayerBuilder::commit"])
p("A04", "A layer's recorded additions and removals are exactly its net change",
  "For every committed layer with a parent, the reported additions are exactly the triples it holds that its parent does not, and the reported removals exactly those its parent holds and it does not. This is so for every way of asking (existence, all, by subject, subject and predicate, predicate, object, and the counts), also after the layer has been rolled up; a base layer reports all its triples as additions and no removals.",
  ["inputs", "histories"], "every committed layer in every history, every id argument, with and without a registered rollup",
  "Tests look at additions and removals of a few layers; exactness must hold for any combination of no-op requests and for ids absent from the layer.",
  [I+"mod.rs", I+"child.rs", I+"base.rs", "src/storage/layer.rs", "src/layer/simple_builder.rs"],
  [("no-op elimination on commit", "src/layer/simple_builder.rs"), ("on-disk delta queries", "src/storage/layer.rs: triple_additions*, triple_removals*")],
  [], ["StoreLayer::triple_additions*", "StoreLayer::triple_removals*"])
p("A05", "Ids and names are inverse one-to-one mappings",
  "In every layer the node and value ids are exactly 1 up to the node-and-value count and the predicate ids exactly 1 up to the predicate count. Looking up the name of an id and then the id of that name returns the same id, different ids have different names within their kind, names never stored have no id, ids outside the range have no name, and nodes are never confused with values.",
  ["inputs", "histories"], "every layer history, every id and every string or typed value",
  "Tests look up a few names in shallow stacks; the mapping composes dictionaries, permutations and offsets over an unbounded number of layers.",
  [I+"mod.rs", "src/layer/id_map.rs", I+"base.rs", I+"child.rs", I+"rollup.rs"],
  [("per-layer dictionary offset and id permutation", I+"mod.rs: node_dict_id ... id_object; src/layer/id_map.rs")],
  [("id map", "permutation between dictionary position and public id in one layer", "src/layer/id_map.rs")],
  ["Layer::subject_id", "Layer::predicate_id", "Layer::object_node_id", "Layer::object_value_id", "Layer::id_subject", "Layer::id_predicate", "Layer::id_object", "Layer::id_object_is_node"])
p("A06", "Ids keep their meaning in every descendant and parents never change",
  "Every id of a layer denotes the same node, value or predicate in every descendant of that layer, and in the same layer after a rollup. Committing, rolling up or squashing never changes what an existing layer answers.",
  ["histories"], "every history of commits and rollups, every id of every ancestor",
  "Tests check a few ids one level up; the claim needs every id and every depth, with rollups anywhere in the chain.",
  [I+"mod.rs", "src/storage/delta.rs", I+"base_merge.rs", "src/layer/builder.rs"],
  [("parent count offsets", I+"mod.rs"), ("id map construction for merged dictionaries", "src/layer/builder.rs / src/layer/id_map.rs: construct_idmaps")],
  [], ["Layer::id_subject", "Layer::id_predicate", "Layer::id_object"])
p("A07", "All reported counts equal the sizes of what is stored",
  "The triple count of a layer equals the number of triples it lists; the addition and removal counts equal the number of additions and removals it lists; the node-and-value and predicate counts equal the number of distinct names introduced by the layer and its ancestors. The store's per-layer node, predicate and value counts equal the number of names that layer itself introduced, whether or not the layer is cached.",
  ["inputs", "histories", "configurations"], "every layer of every history, cached or not, on every storage backend",
  "Counts are computed from index lengths minus placeholder entries; tests never combine placeholders, empty deltas and cached versus uncached access.",
  [I+"mod.rs", "src/layer/layer.rs", "src/storage/layer.rs", "src/storage/cache.rs"],
  [("count from index length minus placeholders", I+"mod.rs: internal_triple_layer_addition_count; src/storage/layer.rs: file_triple_layer_count"), ("cached count shortcut", "src/storage/cache.rs")],
  [], ["Layer::triple_addition_count", "Layer::all_counts", "LayerStore::get_*_count"])
p("A08", "Rolling up a layer never changes what it answers",
  "After a full, partial or imprecise rollup of a layer, the layer has the same name, the same parent and history, the same triples, the same ids and names and the same reported additions and removals, and so do all its descendants. Rollups can be repeated and combined in any order without error.",
  ["histories"], "every layer history and every sequence of full, partial and imprecise rollups of any layer onto any ancestor",
  "Tests roll up one or two fixed stacks once; combinations of rollups over rolled-up stacks are an unbounded family.",
  ["src/storage/delta.rs", "src/storage/layer.rs", I+"rollup.rs", "src/layer/id_map.rs"],
  [("dictionary and delta rollup", "src/storage/delta.rs"), ("rollup registration and loading", "src/storage/layer.rs: perform_rollup*, register_rollup, get_layer_with_cache")],
  [], ["StoreLayer::rollup", "StoreLayer::rollup_upto", "StoreLayer::imprecise_rollup_upto"])
p("A09", "Squashing keeps the named triples and drops only history",
  "Squashing a layer yields a base layer holding exactly the same named triples. Squashing up to an ancestor yields a direct child of that ancestor holding exactly the same named triples, whose recorded change is exactly the net change from that ancestor. Only names in use are carried over, and the original layers are unaffected.",
  ["histories"], "every layer history and every proper ancestor",
  "Tests squash one fixed stack; renumbering depends on which names are new, used, nodes or values in every layer of the stack.",
  ["src/storage/layer.rs", I+"subject_iterator.rs"],
  [("used-name prepass, sort, renumber", "src/storage/layer.rs: squash, squash_upto")], [], ["StoreLayer::squash", "StoreLayer::squash_upto"])
p("A10", "Merging base layers yields exactly the union of their triples",
  "Merging any list of base layers yields a base layer whose named triples are exactly the union of the inputs' named triples, each once, and whose names are exactly those of the inputs. A list containing a layer that is not a base layer is refused.",
  ["inputs"], "every finite list of base layers, including empty and overlapping ones",
  "Tests merge two or three fixed layers; overlap patterns of nodes, values and predicates across inputs are unbounded.",
  [I+"base_merge.rs", "src/layer/builder.rs"], [("k-way dictionary merge and triple remapping", I+"base_merge.rs: merge_base_layers, map_triple")], [], ["Store::merge_base_layers"])
p("A11", "The net change between an ancestor and a layer is exact",
  "The change computed between a layer and one of its ancestors lists each triple at most once, in ascending order: as an addition exactly if only the layer holds it, as a removal exactly if only the ancestor holds it. Triples changed back and forth in between do not appear.",
  ["histories"], "every layer stack and every per-layer pattern of additions and removals of each triple",
  "The tests cover a handful of add/remove alternations; the claim is over every alternation pattern at every depth.",
  [I+"subject_iterator.rs", "src/storage/layer.rs", "src/storage/delta.rs"],
  [("alternating change cancellation", I+"subject_iterator.rs: InternalTripleStackIterator::next"), ("stack collection", "src/storage/layer.rs: layer_changes, layer_changes_upto")], [], ["squash_upto", "rollup_upto", "layer_changes"])
p("A12", "Ancestry answers follow the parent chain exactly",
  "The history of a layer lists exactly the chain of parents from the base layer to the layer itself; the history up to a proper ancestor lists exactly the layers after that ancestor, and is an error for a layer that is no ancestor. A layer is reported as an ancestor of another exactly if it lies on that chain, every layer being its own ancestor, and rollups and squashes leave these answers as they were.",
  ["histories"], "every parent chain and every pair of layers",
  "Tests check short fixed chains; the claim is over chains of every length and over unrelated layers.",
  ["src/storage/layer.rs", "src/storage/archive.rs", "src/storage/cache.rs"],
  [("parent file walk", "src/storage/layer.rs: layer_is_ancestor_of, retrieve_layer_stack_names, retrieve_layer_stack_names_upto")], [], ["StoreLayer::retrieve_layer_stack_names", "LayerStore::layer_is_ancestor_of"])
p("A13", "A label moves only from the exact version the writer saw",
  "Setting a label succeeds exactly if the label still has the version the caller read, and then its version grows by one and it points at the requested layer or at none; otherwise nothing changes and the caller is told. Creating an existing label and setting a missing one are errors that change nothing, deletion removes exactly the named label, and no operation touches any other label.",
  ["histories", "configurations"], "every sequence of create, get, set, clear, delete and list operations with current or stale handles, on every label store",
  "Tests run short scripts; staleness and interleaving of several labels and handles is a history property.",
  ["src/storage/label.rs", "src/storage/memory.rs", "src/storage/directory.rs"],
  [("version compare and set", "src/storage/memory.rs, src/storage/directory.rs: set_label_option; src/storage/label.rs: with_updated_layer")], [], ["LabelStore"])
p("A14", "A stored label reads back exactly as last set",
  "Whatever sequence of values was written to a label on disk, a store reopened on the same directory reads back exactly the last name, layer and version. Label files of every valid form parse to the label they were written from, and any other content is reported as an error rather than misread.",
  ["inputs", "histories"], "every label name, layer, version and every sequence of writes, including clearing a set label",
  "Tests reopen after a few increasing writes; contents that shrink between writes and malformed contents are not covered.",
  ["src/storage/directory.rs"], [("label file format", "src/storage/directory.rs: get_label_from_data, set_label_option, create_label")], [], ["LabelStore::get_label after reopen"])
p("A15", "A graph's head moves forward only, unless forced",
  "Setting a graph's head succeeds exactly if the graph has no head yet or the new layer descends from the current head; the forced form always succeeds on an existing graph; the version-checked form succeeds exactly if the given version is current. On success the head is the given layer and the version has grown by one, on refusal head and version are unchanged.",
  ["histories"], "every sequence of head updates on several graphs and branching layer histories",
  "Tests try one or two allowed and refused moves; the rule is over every pair of layers in every history.",
  ["src/store/mod.rs", "src/storage/layer.rs"], [("ancestor check before set", "src/store/mod.rs: NamedGraph::set_head, force_set_head, force_set_head_version")], [], ["NamedGraph"])
p("A16", "An archived layer returns each stored file byte for byte",
  "Packing any subset of a layer's files, with any contents, into one archive and reading any file back, whole or as a slice, through a cache or not, returns exactly the bytes stored for that file. A file that was not stored is reported absent, and file sizes are reported exactly.",
  ["inputs", "configurations"], "every subset of the possible files, every file content and length, cached and uncached access",
  "Tests store whole layers of two shapes; the header arithmetic ranges over every subset of files.",
  ["src/storage/archive.rs", "src/storage/consts.rs"],
  [("presence bits and cumulative offsets", "src/storage/archive.rs: ArchiveFilePresenceHeader, ArchiveHeader"), ("file enumeration", "src/storage/consts.rs")],
  [], ["ArchiveLayerStore::get_file", "ArchiveBackend"], "visibility of archive header types")
p("A17", "Layer names convert to text and back without loss",
  "Every layer name converts to a text of exactly 40 lower-case hexadecimal digits, different names to different texts, and converting that text back yields the name. Text of any other length or with any other character is refused with an error and never causes a crash.",
  ["inputs"], "every 160-bit name and every text or byte string",
  "A few literals are tested; the claim is over 2^160 names and all strings, including multi-byte characters.",
  ["src/storage/layer.rs"], [("fixed width hexadecimal", "src/storage/layer.rs: name_to_string, string_to_name, bytes_to_name")], [], ["name_to_string", "string_to_name", "bytes_to_name"])
p("A18", "Exported layers import into another store unchanged",
  "Exporting layers and importing them into another store makes exactly the requested layers available there with the same names, parents, triples, ids, names and reported changes. The parent listing of a pack states exactly each contained layer and its parent, and layers not requested are not imported.",
  ["inputs", "histories", "configurations"], "every set of layers, every subset requested on import, every pair of store kinds",
  "Tests export one small stack between equal stores; subset selection and rolled-up layers are not covered.",
  ["src/storage/pack.rs", "src/storage/archive.rs", "src/storage/directory.rs"], [("pack format", "src/storage/pack.rs"), ], [], ["Store::export_layers", "Store::import_layers", "pack_layer_parents"])
p("A19", "Every storage backend keeps and lists layers faithfully",
  "A store reopened on its directory, of any storage kind, answers for every committed layer exactly as before it was closed, and lists exactly the layers committed to it. All storage kinds give the same answers for the same history.",
  ["histories", "configurations"], "every history of commits, rollups and squashes, on memory, directory and archive stores, reopened at any point",
  "Tests reopen a store once after a two-layer history; which of some fifty logical files holds which part of the index is only sampled.",
  ["src/storage/layer.rs", "src/storage/file.rs", "src/storage/directory.rs", "src/storage/archive.rs", "src/storage/memory.rs", "src/storage/copy.rs", I+"base.rs", I+"child.rs"],
  [("file naming and wiring", "src/storage/layer.rs: base_layer_files, child_layer_files, *_files; src/storage/file.rs: map_all"), ("load from files", I+"base.rs, child.rs: load")], [], ["open_*_store", "LayerStore::layers", "Store::get_layer_from_id"])
p("A20", "The layer cache never changes an answer",
  "With or without a layer cache, and whatever was loaded, dropped or invalidated before, every store operation gives the same answer. In particular a rollup registered after a layer was loaded is honoured for later loads and a stale cached layer is never returned.",
  ["histories", "configurations"], "every sequence of store operations with any pattern of handles kept alive or dropped",
  "Tests load a few layers through the cache; which layers happen to be cached when an operation runs is a history property.",
  ["src/storage/cache.rs", "src/storage/layer.rs"], [("weak-reference cache", "src/storage/cache.rs: LockingHashMapLayerCache"), ("delegation", "src/storage/cache.rs: CachedLayerStore")], [], ["CachedLayerStore", "LayerCache"])
p("A21", "Applying a delta or a diff yields the promised layer",
  "Applying the difference towards another layer to a builder and committing yields a layer with exactly that other layer's named triples, also when the builder has no parent. Applying another layer's recorded change yields the parent's named triples with that change's additions present and its removals absent.",
  ["histories"], "every pair of layers, related or not, in the same store",
  "Tests apply one fixed delta and one fixed diff; the claim is over all pairs of layers.",
  ["src/store/mod.rs"], [("string-level comparison and replay", "src/store/mod.rs: apply_delta, apply_diff")], [], ["StoreLayerBuilder::apply_delta", "StoreLayerBuilder::apply_diff"])
p("A22", "A builder commits at most once and never half-applies",
  "A builder accepts additions and removals until it is committed; after that every further addition, removal or commit on it or on any of its clones is an error that changes nothing, and it reports itself committed. The name and parent a builder reports are those of the layer it commits.",
  ["histories"], "every sequence of builder calls across clones",
  "One test commits twice; the state machine must hold for every call sequence over shared clones.",
  ["src/store/mod.rs", "src/store/sync.rs"], [("take-once builder slot", "src/store/mod.rs: StoreLayerBuilder::with_builder, commit_no_load")], [], ["StoreLayerBuilder", "SyncStoreLayerBuilder"])
p("A23", "The archive read cache stays within its configured size",
  "However many layers are written and read, the archive read cache never keeps more bytes than its configured limit, evicting least recently used layers first, and evicted layers remain readable.",
  ["histories", "configurations"], "every sequence of reads and writes and every limit",
  "No test reaches the limit; the bound is an invariant over the whole access history.",
  ["src/storage/archive.rs"], [("least-recently-used eviction accounting", "src/storage/archive.rs: LruArchiveBackend, cache_object, ensure_additional_cache_space")], [], ["LruArchiveBackend"])
p("A24", "Concurrent head updates never lose one another",
  "When several threads or processes update the same label at the same time, every update that is reported successful took effect on the version it saw, so that the versions form one gap-free sequence and no successful update is silently lost.",
  ["schedules"], "every interleaving of label updates by threads and processes",
  "A test runs in one order; interleavings across tasks and processes are not explored.",
  ["src/storage/locking.rs", "src/storage/directory.rs", "src/storage/memory.rs"], [("advisory file locks", "src/storage/locking.rs"), ("in-process lock", "src/storage/memory.rs")], [], ["LabelStore::set_label"])
p("A25", "A crash never exposes a half-written layer or label",
  "If the process or machine stops at any point during a commit or a label update, then after reopening every label reads either its old or its new value and every layer reachable from a label is complete.",
  ["crash_points"], "every point at which a write, rename or sync may be cut short",
  "No test interrupts a write.",
  ["src/storage/directory.rs", "src/storage/archive.rs"], [("write ordering and sync", "src/storage/directory.rs, src/storage/archive.rs: finalize, store_layer_file")], [], ["open_*_store after a crash"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
