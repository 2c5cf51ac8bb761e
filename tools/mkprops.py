#!/usr/bin/env python3
"""Source of properties.jsonl (one property per entry); run after editing: tools/mkprops.py"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Applying update lists has exactly the documented sequential effect",
  "After applying any sequence of update lists, the nodes, node labels, components, edges and edge labels that can be read from the graph are exactly those obtained by applying the events one by one in order: an existing node is not added again, a removed node takes all its labels and all its ingoing and outgoing edges with it, an edge or label for a node or edge that does not exist is ignored, an edge from a node to itself is not stored. All ways to read the same fact (outgoing and ingoing edges, edge sources, lookup by name, exact label search, label counts, list of label keys) agree with each other. This holds for memory-based and disk-based graphs and does not depend on how events are grouped into lists, nor on statistics or storage optimisation calls in between.",
  ["histories", "inputs", "configurations"], "all finite sequences of update lists over all eight event kinds and all node/label/component names, memory and disk based, with optimisation between lists",
  "The unit tests apply a handful of fixed update lists; order-dependent and implementation-dependent mistakes need arbitrary histories and a complete read-back.",
  ["core/src/graph/mod.rs", "core/src/graph/update.rs", "core/src/graph/storage/adjacencylist.rs", "core/src/graph/storage/disk_adjacency.rs", "core/src/annostorage/inmemory.rs", "core/src/annostorage/ondisk.rs"],
  [("sequential application of update events with node name cache", "core/src/graph/mod.rs:apply_update_in_memory"), ("copy to a writable implementation before an edge event", "core/src/graph/mod.rs:get_or_create_writable")],
  ["Graph::apply_update / apply_update_keep_statistics", "read API of Graph, GraphStorage, AnnotationStorage"])

p("C02", "Memory and disk label storages answer every lookup like a plain map",
  "A label storage (in memory or on disk) behaves like a map from (item, namespace, name) to one value after any sequence of insertions, overwrites, removals and clearing. Every lookup returns exactly what the map implies: values and labels of an item, key lists, per-key and total counts, exact search with any combination of given or missing namespace and required, forbidden or arbitrary value, regular expression search (matching the whole value), value listings with most frequent first, and key filters on item lists. Saving and loading the storage does not change any answer.",
  ["histories", "inputs", "configurations"], "all operation sequences over small and hostile key/value pools, both implementations, node and edge items, before and after save/load",
  "Unit tests use a few fixed labels per implementation; overwrites, prefix-sharing names and values, removed keys and mixed namespaces are only exercised by arbitrary histories.",
  ["core/src/annostorage/inmemory.rs", "core/src/annostorage/ondisk.rs", "core/src/annostorage/symboltable.rs", "core/src/annostorage/mod.rs"],
  [("by-container and by-annotation index kept in step", "core/src/annostorage/ondisk.rs:insert, remove_annotation_for_item"), ("symbol ids with counts", "core/src/annostorage/inmemory.rs")],
  ["AnnotationStorage trait of both implementations"])

p("C03", "The on-disk sorted map behaves exactly like a sorted map",
  "A disk-backed map behaves like an ordinary sorted map for every sequence of inserts, overwrites, removals, lookups, membership tests, full and range iterations, compactions and write-then-reopen steps, for every eviction limit and every mixture of in-memory, evicted and compacted entries. Iteration yields each live key once, in ascending order, with its latest value; removed keys are absent from lookups, membership tests, iterations and the written file.",
  ["histories", "inputs", "configurations"], "all operation sequences, key and value shapes, bounds (included, excluded, unbounded) and eviction settings",
  "The tests cover fixed sequences with one or two evictions; wrong layering of the three levels shows only for specific orders of removal, eviction, compaction and range bounds.",
  ["core/src/util/disk_collections.rs", "core/src/util/disk_collections", "core/src/serializer.rs"],
  [("three level lookup with tombstones", "core/src/util/disk_collections.rs:DiskMap"), ("order preserving key serialisation", "core/src/serializer.rs")],
  ["DiskMap public API"])

p("C04", "Every graph storage answers reachability like the plain edge relation",
  "For every edge storage implementation (adjacency list, dense adjacency list, pre/post order, linear, disk adjacency, disk path) and every graph this implementation can be chosen for, the answers are those of the plain edge relation: outgoing and ingoing edges, sources, the nodes reachable by a path whose length lies within given bounds (each reported once), the same in inverse direction, whether two nodes are connected within the bounds, and the length of the shortest connecting path (a connection of a node with itself is not defined for the disk path storage). All implementations of the same edges give the same answers, and so does an implementation after it was copied, saved and loaded.",
  ["inputs", "configurations"], "all edge relations accepted by an implementation (trees, forests, chains, DAGs, cyclic graphs), all node pairs, all minimum/maximum distances including unbounded and excluded bounds",
  "Tests check each implementation on one or two small example graphs and a few bounds; multiple paths of different length, diamonds, cycles and bound edge cases need enumeration of many graphs.",
  ["core/src/graph/storage/adjacencylist.rs", "core/src/graph/storage/dense_adjacency.rs", "core/src/graph/storage/prepost.rs", "core/src/graph/storage/linear.rs", "core/src/graph/storage/disk_adjacency.rs", "core/src/graph/storage/disk_path.rs", "core/src/graph/storage/union.rs", "core/src/dfs.rs"],
  [("cycle safe depth first search", "core/src/dfs.rs"), ("pre/post order intervals", "core/src/graph/storage/prepost.rs"), ("position in chain", "core/src/graph/storage/linear.rs")],
  ["GraphStorage / EdgeContainer traits"])

p("C05", "Re-optimising storage implementations never changes graph content",
  "Calculating statistics and switching storage implementations (in memory or disk based) never changes the observable content of a graph: the same nodes, labels, edges and edge labels are there before and after, for any shape of the components. The chosen implementation is always one that can represent the component, and later updates on the optimised graph have the same effect as on the unoptimised one.",
  ["inputs", "histories", "configurations"], "all component shapes (trees, forests, chains, rings with and without roots, deep paths, wide fan-out) with labels on edges, both disk preferences, repeated optimisation",
  "The heuristic decides from statistics; only unusual shapes (ring next to a rooted part, paths longer than the path storage allows) pick an implementation that cannot represent the edges, which the example graphs of the tests do not contain.",
  ["core/src/graph/mod.rs", "core/src/graph/storage/registry.rs", "core/src/graph/storage/adjacencylist.rs", "core/src/graph/storage/disk_adjacency.rs", "core/src/graph/storage/disk_path.rs"],
  [("implementation choice by statistics", "core/src/graph/storage/registry.rs:get_optimal_impl_heuristic"), ("copy into the new implementation", "core/src/graph/mod.rs:optimize_gs_impl")],
  ["Graph::optimize_impl, calculate_all_statistics, read API"])

p("C06", "Saving a graph and loading it again preserves it completely",
  "Persisting a graph to a directory and loading it again (fully preloaded or on demand) gives a graph with the same nodes, labels, components, edges and edge labels, for every component layer and name (up to the file name length limit of the file system), every storage implementation and every label text. Saving again to the same directory, loading and updating, and saving to another directory preserve the content just the same, and a save never writes outside of the given directory.",
  ["inputs", "histories", "configurations"], "all graphs including hostile component names and label values, all implementations, repeated save/load/update cycles",
  "The tests save and load one or two example graphs with plain component names once.",
  ["core/src/graph/mod.rs", "core/src/graph/serialization", "core/src/graph/storage/mod.rs", "core/src/annostorage/ondisk.rs", "core/src/annostorage/inmemory.rs"],
  [("component directory layout", "core/src/graph/mod.rs:component_to_relative_path, internal_save"), ("loading on demand", "core/src/graph/mod.rs:open, ensure_loaded")],
  ["Graph::persist_to, save_to, open, preload"])

p("C07", "A crash at any point leaves the last acknowledged or a newer state",
  "When the process is killed at any point while updates are applied, persisted in the background or a corpus is saved, opening the corpus afterwards succeeds and shows the content after some prefix of the submitted update lists that includes every list whose application had already been acknowledged; never a mixture of an update list applied in part. A second crash during recovery does not lose that state either.",
  ["crash_points", "histories"], "every file system operation of apply_update, background synchronisation and recovery as crash point, for histories of several updates",
  "The tests never interrupt the process; the backup/current/log protocol is only observable when the process dies between two file system operations.",
  ["core/src/graph/mod.rs", "graphannis/src/annis/db/corpusstorage.rs"],
  [("write-ahead update log", "core/src/graph/mod.rs:persist_updates"), ("backup directory protocol", "core/src/graph/mod.rs:internal_save_with_backup, load_from/internal_open")],
  ["files in the corpus directory", "Graph::open after the kill", "CorpusStorage after reopening"])

p("C08", "A failed update or save leaves the previous content in place",
  "When applying an update list to a persistent graph or corpus fails because of an I/O error, the operation reports an error and the previous content stays available, both in the running process and after reopening it; later updates without a fault succeed again. A failure in the background synchronisation never loses an acknowledged update.",
  ["fault_sequences", "histories"], "single and repeated I/O errors (create, write, rename, remove, fsync) at every file system operation of an update, synchronisation or save",
  "The tests run without faults; error paths (reload from disk, leftover backup directory) are only reached by failing individual system calls.",
  ["core/src/graph/mod.rs", "graphannis/src/annis/db/corpusstorage.rs"],
  [("reload from disk after a failed update", "core/src/graph/mod.rs:persist_updates"), ("backup directory protocol", "core/src/graph/mod.rs:internal_save_with_backup")],
  ["return values of apply_update", "content in process and after reopen"])

p("C09", "Query results are exactly the matches the query language defines",
  "For every query and every corpus, the set of returned matches equals the set of node tuples which satisfy all node conditions and all operators of at least one alternative of the query as defined by the AQL reference (label, value, regular expression, token and any-node searches; precedence, near, overlap, inclusion, identical coverage, left/right alignment, dominance, pointing, part-of, equality, arity and negated operators, optional nodes). No match is missing, none is spurious and none is returned twice; the count of matches equals the number of found matches. In the ANNIS 3 compatibility (quirks) mode the same holds with its rules: precedence and near without upper bound are limited to 50, only directly joined nodes must differ, and each additional dominance or pointing join of a node adds an output column for it.",
  ["inputs", "programs"], "all annotation graphs of bounded size with tokens, spans, hierarchies, pointing relations, segmentations and part-of structure, all queries of the grammar up to four nodes",
  "The query tests compare stored counts for a fixed list of queries on fixed corpora; a reference evaluator compares arbitrary queries on arbitrary small graphs.",
  ["graphannis/src/annis/db/aql", "graphannis/src/annis/db/exec", "graphannis/src/annis/db/plan.rs", "graphannis/src/annis/db/token_helper.rs"],
  [("operator implementations", "graphannis/src/annis/db/aql/operators"), ("join planning and execution", "graphannis/src/annis/db/aql/conjunction.rs, graphannis/src/annis/db/exec")],
  ["CorpusStorage::find, count"])

p("C10", "Results do not depend on plan, storage, cache or parallel settings",
  "The matches of a query do not depend on how it is executed: serial or parallel joins, memory-based or disk-based storage, freshly created or reloaded corpora, missing or outdated statistics, optimised or unoptimised components and any cache limit give the same matches. Logically equivalent formulations give the same matches too: a different order of the operator conditions, or of the alternatives of a disjunction.",
  ["configurations", "programs", "inputs"], "all queries and corpora as in C09 under all combinations of execution settings",
  "Tests run each query in one configuration; plan choice depends on statistics and storage, so only a differential run over many configurations compares the alternatives.",
  ["graphannis/src/annis/db/aql/conjunction.rs", "graphannis/src/annis/db/exec", "graphannis/src/annis/db/corpusstorage.rs"],
  [("cost based join order and operator-side choice", "graphannis/src/annis/db/aql/conjunction.rs"), ("parallel joins", "graphannis/src/annis/db/exec/parallel")],
  ["CorpusStorage::find, count with different settings"])

p("C11", "Ordering and pagination of results are consistent",
  "For every query, corpus selection and the normal and inverted order, the concatenation of consecutive pages (any page size) equals the complete result list, which contains each match exactly once; a page beyond the end is empty and an omitted limit returns the rest. Inverted order is the reverse of normal order, the unsorted and the randomised order give a permutation of the same matches (which may differ on each call) and pages of the requested size, and in normal order matches are sorted by corpus, document, text position and node name of their nodes, longer matches before shorter ones that are a prefix of them. The number of results equals the reported count, and the order is the same on every run.",
  ["inputs", "histories", "configurations"], "all queries over several corpora and documents, all page sizes and offsets including zero and very large numbers, all result orders",
  "Tests ask for a few fixed pages of fixed queries.",
  ["graphannis/src/annis/db/corpusstorage.rs", "graphannis/src/annis/db/sort_matches.rs", "graphannis/src/annis/util/quicksort.rs"],
  [("window over a lazily or fully sorted result", "graphannis/src/annis/db/corpusstorage.rs:find_in_single_corpus"), ("match comparison", "graphannis/src/annis/db/sort_matches.rs")],
  ["CorpusStorage::find, count"])

p("C12", "The derived token coverage index equals one computed from scratch",
  "After any sequence of update lists, the derived index edges of an annotation graph (token covered by a structure through inherited coverage, left-most and right-most covered token) are the same as those of a fresh graph with the same content built with a single update list. Hence coverage-based query results depend only on the current content of the corpus, never on its edit history.",
  ["histories", "inputs"], "all edit histories of tokens, spans, hierarchies and their ordering, coverage and dominance edges, with deletions and re-insertions",
  "The tests only cover single edits on small documents; the incremental invalidation has to be right for every combination of edits.",
  ["graphannis/src/annis/db/aql/model.rs"],
  [("invalidation of affected nodes", "graphannis/src/annis/db/aql/model.rs:before_update_event, after_update_event"), ("re-indexing", "graphannis/src/annis/db/aql/model.rs:reindex_inherited_coverage")],
  ["derived components of the graph", "query results"])

p("C13", "GraphML export followed by import reproduces the graph",
  "Exporting a graph or corpus to GraphML and importing the result gives a graph with exactly the same nodes, labels, components, edges and edge labels, for every text in names, label keys and values that can be written as XML, and the corpus configuration is preserved. The stable-order export of a graph is the same for every storage implementation and for the re-imported graph, and documents with the same content in another XML notation (entities, CDATA, comments, attribute order) are imported equally.",
  ["inputs"], "all annotation graphs, including XML special characters, quotes, white space and non-ASCII text in node names, label names and values, component names and configuration",
  "The tests export one small example with plain names.",
  ["core/src/graph/serialization/graphml.rs"],
  [("writer and reader of GraphML", "core/src/graph/serialization/graphml.rs")],
  ["graphml::export, graphml::import", "CorpusStorage::export_to_fs, import_from_fs"])

p("C14", "Corpus export and import keep corpora, configuration and linked files",
  "Exporting one or several corpora as GraphML directory or ZIP file and importing them into an empty data directory gives the same corpora: the same content, query results, corpus configuration and the same linked files with identical bytes, and nothing else. Importing with the overwrite setting replaces the old corpus completely; without it an existing corpus is left unchanged and an error is reported.",
  ["inputs", "histories", "configurations"], "all sets of corpora with configuration and linked files, both export formats, copying or referencing of linked files, overwrite on/off, new corpus names",
  "The tests import single fixed corpora; the combinations of format, overwrite and linked files are not exercised.",
  ["graphannis/src/annis/db/corpusstorage.rs"],
  [("export and import of ZIP and directories", "graphannis/src/annis/db/corpusstorage.rs:export_to_zip, import_all_from_zip, import_from_fs, copy_linked_files_to_disk")],
  ["CorpusStorage::export_to_zip/export_to_fs, import_*", "file system"])

p("C15", "Extracted subgraphs contain exactly the requested part",
  "A subgraph extracted for given nodes, corpora or a query contains, for every matched node, the node itself with all its labels, the tokens within the requested left and right context, all structures covering those tokens, the document and corpus nodes they belong to, and all edges with their labels between included nodes - and no other annotated nodes. Every included node has exactly the labels it has in the corpus.",
  ["inputs", "configurations"], "all corpora and node lists, all context sizes, base token and segmentation context, all queries and component restrictions",
  "Tests extract a few fixed subgraphs.",
  ["graphannis/src/annis/db/corpusstorage/subgraph.rs", "graphannis/src/annis/db/corpusstorage.rs"],
  [("context token iteration and covering nodes", "graphannis/src/annis/db/corpusstorage/subgraph.rs"), ("copying nodes and edges", "graphannis/src/annis/db/corpusstorage.rs:create_subgraph_node, create_subgraph_edge")],
  ["CorpusStorage::subgraph, subgraph_for_query, corpus_graph"])

p("C16", "Frequency tables count every match exactly once",
  "A frequency table for a query and a list of annotation references has one row per distinct tuple of annotation values occurring in the matches, with the number of matches having that tuple; the counts add up to the number of matches of the query. Missing annotations count as their own value, rows are ordered by descending count, and the result is the same for a set of corpora as for the sum over the single corpora.",
  ["inputs", "programs"], "all queries, corpora and annotation reference lists",
  "Tests check one or two fixed frequency tables.",
  ["graphannis/src/annis/db/corpusstorage.rs"],
  [("tuple counting", "graphannis/src/annis/db/corpusstorage.rs:frequency")],
  ["CorpusStorage::frequency compared with find"])

p("C17", "Concurrent requests see complete updates in a consistent order",
  "When several threads use the same corpus storage at the same time, every query observes a corpus state that results from complete update lists only (the first update of a missing corpus may create the empty corpus in a step of its own), every acknowledged update is visible to all later requests, and all observations are consistent with one sequential order of the requests that respects real time. No request panics, deadlocks, fails without reason or races on memory, also while corpora are unloaded, re-loaded, imported or deleted.",
  ["schedules", "histories"], "all interleavings of update, query, count, unload, preload, re-optimise, delete and import requests from several threads",
  "The tests are single threaded except for one smoke test; lost updates and stale reads need contention between cache eviction, loading and background writing.",
  ["graphannis/src/annis/db/corpusstorage.rs", "core/src/graph/mod.rs"],
  [("cache of corpora behind read/write locks", "graphannis/src/annis/db/corpusstorage.rs:get_loaded_entry, get_fully_loaded_entry, apply_update"), ("background writer thread and lock", "core/src/graph/mod.rs:background_sync_wal_updates")],
  ["recorded request histories at the CorpusStorage API"],
  [("acknowledged update", "update list whose call returned success", "CorpusStorage::apply_update")])

p("C18", "Corpus management is transparent to unloading, caching and restarts",
  "Creating, updating, importing, renaming by re-import, re-optimising, unloading, preloading and deleting corpora behaves like operations on a simple map from corpus names to contents: listing shows exactly the existing corpora, a deleted corpus is gone for good (also on disk and after re-creation under the same name), and corpora never influence each other. Unloading, preloading, the cache limit, a restart of the storage and re-optimisation never change any observable content.",
  ["histories", "configurations"], "all sequences of corpus management operations on several corpora with hostile names, all cache strategies, memory and disk based, with restarts in between",
  "Tests create and delete single corpora with simple names.",
  ["graphannis/src/annis/db/corpusstorage.rs"],
  [("corpus cache and directory per corpus", "graphannis/src/annis/db/corpusstorage.rs")],
  ["CorpusStorage public API and files on disk"])

p("C19", "Any query text is answered or rejected with an error, never a crash",
  "For every query string (valid, invalid or hostile) in both query language modes, validating, planning, counting, finding, frequency, node descriptions and subgraph extraction either succeed or return an error value; they never panic, overflow, abort or run away on small corpora. An invalid regular expression, unknown component or undefined node reference is reported as an error with a location inside the query text or yields an empty result, and the same for all execution functions; valid queries are never rejected.",
  ["inputs", "programs"], "all strings, all grammar derivations with extreme numbers, names and structures, and mutations of valid queries",
  "Tests contain a fixed list of mostly valid queries.",
  ["graphannis/src/annis/db/aql/mod.rs", "graphannis/src/annis/db/aql/parser.lalrpop", "graphannis/src/annis/db/aql/conjunction.rs", "graphannis/src/annis/db/aql/ast.rs", "graphannis/src/annis/db/aql/operators"],
  [("parser and semantic analysis", "graphannis/src/annis/db/aql/mod.rs:parse"), ("query construction", "graphannis/src/annis/db/aql/conjunction.rs")],
  ["CorpusStorage::validate_query, plan, find, count, frequency, node_descriptions, subgraph_for_query"])

p("C20", "Malformed import data yields an error and leaves no partial corpus",
  "Importing damaged, truncated or hostile data (GraphML, ZIP, relANNIS, saved corpus directories) either succeeds or reports an error; it never panics, hangs or aborts. After a failed import the corpus list and all existing corpora, including one of the same name, are unchanged, also after a restart.",
  ["inputs", "fault_sequences"], "all byte-level and structure-level mutations of valid import data",
  "Tests import valid data and very few broken examples.",
  ["core/src/graph/serialization/graphml.rs", "graphannis/src/annis/db/relannis.rs", "graphannis/src/annis/db/corpusstorage.rs", "core/src/graph/mod.rs"],
  [("error propagation in the readers", "core/src/graph/serialization/graphml.rs, graphannis/src/annis/db/relannis.rs")],
  ["CorpusStorage::import_from_fs, import_all_from_zip, list, content"])

p("C21", "File access stays inside the data directory",
  "No corpus name, component name, linked file name or archive entry makes the storage read, write or delete files outside of the directory of that corpus: creating, updating, importing, exporting, listing or fetching linked files and deleting with any name leave everything outside of the corpus directory unchanged and disclose nothing from there. Different names never share a directory.",
  ["inputs", "histories"], "all corpus, layer, component, file and archive entry names including path separators, dot segments, absolute paths and percent signs",
  "Tests use harmless names only (one test with escaped characters).",
  ["graphannis/src/annis/db/corpusstorage.rs", "core/src/graph/mod.rs"],
  [("percent encoding of corpus names", "graphannis/src/annis/db/corpusstorage.rs:escape_corpus_name, corpus_directory_on_disk"), ("archive extraction with enclosed names", "graphannis/src/annis/db/corpusstorage.rs:import_all_from_zip")],
  ["directory tree snapshot around the data directory"])

p("C22", "relANNIS import reproduces the corpus described by its tables",
  "Importing a relANNIS corpus creates exactly the corpora, documents, tokens, spans, structures, relations and annotations that its tables describe, including text order and spacing, segmentations, coverage, dominance and pointing components, corpus metadata, resolver and example query information. The result does not depend on the order of rows in the tables, nor on memory-based or disk-based import.",
  ["inputs", "configurations"], "all consistent relANNIS corpora of bounded size in both table versions, all row orders",
  "Tests import two fixed corpora.",
  ["graphannis/src/annis/db/relannis.rs"],
  [("table by table conversion into update events", "graphannis/src/annis/db/relannis.rs")],
  ["CorpusStorage::import_from_fs followed by full read-back"])

p("C23", "The C API returns the same results and never corrupts memory",
  "Every function of the C interface returns the same data as the corresponding library function for all inputs, reports failures through the error list instead of crashing, and accepts null where it is documented as optional. Any sequence of creating, using and freeing objects according to the documented ownership is free of memory errors (use after free, double free, out-of-bounds access, uninitialised reads).",
  ["histories", "inputs"], "all call sequences that follow the documented ownership rules, with valid and invalid arguments",
  "The tests of the C interface call a few functions once, without a memory checker.",
  ["capi/src"],
  [("pointer conversion and ownership transfer", "capi/src/lib.rs, capi/src/data.rs, capi/src/corpusstorage.rs, capi/src/graph.rs")],
  ["C driver linked against the library under AddressSanitizer / valgrind"])

p("C24", "The web service only gives access to what a request is entitled to",
  "A request to the web service gets data of a corpus only if the corpus is readable for it: by administrator role, by membership in a group that has the corpus, by the group for anonymous access, or by the setting that all corpora are public. Import, export of others' corpora, deletion, configuration of groups and other administrative requests are executed only with a valid administrator token; invalid, expired, wrongly signed or manipulated tokens never give access. Authorised requests return the same data as the library, and rejected requests have no effect.",
  ["inputs", "histories", "configurations"], "all combinations of endpoint, corpus selection, group assignments, token contents and signatures, and server settings",
  "Tests check a few endpoints with one or two tokens.",
  ["webservice/src"],
  [("token verification", "webservice/src/extractors.rs"), ("per-corpus authorisation", "webservice/src/api"), ("group database", "webservice/src/auth")],
  ["HTTP responses of the real server on the loopback interface"])

p("C25", "A timed out query reports the timeout and nothing partial",
  "A query with a timeout either returns the complete correct result or reports that the timeout was reached; a partial result is never presented as complete. Without or with a generous timeout the same result as without timeout is returned, a zero timeout is handled as reached, and after a timeout the storage answers later queries completely.",
  ["inputs", "schedules"], "all queries and timeouts from zero to generous, memory and disk based, several corpora, count, find, frequency and subgraph",
  "Tests hardly use timeouts; the check points are spread over several loops.",
  ["graphannis/src/annis/util", "graphannis/src/annis/db/corpusstorage.rs"],
  [("timeout checks in the result loops", "graphannis/src/annis/util/mod.rs:TimeoutCheck, graphannis/src/annis/db/corpusstorage.rs")],
  ["CorpusStorage::find, count, frequency, subgraph_for_query with timeout"])

p("C26", "Update lists keep every event, in order, through serialisation",
  "An update list returns exactly the added events in the order of addition, however many there are and however long their texts are, and reports their number. Serialising and deserialising a list (as done for the write-ahead log and for exchange) preserves all of that, events can be added afterwards at the end, and truncated data is reported as an error instead of a shorter list; damaged data is rejected or gives a readable list but never crashes.",
  ["inputs", "histories"], "all lists of events including very long and hostile texts, sizes around the internal block limits, alternating addition, iteration and serialisation",
  "The tests serialise two short lists.",
  ["core/src/graph/update.rs"],
  [("buffered and compressed change sets", "core/src/graph/update.rs:GraphUpdate")],
  ["GraphUpdate::add_event, iter, len, serde"])

p("C27", "Metadata listings agree with the actual corpus content",
  "The listings of node annotations, edge annotations and components of a corpus agree with its content: every listed key or value really occurs and every occurring key or value is listed (with value listing enabled, and the most frequent one with that option), every component with edges is listed with the type, layer and name it has. Corpus information (loaded state, token counts, configuration) matches the content, and the listings stay correct after updates, re-optimisation and restarts.",
  ["histories", "inputs", "configurations"], "all corpora and edit histories, all options of the listing functions",
  "Tests list the annotations of one fixed corpus.",
  ["graphannis/src/annis/db/corpusstorage.rs", "core/src/annostorage"],
  [("listing functions", "graphannis/src/annis/db/corpusstorage.rs:list_node_annotations, list_edge_annotations, list_components, info")],
  ["CorpusStorage::list_node_annotations, list_edge_annotations, list_components, info compared with corpus content"])

p("C28", "A data directory is only used by one process at a time",
  "While one process has a data directory open, opening it from another process (or a second time from the same process) fails with an error and leaves all files unchanged; after the first one was closed or died by any cause, opening succeeds and shows the complete content. Only one of several simultaneous attempts to open wins.",
  ["schedules", "crash_points", "histories"], "all interleavings of opening, closing and killing processes on the same data directory",
  "The tests only open one storage per directory.",
  ["graphannis/src/annis/db/corpusstorage.rs"],
  [("lock file", "graphannis/src/annis/db/corpusstorage.rs:create_lockfile_for_directory")],
  ["CorpusStorage::with_cache_strategy from several processes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
