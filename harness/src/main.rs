#[macro_use]
mod rt;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod aql;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod corpus;
mod crash;
mod gmodel;
mod relannis;
mod store;

use rt::*;

struct Entry {
    id: &'static str,
    run: fn(&mut Ctx),
    level: &'static str,
    rule: &'static str,
    min_distinct: u64,
    shards: u64,
    unprivileged: bool,
}
const CHECKS: &[Entry] = &[
    Entry { id: "C01", run: c01::run, level: "exploration", min_distinct: 50, shards: 8, unprivileged: false, rule: "Random histories of update batches over a small pool of node names, components, label keys and values (with hostile strings), on in-memory and disk-based graphs with implementation changes between batches; after every batch the full graph is read back and compared with a sequential model. Non-trivial: final graph has >= 2 nodes and >= 1 edge; distinct by full history." },
    Entry { id: "C02", run: c02::run, level: "exploration", min_distinct: 100, shards: 8, unprivileged: false, rule: "Random operation sequences on one label storage (in memory or on disk; node or edge items), audited against a nested map with all lookups and searches. Non-trivial: at least one label at the end; distinct by operation sequence." },
    Entry { id: "C03", run: c03::run, level: "exploration", min_distinct: 100, shards: 8, unprivileged: false, rule: "Random operation sequences on a DiskMap (five key types, eviction limits from 1 to 10000, write and reopen) compared with a BTreeMap: point queries after every operation, full and range iteration regularly. Non-trivial: map not empty at the end; distinct by operation sequence." },
    Entry { id: "C04", run: c04::run, level: "exploration", min_distinct: 100, shards: 8, unprivileged: false, rule: "Random component shapes (chains, forests, path trees, DAGs, cyclic and arbitrary graphs with edge labels); every storage implementation that can represent the shape is filled by copying from another one, saved and loaded, and compared with the set of all simple path lengths enumerated by the monitor; random write histories for the writable storages. Non-trivial: at least one edge; distinct by edge set with labels." },
    Entry { id: "C05", run: c05::run, level: "exploration", min_distinct: 100, shards: 8, unprivileged: false, rule: "Random components of typical shapes (chains, forests, path trees, DAGs, cycles) in one graph; random sequences of optimisation (whole graph or single component, memory or disk), statistics and further updates, with and without a location on disk; after every step the complete content and all reachability answers of the storage now in use are compared with the model. Non-trivial: at least one edge; distinct by history." },
    Entry { id: "C06", run: c06::run, level: "exploration", min_distinct: 100, shards: 8, unprivileged: true, rule: "Random sequences of save, persist, open, import, update, optimise and background synchronisation with two graphs and three directories; component layers and names include path separators, relative and absolute paths, control characters and names of internal files. After loading, the complete content is compared with the model of the directory; the files outside of the directories must stay unchanged. Non-trivial: at least one edge and one load; distinct by history." },
    Entry { id: "C07", run: crash::run_kills, level: "exploration", min_distinct: 40, shards: 8, unprivileged: false, rule: "Histories of updates, synchronisation, saving, re-optimisation, unloading, creation and restarts on one graph or corpus storage are executed by a child process, which is killed (SIGKILL) at every (or a random sample) of its file system operations below the data directory, before, after or in the middle of a write; sometimes the recovery is killed, too. What is left is opened and compared with the content after the last acknowledged step or the one after the next step; then updates, saving and another restart must work. Non-trivial: more than ten file system operations; distinct by history." },
    Entry { id: "C08", run: crash::run_faults, level: "exploration", min_distinct: 40, shards: 8, unprivileged: false, rule: "The same histories as in C07 executed with failing file system operations (EIO, ENOSPC, EACCES; one, several or all operations from a random point; all or some kinds). After each step the content must be exactly the one defined by the steps that reported success (a failed step changes nothing); without further faults updates must succeed and a restart must give the same content. Non-trivial: more than ten file system operations; distinct by history." },
    Entry { id: "C09", run: c09::run, level: "exploration", min_distinct: 200, shards: 8, unprivileged: false, rule: "Random annotated corpora (several documents and texts, spans, trees, pointing relations, segmentations, several labels with one name) and random AQL queries over all node searches, binary operators, ranges, edge annotations, value comparisons, negation, optional nodes, unary operators and nested disjunctions, executed sequentially and in parallel on memory and disk based, fresh and optimised graphs; the result set is compared with a reference evaluation by enumeration over the plain content. Tuples whose answer the language leaves open (one annotation filling two positions of non-reflexive operators, discontinuous coverage, spans over unconnected texts) may or may not be reported. Non-trivial: a query with at least one match; distinct by corpus and query." },
    Entry { id: "C10", run: c10::run, level: "exploration", min_distinct: 200, shards: 8, unprivileged: false, rule: "Random corpora and random AQL queries as for C09 in four corpus storages: one plain reference (memory, serial, one update list) and three with random settings (parallel joins, disk-based corpora, cache limit and strategy, several update lists with re-optimisation, unloading, preloading, querying and restarts in between, so that also statistics are missing or outdated); find (in a random order) and count must give the same matches in all of them. Every query is also executed in other formulations (order of operators, node definitions and alternatives, variable names). Non-trivial: a query with at least one match; distinct by corpus and query." },
    Entry { id: "C11", run: c11::run, level: "exploration", min_distinct: 200, shards: 8, unprivileged: false, rule: "Random corpora (one to three per storage, several documents and unconnected texts per document, edited histories) and random queries in two storages with random configuration. For each order the complete list is compared with: the documented order of all adjacent matches (corpus, document path, token position, node name), grouping of texts, its own repetition and the other storage, the inverted list, the count, and all pages of a random size plus random and extreme offsets and limits. Non-trivial: a list with at least two matches; distinct by query, order and corpus." },
    Entry { id: "C12", run: c12::run, level: "exploration", min_distinct: 100, shards: 8, unprivileged: false, rule: "Random annotated corpora edited by random update lists (token insertion and removal, spans, structures over several coverage and dominance components, removal and re-creation of nodes and edges, token labels); after every list the derived index edges are compared with an index computed from the content by the monitor, and at the end with a fresh graph built with one list. Left and right token of nodes that cover tokens of unconnected texts are not compared. Non-trivial: at least one alignment edge; distinct by history." },
    Entry { id: "C13", run: c13::run, level: "exploration", min_distinct: 200, shards: 8, unprivileged: false, rule: "Random graphs (core and annotation model, memory and disk, optimised) with texts that are difficult for XML in names, keys, values, component layers and configurations. The exported document is read with a small independent XML reader of the monitor and has to contain exactly the content; importing gives the same content and configuration; stable-order exports of the graph, the imported graph and the graph in other storage implementations are identical. Documents written by the monitor with the same content in other notations (order, quotes, references, CDATA, comments, empty elements) are imported and compared. Non-trivial: at least one edge; distinct by content." },
    Entry { id: "C14", run: c14::run, level: "exploration", min_distinct: 100, shards: 8, unprivileged: true, rule: "Random corpora with random configurations and linked files (random bytes; links that are missing, repeated, absolute, pointing outside; node names with separators, '..', escapes and names of corpus files) are imported from a directory written by the monitor, changed, exported (directory, ZIP, single file; one to three corpora; names with path separators and dots) and imported into another storage that contains some of the names, first without and then with overwriting, with restarts in between. Content, configuration, bytes of the linked files, list of corpora, exported entries, files in the data directory and answers of queries are compared. Non-trivial: at least one linked file; distinct by content and history." },
    Entry { id: "C15", run: c15::run, level: "exploration", min_distinct: 200, shards: 8, unprivileged: false, rule: "Random corpora (edited, optimised, restarted) and random requests for context around nodes (0 up to unlimited context, segmentations, several nodes), documents, the corpus structure and queries; the returned graph (nodes, labels, edges, edge labels, gap edges) is compared with the part computed from the plain content by the monitor. Non-trivial: a proper part of the corpus with edges; distinct by request and corpus." },
    Entry { id: "C16", run: c16::run, level: "exploration", min_distinct: 200, shards: 8, unprivileged: false, rule: "Random corpora and random queries with random frequency definitions (qualified and unqualified names, nodes of other alternatives and optional nodes, names that do not exist); the table is compared with the values of the matches of each alternative looked up in the plain content, its sum with the count, and the table for several corpora with the sum of the single ones. Unqualified names that match several annotations of a node and matches of several alternatives leave the row open (only sums are compared). Non-trivial: a table with at least two rows; distinct by query, definition and corpus." },
    Entry { id: "C17", run: c17::run, level: "exploration", min_distinct: 100, shards: 8, unprivileged: false, rule: "Two to six threads use one corpus storage at the same time: update lists (each marks all shared nodes with its number), creation, deletion, import, unloading, preloading, re-optimisation and eleven kinds of reading requests on one or two corpora, with random cache limits, random pauses between the requests and in half of the histories also injected at file operations. Every request is recorded with begin and end; each single answer must be one state with complete updates, no request may fail, panic or hang, and an offline checker searches a sequential order of all requests of a corpus that respects real time and explains all answers including the final content before and after a restart (linearizability). Non-trivial: overlapping requests; distinct by observed history." },
    Entry { id: "C18", run: c18::run, level: "exploration", min_distinct: 150, shards: 8, unprivileged: true, rule: "Random sequences of creating, updating, deleting, unloading, preloading, re-optimising, copying (export and import under another name with and without overwriting) and restarting over a pool of corpus names (including path separators, escapes, dots, control characters, names of internal files), with requests for missing corpora in between; after each step listing, query results, label listings or the complete exported content are compared with a map from names to models, at restarts the directories on the disk. Non-trivial: at least two changes of content; distinct by history." },
    Entry { id: "C19", run: c19::run, level: "exploration", min_distinct: 1000, shards: 8, unprivileged: false, rule: "Valid queries, mutations of them, sequences of AQL tokens, random Unicode text, extreme numbers, hostile regular expressions and very large queries are given to parsing, validating, planning, counting, finding (all orders, pages), frequency, node descriptions and subgraph extraction in both query languages on generated and on irregular graphs. No panic, abort or run-away; all functions agree on whether the query is valid and on the number of matches; error locations are inside of the text; generated valid queries are accepted; numbers beyond the corpus size are equivalent; nested alternatives equal their normal form. Non-trivial: distinct query texts." },
    Entry { id: "C20", run: c20::run, level: "exploration", min_distinct: 200, shards: 8, unprivileged: true, rule: "Damaged GraphML documents (bytes, lines, attributes, nesting, entities, configuration, links), graphs with cycles and unexpected types and components, damaged relANNIS tables (cells, rows, columns, files, numbers, properties), damaged and unusual ZIP files (also with valid corpora next to damaged ones), long chains and damaged files in the data directory, with limited memory. After an import that reports an error all corpora, configurations, linked files and directories must be as before, also after a restart; after a successful one only the imported corpora differ; a valid corpus can be imported afterwards. Non-trivial: data that was damaged; distinct by damage." },
    Entry { id: "C21", run: c21::run, level: "exploration", min_distinct: 100, shards: 8, unprivileged: true, rule: "Random sequences of creating, updating, importing (GraphML with and without given name, ZIP files with hostile entry names, relANNIS), exporting (file, directory, ZIP), deleting, re-optimising, requesting and restarting with hostile names (dot segments, separators, absolute paths into the observed area, percent signs, control characters, over-long, internal names) of corpora, layers, components, nodes, linked files and archive entries. Before and after each operation all files and directories of an area around the data directory are compared: only the directories of the addressed corpora (each name its own) and the export target may change, no secret from outside or from another corpus may appear in anything written, archives have no unsafe entries and no temporary files remain. Non-trivial: at least one operation with a name; distinct by history." },
    Entry { id: "C22", run: c22::run, level: "exploration", min_distinct: 200, shards: 8, unprivileged: true, rule: "Random corpora as relANNIS tables (versions 3.2 with and without segmentations and 3.3; several documents, sub-corpora and texts, spacing, segmentations with direct and annotated spans, explicit, omitted and partial coverage, dominance, pointing, edge annotations on repeated ranks, NULL values, escapes, linked files, visualizer rules, example queries and properties), written twice with rows in random order and imported from a directory or ZIP file in memory or on disk; the complete content, linked files and configuration are compared with what the tables describe. Non-trivial: at least one coverage edge; distinct by content." },
    Entry { id: "C23", run: c23::run, level: "exploration", min_distinct: 100, shards: 8, unprivileged: false, rule: "A driver program in C (compiled with the header of the repository) executes random sequences of calls of all functions of the C interface: once with all Rust crates and the driver instrumented by AddressSanitizer, once under valgrind. Objects are kept, used after the storage has been closed and freed in random order; arguments include invalid queries, missing corpora and files, null where it is optional, bytes that are not UTF-8, indices behind the end and calls without error list. Everything that is returned (numbers, vectors, tables, complete graphs, error lists with kind, message and causes) is compared with the corresponding function of the library on a storage of its own with the same history, as is the content on disk afterwards. Any report of the memory checkers, crash or missing answer is a violation. Non-trivial: all; distinct by sequence." },
    Entry { id: "C24", run: c24::run, level: "exploration", min_distinct: 200, shards: 8, unprivileged: true, rule: "The web service binary runs on the loopback interface with random settings (HS256 or RS256 tokens, public access, disk-based) and corpora with unusual names; random requests to all endpoints with anonymous, administrator, group, expired, manipulated, wrongly signed and malformed tokens, changes of groups, imports, exports, deletions and restarts in between. Each answer is judged with a model of the groups: invalid token 401, not entitled 403 (nothing of the corpus in the answer, marked with secrets), entitled exactly the answer of the library on a copy of the data; files only from the directory of the corpus; afterwards the complete content equals the one of the copy. Concurrent readers while groups are replaced. Non-trivial: reads; distinct by request, token and entitlement." },
    Entry { id: "C25", run: c25::run, level: "exploration", min_distinct: 200, shards: 8, unprivileged: false, rule: "Random and expensive queries on one or several corpora are counted, found (all orders, pages) and tabulated first without a timeout and then with timeouts of zero, one nanosecond, random fractions of the needed time, an hour and the maximum. Each answer must be identical to the one without timeout or report the timeout (zero: always if there is anything to report; an hour: never); repeating the request and updates work afterwards. Queries that would need hours must report the timeout within a minute and with limited memory. Non-trivial: a timeout reached within the execution; distinct by query, request and timeout." },
    Entry { id: "C26", run: c26::run, level: "exploration", min_distinct: 200, shards: 8, unprivileged: false, rule: "Random sequences of adding events (up to 200000, texts up to one million characters), complete and partial iteration also while events are added, and serialisation (bincode, JSON) with continuing on the deserialised list, compared with a vector of events. Every truncation of the serialised form must be rejected; randomly damaged data must be rejected or give a readable list; permuted and repeated identifiers must not lose events. Non-trivial: a list with at least two events; distinct by operations." },
    Entry { id: "C27", run: c27::run, level: "exploration", min_distinct: 200, shards: 8, unprivileged: false, rule: "Random corpora and arbitrary graphs in corpus storages; after random updates (also ones that only exist in the write-ahead log), unloading, preloading, re-optimisation, queries and restarts the listings of node annotations, edge annotations of all components, components (with all filters), and the corpus information (load status, annotation counts, token and segmentation counts) are compared with the content. Non-trivial: at least one edge; distinct by history." },
    Entry { id: "C28", run: c28::run, level: "exploration", min_distinct: 60, shards: 6, unprivileged: false, rule: "Several processes and threads open, use, close and lose (SIGKILL) the same data directory: random sequential histories (an attempt while somebody has it must be refused with the lock error and leave all bytes on the disk as they are, otherwise it must succeed and show all acknowledged content), simultaneous attempts (exactly one wins) and free races with random pauses injected around opening and deleting files. An offline checker over the logs of the processes verifies that the intervals of ownership (shared monotonic clock) do not overlap and that each owner sees exactly the content of the previous owners. Non-trivial: histories with changed content; distinct by history or order of the owners." },
];

fn main() {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    if id == "--fault-child" {
        std::process::exit(crash::child(&args[2..]));
    }
    if id == "--lock-child" {
        std::process::exit(c28::child(&args[2..]));
    }
    let Some(e) = CHECKS.iter().find(|e| e.id == id) else {
        eprintln!("unknown check {id}");
        std::process::exit(2);
    };
    let only = args.iter().position(|a| a == "--case").and_then(|p| args.get(p + 1).cloned());
    let Ok(shard) = std::env::var("VH_SHARD") else {
        std::process::exit(supervise(e.id, e.level, e.rule, e.min_distinct, e.shards, e.unprivileged, only));
    };
    let (i, n) = shard.split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).unwrap();
    let mut ctx = Ctx::new(e.id, (i, n));
    let dir = std::path::PathBuf::from(std::env::var("VH_SHARD_DIR").unwrap());
    ctx.set_progress_file(&dir.join(format!("cur-{i}")));
    if let Some(s) = only {
        if let Some((g, c)) = s.rsplit_once(':') {
            ctx.only_case = c.parse().ok().map(|c| (g.to_string(), c));
        }
    }
    start_watchdog();
    (e.run)(&mut ctx);
    std::fs::write(dir.join(format!("res-{i}.json")), serde_json::to_string(&ctx.into_json()).unwrap()).unwrap();
    // do not wait for helper threads
    std::process::exit(0);
}
