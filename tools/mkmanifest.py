#!/usr/bin/env python3
"""Source of MANIFEST.json; run after editing."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
C = {}
def c(id, technique, note, level="exploration", cmd="bin/check"):
    C[id] = (technique, level, note, cmd)

c("C01", "runtime monitor: sequential reference model over recorded update histories",
  "Held on the histories run (seeded, thousands per run) with complete read-back after every update list; overflow checks and debug assertions on. Trusts the 80-line model of the update events; self loops are specified as ignored.")

c("C02", "runtime monitor: map model compared with all search, key, value and count functions of both label storages after random operation histories",
  "Held on the histories run; every search function is compared in full after sampled prefixes and at the end. Regex answers are judged with the regex crate the code uses too.")
c("C03", "runtime monitor: BTreeMap model compared with DiskMap point, range and full reads after each operation",
  "Held on the histories run, with eviction sizes 1..10000, tombstones on all levels, re-opened multi-block tables. Keys are non-empty and of the order-preserving key types.")
c("C04", "runtime monitor: enumerated simple paths of random component shapes compared with every reachability function of every storage implementation",
  "Held on the graphs run, for all implementations the shape admits, directly filled, copied from each other, saved and loaded. Bounds: at most 300 nodes, 60000 simple paths per graph; empty upper bound Excluded(0) is not part of the domain.")

c("C05", "runtime monitor: content and all reachability answers compared with a sequential model after every optimisation, statistics and update step",
  "Held on the histories run. Bounds: graphs with at most 3 shaped components and 300 nodes; graphs with more than 60000 paths through coverage and dominance edges are skipped (the implementation enumerates these paths).")
c("C06", "runtime monitor: model per directory and per graph object compared after random save/persist/open/import/update/synchronise sequences, with a file system snapshot oracle for containment",
  "Held on the histories run; runs as an unprivileged user. Bounds: two graphs, three directories, layer and name texts up to 200 bytes.")

c("C09", "runtime monitor: results of generated queries compared with a reference evaluator that enumerates the tuples over the plain corpus content",
  "Held on the corpora and queries run. Bounds: up to 4 documents, 40 tokens per text, 4 query nodes per conjunction, 3 alternatives; a quarter of the queries in quirks mode (a third of these with meta:: conditions). Assignments left open by the language definition are not decided (counted as undecided_tuples).")
c("C10", "runtime monitor: matches of generated queries compared between four storages with random configuration, optimisation, cache, restart histories and between equivalent formulations",
  "Held on the queries and configurations run. Bounds: up to two corpora with up to 4 documents of 50 tokens, 4 query nodes per conjunction; formulations with several alternatives of which columns are permuted differently are executed but not compared.")
c("C12", "runtime monitor: token coverage index recomputed by the monitor from the plain content and compared after every update list, also against a graph built with one single list",
  "Held on the edit histories run. Bounds: a few documents with up to a dozen tokens; tokens covered by one node are connected through the base ordering, each text's ordering stays a chain at the end of a list; graphs with exponentially many coverage paths are skipped.")

c("C11", "runtime monitor: complete result lists checked for the documented order of adjacent matches, repeated and inverted lists, counts and all pages of random and extreme sizes compared with them",
  "Held on the lists checked. Bounds: lists of at most 800 matches; order between texts of one document that are not connected is only required to be consistent; unsorted lists are only compared as multisets.")
c("C15", "runtime monitor: returned subgraphs compared node by node and edge by edge with the part computed from the plain corpus content by the monitor",
  "Held on the requests run. Bounds: small documents with connected coverage; segmentation regions of which the end precedes the start are skipped.")
c("C16", "runtime monitor: frequency tables compared with the values of the single matches looked up in the plain content, and their sum with the count",
  "Held on the tables checked. Unqualified names that match several annotations of a node and duplicates of matches over several alternatives leave single rows open (sums are compared).")
c("C13", "runtime monitor: exported documents parsed by an own reader and imported graphs read back completely, compared with the plain content; documents in foreign notation generated from a model",
  "hostile names, keys, values, configurations, component layers; core and annotation graphs, memory and disk based, stable and unstable order")
c("C18", "runtime monitor: map of corpus names to plain content compared after random management operation sequences with restarts",
  "listing, info, full export, queries, components of all corpora, directories read without the corpus storage, files outside of the data directory")
c("C26", "runtime monitor: list model compared with iteration, length and serialised forms after random operation sequences; truncated and damaged forms",
  "bincode and JSON, sizes around block limits, all truncations of each list, random damage")
c("C27", "runtime monitor: listings and corpus information compared with the plain content after random updates, optimisation, unload and restart",
  "all options of node/edge annotation and component listings, token and segmentation counts, with updates only in the write-ahead log")
c("C07", "fault injection (SIGKILL at file system operations via an LD_PRELOAD shim) with an offline checker of the recovered state against the acknowledged history",
  "kills before, after and inside of file system operations of the working process and of the recovery; graph API and corpus storage; power loss (unsynced data) is out of scope, deleting and importing corpora are not killed here")
c("C08", "fault injection (failing file system operations via an LD_PRELOAD shim) with a reference model of the reported results",
  "EIO, ENOSPC (also with partial writes), EACCES and EMFILE on open, write, rename, unlink, mkdir, truncate below the data directory and the directory for temporary files; memory-mapped writes are not covered")
c("C14", "runtime monitor: exported entries, imported content, configuration and bytes of linked files compared with the model of the corpora over export/import/overwrite/restart sequences",
  "directory, ZIP and single file; hostile corpus, file and node names; imports into a storage that already has some of the corpora")
c("C20", "runtime monitor: content, files and list of all corpora observed before and after importing mutated GraphML, ZIP and relANNIS data and after damaging saved corpora, with address space limit, watchdog and crash detection",
  "quick 2500 damaged inputs; third-party assertions on damaged table files are a known finding; mmap is not faulted")
c("C22", "runtime monitor: content, linked files and configuration after importing generated relANNIS tables compared with a model computed from the abstract tables",
  "versions 3.2 and 3.3, shuffled rows, escapes, NULL values, segmentations, all coverage variants, memory/disk, directory/ZIP; duplicate document names and rank of several parentless components excluded")
c("C19", "runtime monitor with crash, hang and memory supervision: generated, mutated and random query texts given to every query function; answers of the functions compared with each other",
  "quick about 8800 distinct texts; recursion depth up to thousands of operators; per-query timeout of 1 s")
c("C25", "runtime monitor: answers with timeouts compared with the answer without timeout; watchdog and memory limit for expensive queries",
  "counting, finding, frequency; timeouts at random fractions of the needed time; scheduling of the timeout is sampled, not enumerated")
c("C28", "offline checker over logs of competing processes (non-overlapping ownership, complete hand-over of the content) with injected pauses and SIGKILL",
  "up to 6 processes and threads; schedules are sampled with random pauses around opening and deleting files; only file systems of this sandbox")
c("C21", "runtime monitor: snapshots of a directory area around the storage and canary secrets compared before and after operations with hostile names",
  "quick about 1800 operations; access is observed through changed files and written content, reads without visible effect are not")
c("C24", "runtime monitor: HTTP answers of the real web service judged with a model of groups and tokens and with the library on a copy of the data; marked content for disclosure; concurrent clients",
  "quick about 3500 requests on the loopback interface; HS256 and RS256; TLS, proxies and CORS are not part of it")
c("C17", "offline checker over recorded request histories of competing threads (search for a sequential order in real time against a model of complete updates) with injected pauses at file operations",
 "2-6 threads with up to 14 requests each on one or two corpora; sequential order searched with a budget; memory races are not decided by a race detector but only by their visible effects.")
c("C23", "compiler sanitizer and valgrind: a C program with random call sequences under AddressSanitizer (all Rust crates instrumented) and memcheck; answers compared with the library",
 "quick about 280 sequences with AddressSanitizer and 16 with valgrind; invalid enum values and use against the documented ownership are not part of it; leaks are not judged.")
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {
  "version": 1,
  "setup_cmd": "bin/setup",
  "hooks": {"guard": "none", "enable": "No hooks: all monitors observe the public API, the file system and the process boundary.", "source_commits": []},
  "checks": [],
  "not_applicable": [],
  "notes": "Fix commits in /repo are listed in known_findings.txt. Every check is seeded by VERIF_SEED; thorough runs set VERIF_TIER=thorough. Exit 2 means inconclusive or harness error.",
}
for p in props:
    if p in C:
        t, l, n, cmd = C[p]
        m["checks"].append({"property": p, "quick_cmd": f"{cmd} {p}", "thorough_cmd": f"VERIF_TIER=thorough {cmd} {p}",
                            "evidence_file": f"evidence/{p}.json", "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "Not claimed yet: the monitor for it has not been built.")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(m["checks"]), "checks")
