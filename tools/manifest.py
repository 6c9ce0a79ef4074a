#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (claimed = has a check in check.py)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check
T = "TLA+ specification checked with TLC; "
INFO = {
 "C01": (T + "every file layout of the specification replayed into the library",
   "FileMap/BlkMap enumerate extent trees and indirect maps within bounds (blocks abstract, scaled to 10+ geometries); assumes the harness's ext4 encoder is right (cross-checked against e2fsprogs images)."),
 "C02": (T + "histories of read/seek replayed against the real file handle",
   "All histories of the bounded FileHandle model plus simulated long ones; positions and lengths abstracted to boundary classes, concretised per seed."),
 "C03": (T + "resolution algorithm model-checked against a POSIX walk; namespaces and paths replayed",
   "Exhaustive for the bounded namespace/path alphabet; limits (4096 bytes, 40 links) by PathLim."),
 "C04": (T + "hash-tree and linear directories replayed with precomputed hash collisions",
   "HTree enumerates key placements over leaves with shared hashes at boundaries; HTreeGrow grows directories by insertions, deletions and splits and refines it; concretised with real colliding names for all four supported hashes."),
 "C05": (T + "jbd2 writer/crash/recovery model; crash images replayed into the library",
   "Journal model exhaustive at small bounds, simulated at larger; log encoded by an independent encoder; logged copies of the superblock and descriptors equal the home ones."),
 "C06": (T + "cache/history model; interleaved histories replayed and compared with a fresh filesystem", "Cache (block cache vs. memoryless read) and ViewMC exhaustive at small sizes; long simulated histories over files, directories and a file larger than the cache, with reader faults; each recorded result checked against View."),
 "C07": (T + "one-field damage against every checksummed object, dependency relation from the specification", "Csum derives, from the reference filesystem, which objects every operation must or may touch; random alterations per object, region and operation, and every byte of what is read at load, on 7 checksummed geometries. Superblock bits that switch checksums off are excluded."),
 "C08": (T + "pointer graphs and field-damage lattice enumerated by the specification, replayed under watchdog, read and memory budgets", "All single damages of the lattice (24,000+) and simulated pairs and triples on journaled and plain filesystems; random graphs and ladders of extent nodes and index nodes. Termination and budgets are observed (20-30 s, 400k reads, 64 MiB beyond the data), not proved."),
 "C09": (T + "load decision table replayed against the library", "Load tabulates every superblock/descriptor decision, all single and pairwise deviations from 8 base filesystems."),
 "C10": (T + "inode geometry model replayed against the library", "Geometry enumerates inode size, table placement, group and number classes; concretised with exact on-disk positions including blocks beyond 2^32."),
 "C11": (T + "fault at every read position of every operation", "Io enumerates every operation and path; every reader call of each (and of loading) fails in turn, once, persistently, and with a warm cache."),
 "C12": (T + "component algebra enumerated over an abstract alphabet and replayed", "PathVal enumerates all byte strings over an abstract alphabet up to length 7 and all pairs up to 4; lengths around 255 by class."),
 "C13": (T + "operation x file type matrix replayed", "Ops is the full matrix of operations and object kinds, reached by name, through links, trailing slashes and directory entries."),
 "C14": (T + "torn, stale and altered log blocks from the jbd2 model replayed into the library",
   "Every damaged slot of every live log of the bounded model; seven kinds of damage; long histories by simulation."),
 "C15": (T + "symlink storage model replayed", "All target lengths 0..4096 by class and byte classes; fast, slow, sparse and multi-block storage."),
 "C16": (T + "directory block layouts enumerated and replayed",
   "DirBlock enumerates record layouts (live, deleted, padded, merged) over up to several blocks."),
 "C17": (T + "interleavings of handles, iterators and clones: real traces validated against the specification", "Simulated interleavings of up to 3 files, 3 iterators and 3 clones; every recorded event checked against View with TLC."),
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
LEVEL = {"C11": "fault_enumeration"}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in check.CHECKS:
        t, n = INFO[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "technique": t, "level": LEVEL.get(i, "model_checking"), "level_note": n or "Bounded exhaustive enumeration by TLC, sampled concretisation."})
    else:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
