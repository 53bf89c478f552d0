#!/usr/bin/env python3
"""Writes MANIFEST.json (run after adding a check)."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "
CLAIMED = {
    "C01": ("seeded mixed-language pub/sub cluster over a simulated transport (loss, duplication, delay, reordering, damage, node crashes), "
            "checked against a subscription-map and wire reference model",
            "Seeded search, no exhaustiveness. Real generated code and runtimes of C++ (ASan), Java, Python and Python/C++ run in lockstep; "
            "the transport is the simulator. Trusts the reference model of the encoding guide in lib/zs.py."),
    "C02": ("seeded mixed-language RPC clients and services over a simulated transport (loss, duplication, damage, delays, implementation "
            "failures, nested calls, crashes), checked against a call ledger and wire reference model",
            "Seeded search, no exhaustiveness. Same components and trust as C01."),
    "C03": ("seeded storage/link faults (flip, cut, torn, splice, lose, dup, set, extend) on stored images read by all four runtimes, checked "
            "against a reference decoder and healthy neighbour objects",
            "Seeded search, no exhaustiveness. What the encoding guide leaves open is only checked for absence of crash, hang and memory error."),
    "C05": ("seeded operation histories over pools of objects (sets, in-place and nested changes, writes refused, interrupted by a full medium "
            "or damaged reads, retries, copies, moves) in lockstep in all four runtimes, checked against a value model and reference encoder",
            "Seeded search, no exhaustiveness. States the schema language leaves without a meaning (unset members, parameters which no longer "
            "match) are only entered to be left again; nothing is asserted inside them."),
    "C06": ("seeded allocation failures (one, all following, a shrinking budget, sweeps over every allocation of an operation) in "
            "simulated memory resources and operator new under histories of every C++ operation, checked against a ledger of blocks per "
            "resource, the results of undisturbed runs and the reference encoder",
            "Seeded search, no exhaustiveness. Real generated C++ code and runtime under ASan and UBSan with the polymorphic and the "
            "standard allocator. After a failed assignment only usability and the retry are judged, not the intermediate value."),
    "C09": ("seeded histories of compiler runs over a simulated disk (I/O errors, full disk, short writes, interrupts, kills with torn writes, "
            "power loss, readdir order, clock jumps) and source/option edits in one output directory, each success compared with a run into an "
            "empty directory",
            "Seeded search, no exhaustiveness. The real compiler with all extensions runs in a host JVM; the disk is an LD_PRELOAD shim over a "
            "real scratch directory. The reference is the same compiler run without faults into an empty directory."),
    "C10": ("seeded histories of compiler runs in simulated environments (locale, time zone, charset, clock, identity hashes, heap, listing "
            "order, directories, unrelated files), repeated in one JVM and concurrently under a seeded thread scheduler, each compared with a "
            "reference environment",
            "Seeded search, no exhaustiveness. The real compiler with all extensions runs in JVMs of different configuration; concurrent runs "
            "are scheduled one at a time with seeded hand-over at file operations."),
    "C11": ("seeded thread schedules over real threads of one process (a switch possible at every memory access of C++ code, every field "
            "or array access and call of Java code, every bytecode of Python code), results compared with every thread running alone, "
            "vector clocks over C++ accesses, blocked threads detected",
            "Seeded search, no exhaustiveness. Sequentially consistent; code inside libstdc++, the JDK and the Python extension module "
            "runs without interruption. Each history starts in a fresh process, so that first use is part of it."),
    "C13": ("seeded lives of mixed-language systems whose participants are upgraded, rolled back and crash in any order between three "
            "schema versions while they store, load, edit, relay, publish and call, checked against the reference model of the reader's "
            "schema and an independent projection of the writer's value",
            "Seeded search, no exhaustiveness. Three fixed versions of one schema which differ by every documented compatible change; "
            "SQL storage of mixed versions is not part of the runs (blobs and messages are)."),
    "C04": ("seeded histories of file writes and reads by all runtimes over a simulated disk (short and interrupted transfers, errors of "
            "every call, full disk, file size limit, close failures, fd exhaustion), each acknowledged write compared with the bytes on the "
            "disk and each read with the reference decoder",
            "Seeded search, no exhaustiveness. The disk is an LD_PRELOAD shim over a real scratch directory; the real runtimes' file helpers "
            "of C++, Java, Python and Python/C++ run unchanged."),
    "C07": ("seeded histories of SQL operations by the generated Python, Java and C++ database classes on one database file over a simulated "
            "disk and lock schedule (crashes between any two system calls, power loss with lost unsynced writes, I/O errors, full disk, busy "
            "locks, interrupts), checked against a transactional reference model after recovery",
            "Seeded search, no exhaustiveness. The real SQLite and its Python, JDBC and C++ drivers run; the disk is an LD_PRELOAD shim."),
    "C08": ("seeded histories of writes, updates, reads and validations by Python, Java and C++ on one database with simulated disk errors, "
            "interrupts, failing parameter providers and damage to stored rows, checked against a map model of the tables",
            "Seeded search, no exhaustiveness. Python has no validation code; what the drivers and SQLite convert silently is modelled in "
            "lib/scen/sqlsim.py."),
    "C12": ("seeded delivery of JSON texts in chunks of any size, stream failures and early ends, interleaved reads after failures, in all "
            "four runtimes, checked for equality with delivery in one piece and with the reference value; failing output streams",
            "Seeded search, no exhaustiveness. Input and output streams are the simulator's; buffer sizes of the tokenizers are part of the "
            "schedule where the runtime lets them be chosen."),
}
PURE = {
    "N01": "acceptance and diagnosis of a schema text is a pure function of that text: no schedule, clock, I/O fault or history to simulate",
    "N02": "value equality of one expression: a pure function of its operands; simulation has nothing to vary (its generated-code side is exercised incidentally by C01-C05)",
    "N03": "pure function of a value and a start position (checked incidentally as part of the histories of C05)",
    "N04": "pure function of a value (hash stability over histories is part of C05)",
    "N05": "pure arithmetic conversion of one number",
    "N06": "pure in-memory traversal of one object and filter; no nondeterminism",
    "N07": "pure function of the schema text; its robustness to faults and environments is covered by C09 and C10",
}
PENDING = {}


def main():
    props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 check.py setup",
         "hooks": {"guard": "none", "enable": "no hooks are needed: every seam used (transport interfaces, allocators, SQLite VFS, "
                   "file system calls, class and module loading) already exists", "source_commits": []},
         "checks": [], "not_applicable": []}
    for p in props:
        if p in CLAIMED:
            t, n = CLAIMED[p][:2]
            m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + p,
                                "evidence_file": "evidence/%s.json" % p, "technique": TECH + t,
                                "level": CLAIMED[p][2] if len(CLAIMED[p]) > 2 else "exploration", "level_note": n})
        else:
            m["not_applicable"].append({"property": p, "reason": PURE.get(p) or PENDING.get(p) or "check not built yet"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
