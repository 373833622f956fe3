"""Writes MANIFEST.json from the registered checks."""
import json
import os

import checks
import core

ORACLE = {
    "C01": ("differential monitor, ASan/UBSan", "every decoded node compared with an independent reader (lib/jsongen.py), which is trusted"),
    "C02": ("differential monitor over malformed texts, ASan/UBSan", "the independent reader decides what is malformed"),
    "C03": ("round-trip monitor with Python's JSON reader, ASan/UBSan", "Python's json module is the oracle"),
    "C04": ("exact-arithmetic monitor, ASan/UBSan", "Python integers are the oracle"),
    "C05": ("model-based history monitor, ASan/UBSan/LSan", "a model tree beside the real values after every step"),
    "C06": ("ASan + UBSan + libstdc++ assertions under hostile inputs and coverage-guided fuzzing",
            "OpenSSL is not instrumented; red-zone tools miss non-adjacent overflows"),
    "C07": ("LeakSanitizer and allocator accounting", "memory still reachable from globals is judged by growth over repetitions"),
    "C08": ("model-based history monitor, ASan/UBSan", "std::map is the oracle"),
    "C09": ("invariant monitor after every step of histories", "the table's public bucket view is scanned"),
    "C10": ("model-based history monitor, ASan/UBSan", "std::map is the oracle"),
    "C11": ("iteration monitor beside a model, ASan/UBSan", "std::map and the hasher are the oracle"),
    "C12": ("model-based history monitor, ASan/UBSan", "std::vector is the oracle"),
    "C13": ("object-lifetime monitor with injected copy failures, ASan/UBSan", "a set of living objects is the oracle"),
    "C14": ("exception-contract monitor, ASan/UBSan", "documented exception types and messages"),
    "C15": ("trace monitor of the operation life cycle, ASan/UBSan/LSan", "a small state machine is the oracle"),
    "C16": ("differential execution over builds and environments, valgrind memcheck",
            "differences that no tried environment shows are missed"),
    "C17": ("ThreadSanitizer, and results compared with sequential ones",
            "schedules are sampled; OpenSSL is not instrumented; happens-before detection covers unobserved orders of the accesses seen"),
    "C18": ("signature monitor over argument lists, ASan/UBSan", "the documented signatures are the oracle"),
    "C19": ("reference monitor, ASan/UBSan", "Python's reversal is the oracle"),
    "C20": ("reference monitor with big-integer arithmetic, ASan/UBSan", "pow(m, e, n) is the oracle"),
    "C21": ("reference and round-trip monitor, ASan/UBSan", "pow(m, e, n) is the oracle"),
    "C22": ("reference monitor, exhaustive over byte pairs, ASan/UBSan", "Python's hex codec is the oracle"),
    "C23": ("reference monitor, ASan/UBSan", "hashlib.scrypt is the oracle"),
    "C24": ("reference monitor, ASan/UBSan", "hashlib is the oracle"),
    "C25": ("span monitor on generated documents, ASan/UBSan", "the generator knows the span of every node"),
    "C26": ("process-level contract monitor of the tools, ASan build included", "probe modules give known results"),
    "C27": ("reference monitor, ASan/UBSan", "independent definitions of the hash functions"),
    "C28": ("allocation fault enumeration, ASan/UBSan/LSan", "malloc and calloc of the containers fail at every site reached in turn"),
    "C30": ("allocation fault enumeration over whole calls, ASan/UBSan", "the same call with memory is the oracle"),
    "C29": ("index-model monitor, ASan/UBSan", "positions are the oracle"),
}


def main():
    ids = [json.loads(x)["id"] for x in open(os.path.join(core.VERIF, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
         "notes": "No hooks in /repo are needed. Checks build /repo's sources into /verif/.build."}
    for i in ids:
        if i in checks.CHECKS:
            m["checks"].append({
                "property": i, "quick_cmd": "python3 run.py %s quick" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                "evidence_file": "evidence/%s.json" % i, "technique": ORACLE[i][0], "level": checks.LEVELS[i],
                "level_note": "Held on the executions counted in the evidence file, no more; " + ORACLE[i][1] + "."})
        else:
            m["not_applicable"].append({"property": i, "reason": "its check is being built"})
    with open(os.path.join(core.VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
