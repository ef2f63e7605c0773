"""Writes MANIFEST.json: every property of properties.jsonl that has a module in vf/props is claimed."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
    "C01": "integer instants and visible fields",
    "C02": "independent TZif reader and integer calendar",
    "C03": "independent TZif reader and disambiguation model",
    "C04": "model of calendar-then-exact shifting over an independent TZif reader",
    "C05": "integer arithmetic on instants",
    "C06": "independent proleptic Gregorian calendar",
    "C07": "independent calendar and the inverse relation",
    "C08": "integer nanosecond model",
    "C09": "componentwise integer model",
    "C10": "exact integer rounding",
    "C11": "day boundaries from an independent TZif reader and exact integer rounding",
    "C12": "independent formatter and round trip",
    "C13": "independent grammar-based reader of the documented formats, grammar-based and mutation fuzzing",
    "C14": "independent reader of the documented duration grammar, mutation fuzzing and round trip",
    "C15": "independent RFC 3339/2822 readers and writers, mutation fuzzing and round trip",
    "C16": "round trip over all protocols and recorded stable-format pickles",
    "C17": "integer model of standard-library objects and round trip",
    "C18": "integer timestamps",
    "C19": "invariant checked after every step of generated operation histories",
    "C20": "table of guarded operations, refused without and equal to plain arithmetic with permission",
    "C21": "lexicographic field tuples",
    "C22": "differential against the named zone, and histories of timezone changes",
    "C23": "stateful model of the patched clock with a faked real clock",
    "C24": "field model, immutability snapshots and split/combine round trips",
    "C25": "the same jobs in other surroundings, in threads and in other interpreters (metamorphic)",
    "C26": "the files of the timezone database, agreement of all entry points, independent TZif reader",
    "C27": "independent formatter",
    "C28": "table of foreign operands, and an operand answering every operator",
    "C29": "refusal, or the account of the same call with an int",
    "C30": "exception type, bound on processor time, exact sum of the components",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "vf", "props", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i} --tier quick",
            "thorough_cmd": f"bash check.sh {i} --tier thorough",
            "technique": "property-based testing (Hypothesis, structured generators with shrinking); oracle: " + ORACLE[i],
            "level": "exploration",
            "level_note": "Random structured search, not exhaustive: evidence lists the number of cases and the "
                          "distinct non-trivial ones. Judges the pure-Python implementation built here (the Rust "
                          "extension is not built) through its public interface; trusts the installed timezone "
                          "database files and the oracle in vf/.",
        })
    else:
        na.append({"property": i, "reason": "its check is not built yet"})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the checks import /repo/pysrc directly. Replay a violation with: bash check.sh <id> --replay <file>.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
