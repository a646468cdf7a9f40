"""Write MANIFEST.json from the property list and the rules."""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts, props, rules

NOT_APPLICABLE = {}


def main():
    ids = [json.loads(l)["id"] for l in open(os.path.join(facts.VERIF, "properties.jsonl"))]
    checks = []
    for pid in ids:
        if pid in NOT_APPLICABLE:
            continue
        rs = [n for n, _, _ in rules.RULES.get(pid, ())]
        checks.append(dict(
            property=pid, quick_cmd="python3 analyzer/check.py " + pid, evidence_file="evidence/%s.json" % pid,
            technique="effect and provenance contracts over inlined MIR" + ("; rules: " + ", ".join(rs) if rs else ""),
            level="other",
            level_note="Change detection, not an independent proof: for the listed functions every effect, error, mutation and return with its condition and "
                       "argument provenance must equal the contract recorded from the pinned tree; rules, where named, are independent of that record. "
                       "Loops over iterators count as running at least once, sets of alternatives are capped, arithmetic and external crates are not interpreted."))
    m = dict(version=1, setup_cmd="bash build.sh", checks=checks,
             not_applicable=[dict(property=p, reason=r) for p, r in sorted(NOT_APPLICABLE.items())],
             notes="All checks share one extraction of /repo's MIR per tree state, cached under .build.")
    with open(os.path.join(facts.VERIF, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
