"""check.py <property>: decide one property on the current /repo tree.

Exit 0: held; 1: `VIOLATION property=<id> replay=<file>`; 2: the check could not run.
"""
import json, os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
import contracts
import props
import rules

EVIDENCE = os.path.join(facts.VERIF, "evidence")
KNOWN = os.path.join(facts.VERIF, "known_findings.json")


def known():
    with open(KNOWN) as fh:
        return json.load(fh)["findings"]


def site(data, fn):
    f = data["meta"]["lines"].get(fn)
    return "%s:%d" % f if f else "?"


def decide(pid):
    data, res = contracts.differences()
    gold = contracts.load_contracts()
    roots = props.roots_of(pid, gold)
    found = []
    for p, keep in roots.items():
        for d in res["diffs"].get(p, ()):
            if keep is not None and not keep(d):
                continue
            where = d.get("at") or [site(data, p)]
            found.append(dict(key="%s %s %s %s" % (pid, p, d["kind"], d["sink"]) + (" " + d["arg"] if d.get("arg") else ""),
                              function=p, where=where, rule="effect contract: " + d["kind"], construct=d["sink"] + (" argument " + d["arg"] if d.get("arg") else ""),
                              expected=d["want"], found=d["got"]))
    if len(roots) < props.FLOOR.get(pid, 1):
        found.append(dict(key=pid + " floor", function="-", where=[], rule="anchor floor", construct="functions under contract",
                          expected=props.FLOOR[pid], found=len(roots)))
    rr = rules.run(pid, data)
    found += rr["violations"]
    recs = sum(len(data["summaries"][p]["records"]) for p in roots if p in data["summaries"])
    guards = sum(len(r["guard"]) for p in roots if p in data["summaries"] for r in data["summaries"][p]["records"])
    vals = sum(len(a) for p in roots if p in data["summaries"] for r in data["summaries"][p]["records"] for a in r["args"].values())
    errs = sum(len(data["summaries"][p]["fallible"]) for p in roots if p in data["summaries"])
    cov = dict(
        explanation="Every listed function of the current tree was compiled to MIR, inlined and summarised; each record (an effect, raised error, "
                    "mutation or return shape, with the condition under which it happens and the provenance of its arguments) was compared with the "
                    "contract recorded from the pinned tree, and the hand-written rules were evaluated. On the pinned tree itself the contract comparison agrees by construction; only the rules are independent of it.",
        functions_under_contract=sum(1 for p in roots if p in data["summaries"]),
        records_compared=recs, guard_conjunctions=guards, provenance_edges=vals, fallible_calls=errs,
        functions_in_program=data["meta"]["functions"], closures_in_program=data["meta"]["closures"],
        renamed_functions=len(data["meta"]["aliased"]), renamed_types_and_fields=len(data["meta"]["retyped"]), folded_functions=len(res["raw"]) - len(res["diffs"]),
        rules=rr["evaluated"],
        samples=[p for p in list(roots)[:6]])
    return found, cov


def main():
    pid = sys.argv[1]
    t = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    os.makedirs(EVIDENCE, exist_ok=True)
    try:
        found, cov = decide(pid)
    except Exception as e:
        traceback.print_exc()
        print("ERROR property=%s: the analysis could not run: %s" % (pid, str(e)[:300]))
        return 2
    sup = {k["key"]: k for k in known() if k["property"] == pid}
    new = []
    for f in found:
        if f["key"] in sup:
            print("KNOWN-FINDING: property=%s %s" % (pid, sup[f["key"]]["what"]))
        else:
            new.append(f)
    replay = os.path.join(EVIDENCE, pid + ".violation.json")
    if os.path.exists(replay):
        os.remove(replay)
    ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=int(os.environ.get("VERIF_SEED", "1") or 1),
              level="other", coverage=cov, wall_s=round(time.time() - t, 3), violations=len(new),
              assumptions=["external crates behave as their documentation says", "MIR of the pinned nightly compiler is a faithful translation",
                           "the contracts in /verif/contracts, recorded from the pinned tree, describe behaviour that satisfies the property"])
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    if not new:
        print("OK property=%s functions=%d records=%d rules=%d" % (pid, cov["functions_under_contract"], cov["records_compared"], len(cov["rules"])))
        return 0
    with open(replay, "w") as fh:
        json.dump(new, fh, indent=1)
    for f in new[:20]:
        print("%s: %s (%s): %s" % (", ".join(f["where"][:3]) or "-", f["function"], f["rule"], f["construct"]))
        print("    expected: %s" % str(f["expected"])[:400])
        print("    found:    %s" % str(f["found"])[:400])
    print("VIOLATION property=%s replay=%s" % (pid, replay))
    return 1


if __name__ == "__main__":
    sys.exit(main())
