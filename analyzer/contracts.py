"""Contracts: the effect summaries recorded from the pinned tree, and their comparison with the
summaries of the current tree."""
import hashlib, json, os, pickle, re, signal, sys, time, traceback
from multiprocessing import Pool

import callgraph
import cli
import grammar
import facts
from flat import Program, strip_generics
from summary import Summary

VERIF = facts.VERIF
CONTRACTS = os.path.join(VERIF, "contracts")
SKIP = ("testing", "regression", "profile")
INLINE_BLOCKS = 15
FOLD_LIMIT = 30      # moved functions; beyond this the trees are not comparable by folding

# wrapping and unwrapping an optional object id, also written as a match
OID_CONVERSION = re.compile(r"MaybeZeroOid as core::convert::From<(core::option::Option<)?branchless::git::oid::NonZeroOid>"
                            r"|<impl core::convert::From<branchless::git::oid::MaybeZeroOid> for core::option::Option<")


def rootable(p, f):
    """Functions that get a contract of their own."""
    if f.kind != "fn" or f.auto or f.isasync:
        return False
    if "::testing::" in p or p.startswith("branchless::testing"):
        return False
    if "::grammar::" in p and "__" in p:
        return False
    if p.endswith("__stability"):
        return False
    return True


def make_boundary(prog):
    """Boundary of the pinned tree: every function except small private ones."""
    out = []
    for p, f in prog.fns.items():
        if f.kind != "fn":
            continue
        if not f.pub and not f.ti and len([b for b in f.bbs if b]) <= INLINE_BLOCKS and "__static_ref_initialize" not in p:
            continue
        if OID_CONVERSION.search(p):
            continue
        out.append(p)
    return sorted(out)


def load_boundary():
    with open(os.path.join(CONTRACTS, "boundary.json")) as fh:
        return json.load(fh)


def sig(f):
    return list(f.locals[:1 + f.argc])


def aliases(prog, bound):
    """Map renamed or moved functions of the current tree to their recorded names."""
    missing = {p: s for p, s in bound.items() if p not in prog.fns}
    if not missing:
        return {}
    new = {p: f for p, f in prog.fns.items() if f.kind == "fn" and p not in bound and not f.auto}
    res = {}
    for m, s in missing.items():
        c = [p for p, f in new.items() if sig(f) == s["sig"] and p not in res]
        same = [p for p in c if strip_generics(p).split("::")[-1] == strip_generics(m).split("::")[-1]]
        pick = same if len(same) == 1 else c
        if len(pick) != 1 and len(c) > 1:
            pick = [p for p in c if p.rsplit("::", 1)[0] == m.rsplit("::", 1)[0]]
        if len(pick) == 1:
            res[pick[0]] = m
    return res


def program(d):
    bound = load_boundary()
    with open(os.path.join(CONTRACTS, "types.json")) as fh:
        prog = Program(d, skip=SKIP, shapes=json.load(fh))
    al = aliases(prog, bound)
    if al:
        prog.rename(al)
    prog.f0 = set(bound)
    prog.aliased = al
    return prog


_P = None
_DEEP = False
DEEP_SECONDS = 150      # for all functions compared across a moved cut, per version
_UNTIL = None


class TooLong(Exception):
    pass


def _alarm(*_):
    raise TooLong()


def _one(p):
    try:
        if _DEEP:
            signal.signal(signal.SIGALRM, _alarm)
            signal.alarm(max(1, int(_UNTIL - time.time())))
        return p, (Summary(_P, p, depth=8, gdepth=4) if _DEEP else Summary(_P, p)).contract(), None
    except Exception:
        return p, None, traceback.format_exc()
    finally:
        if _DEEP:
            signal.alarm(0)


def summarise(prog, names=None, procs=None, deep=False):
    """{function: contract} for all boundary functions."""
    global _P, _DEEP, _UNTIL
    _P, _DEEP, _UNTIL = prog, deep, time.time() + DEEP_SECONDS
    names = names or [p for p, f in prog.fns.items() if rootable(p, f) and prog.is_boundary(p)]
    names.sort(key=lambda p: -len(prog.fns[p].bbs))
    out, errs = {}, {}
    with Pool(procs or os.cpu_count() or 4) as po:
        for p, c, e in po.imap_unordered(_one, names, chunksize=1 if deep else 4):
            if e:
                errs[p] = e
            else:
                out[p] = c
    return out, errs


REFERENCE = os.path.join(CONTRACTS, "reference.tar.xz")


def store_reference(d):
    """Keep the pinned tree's facts, so that both sides can be re-analysed with other functions folded in."""
    import glob, tarfile
    with tarfile.open(REFERENCE, "w:xz") as t:
        for f in sorted(glob.glob(os.path.join(d, "*.json"))):
            if ".bin." in f or any(x in os.path.basename(f) for x in SKIP):
                continue
            i = tarfile.TarInfo(os.path.basename(f))
            i.size = os.path.getsize(f)
            with open(f, "rb") as fh:
                t.addfile(i, fh)


def reference():
    """Program of the pinned tree."""
    import tarfile
    h = hashlib.sha256(open(REFERENCE, "rb").read()).hexdigest()[:16]
    out = os.path.join(facts.BUILD, "reference-" + h)
    if not os.path.exists(out):
        tmp = "%s.%d" % (out, os.getpid())
        with tarfile.open(REFERENCE) as t:
            t.extractall(tmp)
        try:
            os.rename(tmp, out)
        except OSError:
            pass
    prog = Program(out, skip=SKIP)
    prog.f0 = set(load_boundary())
    return prog


def callers_of(prog):
    """{function: functions that call it or take it as a value}, closures counted as their owner."""
    out = {}

    def owner(p):
        return p.split("::{closure", 1)[0]

    def walk(o, p):
        if isinstance(o, dict):
            if "fn" in o:
                for x in o["fn"][:2]:
                    if x in prog.fns:
                        out.setdefault(x, set()).add(owner(p))
        elif isinstance(o, (list, tuple)):
            for x in o:
                walk(x, p)
    for p, f in prog.fns.items():
        walk(f.bbs, p)
        walk(f.prom, p)
    return out


def fold(differ, data_prog):
    """Functions of `differ` whose difference remains when differing functions are analysed as part of their callers."""
    global _P
    ref, cur = reference(), data_prog
    cr, cc = callers_of(ref), callers_of(cur)
    near = {}

    def callers(f):
        """Boundary functions calling f directly or through folded-in ones."""
        if f not in near:
            near[f] = set()
            for c in cr.get(f, set()) | cc.get(f, set()):
                if ref.is_boundary(c) if c in ref.fns else cur.is_boundary(c):
                    near[f].add(c)
                else:
                    near[f] |= callers(c)
        return near[f]
    # Only where the cut between functions moved: the function is gone, has another
    # signature, or a caller changed as well.
    inner = {f for f in differ if (f not in ref.fns or cr.get(f)) and (f not in cur.fns or cc.get(f))
             and not (f in ref.fns and ref.fns[f].ti)
             and (f not in ref.fns or f not in cur.fns or sig(ref.fns[f]) != sig(cur.fns[f]) or callers(f) & differ - {f})}
    if len(inner) > FOLD_LIMIT:
        return set(differ), {}
    if not inner:
        return differ - all_rewired(ref, cur, differ), {}
    tops = {}      # inner function -> outermost callers to compare

    def up(f, seen):
        res = set()
        for c in cr.get(f, set()) | cc.get(f, set()):
            if c in seen:
                continue
            seen.add(c)
            if c in inner or not (ref.is_boundary(c) if c in ref.fns else cur.is_boundary(c)):
                res |= up(c, seen)
            else:
                res.add(c)
        return res
    for f in inner:
        tops[f] = up(f, {f})
    todo = sorted(set(differ) - inner | {t for x in tops.values() for t in x})
    for p in (ref, cur):
        p.f0 = p.f0 - inner
        p.boundary_cache = {}
        p._eff = None
    todo = [t for t in todo if t in ref.fns and t in cur.fns]
    a, ea = summarise(ref, list(todo), deep=True)
    b, eb = summarise(cur, list(todo), deep=True)
    bad = {}
    for t in todo:
        if t in ea or t in eb:
            bad[t] = []
        else:
            ds = compare(a[t], b[t])
            if ds:
                bad[t] = ds
    left = {f for f in differ if f not in inner and (f in bad or f not in todo)}
    for f in inner:
        if not tops[f] or any(t in bad or t not in todo for t in tops[f]):
            left.add(f)
    return left - all_rewired(ref, cur, left - inner), bad


def callees(prog, f):
    """Boundary functions f calls, directly or through folded-in ones."""
    out, seen, work = set(), set(), [f]

    def walk(o):
        if isinstance(o, dict):
            if "fn" in o:
                for x in o["fn"][:2]:
                    if x in prog.fns:
                        if prog.is_boundary(x):
                            out.add(x)
                        else:
                            work.append(x)
        elif isinstance(o, (list, tuple)):
            if len(o) > 1 and o[0] == "closure" and o[1] in prog.fns:
                work.append(o[1])
            for x in o:
                if isinstance(x, (list, tuple, dict)):
                    walk(x)
    while work:
        x = work.pop()
        if x not in seen:
            seen.add(x)
            walk(prog.fns[x].bbs)
            walk(prog.fns[x].prom)
    return out


_PAIR = None


def _rewired(f):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(max(1, int(_UNTIL - time.time())))
    try:
        return f, rewired(_PAIR[0], _PAIR[1], f)
    except TooLong:
        return f, False
    finally:
        signal.alarm(0)


def all_rewired(ref, cur, names):
    global _PAIR, _UNTIL
    _PAIR, _UNTIL = (ref, cur), time.time() + DEEP_SECONDS
    if not names:
        return set()
    with Pool(min(len(names), os.cpu_count() or 4)) as po:
        return {f for f, ok in po.imap_unordered(_rewired, sorted(names)) if ok}


def rewired(ref, cur, f):
    """Whether f does the same once the functions only one of its versions calls are analysed as part of it."""
    if f not in ref.fns or f not in cur.fns:
        return False
    saved = [(p, p.f0, p.boundary_cache) for p in (ref, cur)]
    try:
        for _ in range(3):
            extra = {x for x in callees(ref, f) ^ callees(cur, f) if (x not in ref.fns or not ref.fns[x].isasync) and x != f}
            if not extra or len(extra) > 8:
                return False
            for p in (ref, cur):
                p.f0 = p.f0 - extra
                p.boundary_cache = {}
                p._eff = None
            a, b = (Summary(p, f, depth=8, gdepth=4).contract() for p in (ref, cur))
            if not compare(a, b):
                return True
        return False
    except Exception:
        return False
    finally:
        for p, f0, bc in saved:
            p.f0, p.boundary_cache, p._eff = f0, bc, None


def differences():
    """{function: differences} between the recorded contracts and the current tree, cached next to the facts."""
    import fcntl
    d, data = current()
    h = hashlib.sha256(code_hash().encode())
    fd = os.path.join(CONTRACTS, "fn")
    for f in sorted(os.listdir(fd)):
        h.update(open(os.path.join(fd, f), "rb").read())
    h.update(open(REFERENCE, "rb").read())
    f = os.path.join(d, "diff-%s.pickle" % h.hexdigest()[:16])
    with open(os.path.join(facts.BUILD, "difflock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(f):
            with open(f, "rb") as fh:
                return data, pickle.load(fh)
        gold = load_contracts()
        cur = data["summaries"]
        out = {}
        for p in gold:
            if p not in cur:
                why = data["errors"].get(p)
                out[p] = [dict(kind="missing-function", sink=p, at=[], want="function analysed", got=why[-300:] if why else "not found")]
            else:
                ds = compare(gold[p], cur[p])
                if ds:
                    out[p] = ds
        raw = sorted(out)
        bad = {}
        if out:
            left, bad = fold(set(out), program(d))
            out = {p: x for p, x in out.items() if p in left}
        res = dict(diffs=out, raw=raw, folded=sorted(bad))
        with open(f + ".tmp", "wb") as fh:
            pickle.dump(res, fh)
        os.rename(f + ".tmp", f)
        return data, res


def code_hash():
    h = hashlib.sha256()
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(here)):
        if f.endswith(".py"):
            h.update(open(os.path.join(here, f), "rb").read())
    for f in ("boundary.json", "enums.json", "types.json"):
        h.update(open(os.path.join(CONTRACTS, f), "rb").read())
    return h.hexdigest()[:16]


def current():
    """(facts dir, summaries, errors, meta) for the current tree, cached next to the facts."""
    import fcntl
    d = facts.ensure()
    with open(os.path.join(facts.BUILD, "sumlock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        f = os.path.join(d, "summary-%s.pickle" % code_hash())
        if os.path.exists(f):
            with open(f, "rb") as fh:
                return d, pickle.load(fh)
        prog = program(d)
        out, errs = summarise(prog)
        meta = dict(functions=sum(1 for x in prog.fns.values() if x.kind == "fn"),
                    closures=sum(1 for x in prog.fns.values() if x.kind == "closure"),
                    aliased=prog.aliased, retyped=prog.retyped,
                    files=sorted({x.file for x in prog.fns.values()}),
                    lines={p: (x.file, x.line) for p, x in prog.fns.items()})
        data = dict(summaries=out, errors=errs, meta=meta, graph=callgraph.build(prog), grammar=grammar.describe(prog), cli=cli.describe(prog))
        with open(f + ".tmp", "wb") as fh:
            pickle.dump(data, fh)
        os.rename(f + ".tmp", f)
        return d, data


# ---------------------------------------------------------------- storage
def group_of(p):
    q = p
    m = re.match(r"<+(?:impl )?&?(?:'\w+ )?(?:mut )?([\w:]+)", p)
    if p.startswith("<"):
        m = re.search(r"\b(branchless|git_branchless\w*|scm_\w+)::([\w:]*)", p)
        q = m.group(0) if m else "misc"
    segs = re.sub(r"<.*?>", "", q).split("::")
    return segs[0] + (("." + segs[1] + ("." + segs[2] if len(segs) > 3 and segs[1] in ("core", "git") else "")) if len(segs) > 2 else "")


def clean(c):
    c = json.loads(json.dumps(c))
    for r in c["records"]:
        r.pop("_at", None)
    return c


def store(summaries):
    groups = {}
    for p, c in summaries.items():
        groups.setdefault(re.sub(r"\W+", "-", group_of(p)).strip("-"), {})[p] = clean(c)
    fd = os.path.join(CONTRACTS, "fn")
    os.makedirs(fd, exist_ok=True)
    for f in os.listdir(fd):
        if f[:-5] not in groups:
            os.remove(os.path.join(fd, f))
    for g, d in groups.items():
        with open(os.path.join(fd, g + ".json"), "w") as fh:
            json.dump(d, fh, indent=1, sort_keys=True)
            fh.write("\n")


def load_contracts():
    out = {}
    fd = os.path.join(CONTRACTS, "fn")
    for f in sorted(os.listdir(fd)):
        with open(os.path.join(fd, f)) as fh:
            out.update(json.load(fh))
    return out


# ---------------------------------------------------------------- comparison
def key(r):
    return json.dumps([r["guard"], r["args"], r.get("errors")], sort_keys=True)


def bysink(recs):
    d = {}
    for r in recs:
        d.setdefault(r["sink"], []).append(r)
    return d


def compare(gold, cur):
    """Differences between the recorded contract and the current summary."""
    out = []
    g, c = bysink(gold["records"]), bysink(cur["records"])
    for s in sorted(set(g) | set(c)):
        gr, cr = list(g.get(s, [])), list(c.get(s, []))
        gk, ck = [key(r) for r in gr], [key(r) for r in cr]
        for k in list(gk):
            if k in ck:
                i, j = gk.index(k), ck.index(k)
                gk.pop(i), gr.pop(i), ck.pop(j), cr.pop(j)
        if not gr and not cr:
            continue
        if len(g.get(s, ())) != len(c.get(s, ())) and merged_of(gold, s) is not None and merged_of(gold, s) == merged_of(cur, s):
            continue
        out += pair(s, gr, cr)
    gf, cf = gold["fallible"], cur["fallible"]
    for k in sorted(set(gf) & set(cf)):
        if gf[k] != cf[k]:
            out.append(dict(kind="error-handling", sink=k, at=[], want=gf[k], got=cf[k]))
    cur_order = {tuple(x[:2]) for x in cur.get("order", ())}
    for a, b, *free in gold.get("order", ()):
        if not free and (b, a) in cur_order:
            out.append(dict(kind="order", sink="order of %s and %s" % (a, b), at=[], want="%s before %s" % (a, b), got="%s before %s" % (b, a)))
    gt, ct = gold.get("tests"), cur.get("tests")
    if gt and ct:
        gone = set(gt["quiet"]) - set(ct["quiet"]) - set(ct["shown"])
        new = set(ct["quiet"]) - set(gt["quiet"]) - set(gt["shown"])
        if gone or new:
            out.append(dict(kind="value", sink="tests", arg="0", at=[], want=sorted(gone), got=sorted(new)))
    return out


def merged_of(con, s):
    m = con.get("merged", {}).get(s)
    if m is None:
        rs = [r for r in con["records"] if r["sink"] == s]
        if len(rs) != 1:
            return None
        m = dict(guard=rs[0]["guard"], args=rs[0]["args"], errors=rs[0].get("errors"))
    return json.dumps([m["guard"], {k: sorted(x) for k, x in m["args"].items() if x}, m.get("errors")], sort_keys=True)


def pair(s, gr, cr):
    """Explain the difference between unmatched records of one sink."""
    out = []
    gr, cr = list(gr), list(cr)
    cand = []
    for i, a in enumerate(gr):
        for j, b in enumerate(cr):
            d = 0
            d += len(set(map(str, a["guard"])) ^ set(map(str, b["guard"])))
            for p in set(a["args"]) | set(b["args"]):
                d += len(set(a["args"].get(p, ())) ^ set(b["args"].get(p, ())))
            cand.append((d, i, j))
    cand.sort()
    ui, uj = set(), set()
    for d, i, j in cand:
        if i in ui or j in uj:
            continue
        ui.add(i), uj.add(j)
        a, b = gr[i], cr[j]
        if a["guard"] != b["guard"]:
            out.append(dict(kind="condition", sink=s, at=b.get("_at", []), want=a["guard"], got=b["guard"]))
        for p in sorted(set(a["args"]) | set(b["args"])):
            x, y = set(a["args"].get(p, ())), set(b["args"].get(p, ()))
            if x != y:
                out.append(dict(kind="value", sink=s, arg=p, at=b.get("_at", []), want=sorted(x - y), got=sorted(y - x)))
        if a.get("errors") != b.get("errors"):
            out.append(dict(kind="error-handling", sink=s, at=b.get("_at", []), want=a.get("errors"), got=b.get("errors")))
    for i, a in enumerate(gr):
        if i not in ui:
            out.append(dict(kind="missing", sink=s, at=[], want=a, got=None))
    for j, b in enumerate(cr):
        if j not in uj:
            out.append(dict(kind="extra", sink=s, at=b.get("_at", []), want=None, got=b))
    return out


def bless():
    d = facts.ensure()
    prog = Program(d, skip=SKIP)
    b = make_boundary(prog)
    os.makedirs(CONTRACTS, exist_ok=True)
    own = {f.crate for f in prog.fns.values()}
    with open(os.path.join(CONTRACTS, "enums.json"), "w") as fh:
        json.dump({e: v for e, v in prog.enums.items() if e.split("::")[0] not in own}, fh, indent=0, sort_keys=True)
        fh.write("\n")
    with open(os.path.join(CONTRACTS, "types.json"), "w") as fh:
        json.dump(prog.shapes, fh, indent=0, sort_keys=True)
        fh.write("\n")
    with open(os.path.join(CONTRACTS, "boundary.json"), "w") as fh:
        json.dump({p: dict(sig=sig(prog.fns[p])) for p in b}, fh, indent=0, sort_keys=True)
        fh.write("\n")
    prog.f0 = set(b)
    out, errs = summarise(prog)
    for p, e in errs.items():
        print("ERROR", p, e)
    store(out)
    with open(os.path.join(CONTRACTS, "grammar.json"), "w") as fh:
        json.dump(grammar.describe(prog), fh, indent=1, sort_keys=True)
        fh.write("\n")
    with open(os.path.join(CONTRACTS, "cli.json"), "w") as fh:
        json.dump(cli.describe(prog), fh, indent=1, sort_keys=True)
        fh.write("\n")
    store_reference(d)
    print("blessed", len(out), "functions; boundary", len(b))


def diff_all(show=6):
    data, res = differences()
    for p, ds in sorted(res["diffs"].items()):
        print("##", p)
        for x in ds[:show]:
            print("  ", x["kind"], x["sink"], x.get("arg", ""), x["at"])
            print("      want", str(x["want"])[:1500])
            print("      got ", str(x["got"])[:1500])
    print("functions differing: %d (before folding %d: %s)" % (len(res["diffs"]), len(res["raw"]), res["raw"][:8]))
    return len(res["diffs"])


if __name__ == "__main__":
    if sys.argv[1] == "bless":
        bless()
    elif sys.argv[1] == "diff":
        sys.exit(1 if diff_all() else 0)
