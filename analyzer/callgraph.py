"""The whole program's call graph: who may call what, and which literals each function holds.

A call through a trait object, or of a trait method that could not be resolved, may go to every
implementation of that method in the workspace; a function or closure that is mentioned may be called.
"""
import re
from flat import strip_generics

OURS = re.compile(r"(branchless|git_branchless\w*|scm_\w+)::")
PEEK = re.compile(r"\bPeekable::peek(_mut)?$")
IMPL = re.compile(r"^<.* as (.+)>::(\w+)$")


def _walk(o, fns, strs):
    if isinstance(o, dict):
        if "fn" in o and isinstance(o["fn"], list):
            fns.add((o["fn"][0], o["fn"][1] or o["fn"][0], o["fn"][2] or ""))
            return
        if isinstance(o.get("s"), str):
            strs.add(o["s"])
        for x in o.values():
            _walk(x, fns, strs)
    elif isinstance(o, list):
        if len(o) > 1 and o[0] == "closure" and isinstance(o[1], str):
            fns.add((o[1], o[1], ""))
        for x in o:
            _walk(x, fns, strs)


def peeks(f):
    """(number of places where an iterator is peeked at, lines of those that are come back to with nothing done in between).

    Any other call may move the iterator on, so only a way round that calls nothing is certain to see the same element again.
    """
    def to(b):
        t = f.bbs[b][1] if f.bbs[b] else ["unreachable"]
        if t[0] in ("goto", "drop"):
            return [t[1]]
        return [x for _, x in t[3]] + [t[4]] if t[0] == "switch" else []

    n, out = 0, []
    for b, bb in enumerate(f.bbs):
        t = bb[1] if bb else ["unreachable"]
        if t[0] != "call" or not isinstance(t[1], dict) or "fn" not in t[1] or t[4] is None:
            continue
        if not PEEK.search(strip_generics(t[1]["fn"][1] or t[1]["fn"][0])):
            continue
        n += 1
        seen, work = set(), [t[4]]
        while work:
            x = work.pop()
            if x not in seen:
                seen.add(x)
                work += to(x)
        if b in seen:
            out.append(bb[2])
    return n, out


def _names(o, name):
    if isinstance(o, (list, tuple)):
        return any(_names(x, name) for x in o)
    return any(_names(x, name) for x in o.values()) if isinstance(o, dict) else isinstance(o, str) and name in o


def build(prog):
    impls = {}
    for p in prog.fns:
        m = IMPL.match(re.sub(r"::\{closure#\d+\}.*$", "", p))
        if m and "{closure" not in p:
            impls.setdefault(strip_generics(m.group(1)) + "::" + m.group(2), []).append(p)
    g = {}
    for p, f in prog.fns.items():
        fns, strs = set(), set()
        _walk(f.bbs, fns, strs)
        _walk(f.prom, fns, strs)
        calls, ext = set(), set()
        for path, res, self_ty in fns:
            if res in prog.fns:
                calls.add(res)
                continue
            q = strip_generics(path)
            if q in impls and (OURS.match(q) or "dyn " in self_ty):
                calls.update(impls[q])
            ext.add(strip_generics(res))
        g[p] = dict(calls=sorted(calls), ext=sorted(ext), strs=sorted(strs), at=[f.file, f.line], peeks=peeks(f),
                    former=_names(f.bbs, "orig_path"))
    return g


def reach(g, roots):
    """{reachable function: the function it was reached from}"""
    seen = {r: None for r in roots}
    work = list(roots)
    while work:
        x = work.pop()
        for y in g[x]["calls"]:
            if y not in seen and y in g:
                seen[y] = x
                work.append(y)
    return seen


def path_to(seen, x):
    out = []
    while x is not None:
        out.append(x)
        x = seen[x]
    return out[::-1]
