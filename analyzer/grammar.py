"""The revset grammar: its productions, each with the contract of the code it runs.

The productions are read from the grammar file of the current tree; what an alternative builds is taken
from the compiled action function, so only its meaning counts.
"""
import json, os, re
import facts
from flat import term_succ
from summary import Summary

FILE = "git-branchless-revset/src/grammar.lalrpop"
MODULE = "git_branchless_revset::grammar::__action"
TOKEN = re.compile(r"""//[^\n]*|/\*.*?\*/|\s+|r\#"(?P<raw1>.*?)"\#|r"(?P<raw>[^"]*)"|"(?P<str>(?:[^"\\]|\\.)*)"|(?P<chr>'(?:[^'\\]|\\.)')"""
                   r"""|(?P<life>'\w+)|(?P<id>\w+)|(?P<arrow>=>[?@]?[LR]?)|(?P<p>::|.)""", re.S | re.X)
OPEN, CLOSE = "([{", ")]}"


def tokens(text):
    out = []
    for m in TOKEN.finditer(text):
        k = m.lastgroup
        if k is None:
            continue
        if k in ("raw", "raw1"):
            out.append(("str", "r/%s/" % m.group(k)))
        elif k == "str":
            out.append(("str", '"%s"' % m.group(k)))
        else:
            out.append((k, m.group(k)))
    return out


def split(ts, sep):
    """Split at separators outside brackets."""
    out, cur, depth = [], [], 0
    for t in ts:
        if t[0] == "p" and t[1] in OPEN:
            depth += 1
        elif t[0] == "p" and t[1] in CLOSE:
            depth -= 1
        if depth == 0 and t == ("p", sep):
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    return [x for x in out + [cur] if x]


def symbols(ts):
    """Symbols of an alternative, bindings dropped: ("T", text) or ("N", name), with a suffix for repetition."""
    out, i = [], 0
    while i < len(ts):
        k, v = ts[i]
        if (k, v) == ("p", "<"):
            d, j = 1, i + 1
            while d:
                d += {"<": 1, ">": -1}.get(ts[j][1] if ts[j][0] == "p" else "", 0)
                j += 1
            inner = ts[i + 1:j - 1]
            if len(inner) > 2 and inner[0] == ("id", "mut"):
                inner = inner[1:]
            if len(inner) > 1 and inner[0][0] == "id" and inner[1] == ("p", ":"):
                inner = inner[2:]
            out += symbols(inner)
            i = j
        elif (k, v) == ("p", "("):
            d, j = 1, i + 1
            while d:
                d += {"(": 1, ")": -1}.get(ts[j][1] if ts[j][0] == "p" else "", 0)
                j += 1
            out.append(("G", tuple(symbols(ts[i + 1:j - 1])), ""))
            i = j
        elif k == "p" and v in "*+?" and out:
            a, b, s = out.pop()
            out.append((a, b, s + v))
            i += 1
        else:
            out.append(("T" if k == "str" else "N", v, ""))
            i += 1
    return out


def productions(text):
    ts = tokens(text)
    out, i, start = [], 0, None
    while i < len(ts):
        # [pub] Name : Type = alternatives
        pub = ts[i] == ("id", "pub")
        j = i + (1 if pub else 0)
        if ts[j][0] == "id" and ts[j][1] not in ("use", "grammar", "extern", "match") and j + 1 < len(ts) and ts[j + 1] == ("p", ":"):
            name = ts[j][1]
            if pub and start is None:
                start = name
            j += 2
            while ts[j] != ("p", "="):
                j += 1
            j += 1
            if ts[j] == ("p", "{"):
                d, e = 1, j + 1
                while d:
                    d += {"{": 1, "}": -1}.get(ts[e][1] if ts[e][0] == "p" else "", 0)
                    e += 1
                body, i = ts[j + 1:e - 1], e
            else:
                d, e = 0, j
                while d or ts[e] != ("p", ";"):
                    d += {"{": 1, "}": -1, "(": 1, ")": -1}.get(ts[e][1] if ts[e][0] == "p" else "", 0)
                    e += 1
                body, i = ts[j:e], e + 1
            for alt in split(body, ","):
                a = next((x for x, t in enumerate(alt) if t[0] == "arrow"), len(alt))
                out.append((name, tuple(symbols(alt[:a])), " ".join(t[1] for t in alt[a + 1:])))
        else:
            while i < len(ts) and ts[i] != ("p", ";"):
                i += 1
            i += 1
    return start, out


def show(sym, name):
    k, v, s = sym
    if k == "G":
        return "(%s)%s" % (" ".join(show(x, name) for x in v), s)
    return (v if k == "T" else name.get(v, v)) + s


def colours(start, prods):
    """Names for the nonterminals that do not depend on what they are called."""
    nts = {p[0] for p in prods}
    col = {n: "start" if n == start else "N" for n in nts}
    for _ in range(len(nts) + 1):
        keys = {n: (col[n], tuple(sorted(" ".join(show(x, col) for x in p[1]) for p in prods if p[0] == n))) for n in nts}
        ids = {k: i for i, k in enumerate(sorted(set(keys.values())))}
        col = {n: "N%d" % ids[keys[n]] for n in nts}
    return col


def remembers(fl):
    """Flags tested in a loop that one iteration sets, and whether an iteration clears them again."""
    succ = {b: set(term_succ(x[1])) for b, x in enumerate(fl.blocks) if x is not None}
    reach = {}
    for b in succ:
        seen, work = set(), list(succ[b])
        while work:
            x = work.pop()
            if x not in seen and x in succ:
                seen.add(x)
                work += succ[x]
        reach[b] = seen
    cyc = [b for b in succ if b in reach[b]]
    sets, out = {}, []
    for b in cyc:
        for place, rv in fl.blocks[b][0]:
            if rv[0] == "use" and rv[1][0] == "k" and rv[1][1].get("ty") == "bool" and place is not None and not place[1]:
                sets.setdefault(place[0], set()).add(bool((rv[1][1].get("v") or {}).get("i")))
    for l, vals in sorted(sets.items()):
        if l in fl.names:
            out.append("set and cleared" if len(vals) == 2 else "only set" if True in vals else "only cleared")
    return sorted(out)


def describe(prog):
    """[(nonterminal, symbols, meaning)] of the current tree."""
    with open(os.path.join(facts.REPO, FILE)) as fh:
        start, prods = productions(fh.read())
    out = []
    for i, (nt, syms, text) in enumerate(prods):
        f = prog.fns.get(MODULE + str(i + 1))
        if f is not None and f.argc == len(syms) + 1:
            sm = Summary(prog, MODULE + str(i + 1))
            c = sm.contract()
            what = dict(does=sorted(json.dumps([r["sink"], sorted(map(sorted, r["guard"])), r["args"]], sort_keys=True) for r in c["records"]),
                        order=c["order"])
            flags = remembers(sm.fl)
        else:
            what, flags = dict(text=text), []
        out.append(dict(nt=nt, symbols=[list(s) for s in syms], what=what, flags=flags))
    return dict(start=start, productions=out)


def freeze(s):
    return (s[0], tuple(freeze(x) for x in s[1]) if s[0] == "G" else s[1], s[2])


def lines(g, names=None, part="what"):
    ps = [(p["nt"], tuple(freeze(s) for s in p["symbols"]), p[part]) for p in g["productions"]]
    name = names(g["start"], ps) if names else {}
    return {"%s := %s" % (name.get(nt, nt), " ".join(show(s, name) for s in syms)): what for nt, syms, what in ps}


def compare(gold, cur):
    """[(production, expected, found)]"""
    a, b = lines(gold), lines(cur)
    if set(a) != set(b):
        a2, b2 = lines(gold, colours), lines(cur, colours)
        if set(a2) == set(b2):
            a, b = a2, b2
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append((k, a.get(k, "no such production"), b.get(k, "no such production")))
    return out
