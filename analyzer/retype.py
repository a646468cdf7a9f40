"""Types, variants and fields that were only renamed or moved are given their recorded names before analysis."""
import re

ADT = re.compile(r'\["adt","([\w:]+)","(\w+)",\[((?:"\w+",?)*)\],([01])\]')
DISCR = re.compile(r'"([\w:]+)",\[((?:\["-?\d+","\w+"\],?)+)\]\]')


def shapes(texts, own):
    """{type: {variant: [fields]}} of the workspace's types, as far as the program builds or matches them."""
    out = {}
    for t in texts:
        for p, v, fs, en in set(ADT.findall(t)):
            if p.split("::")[0] in own:
                out.setdefault(p, {})[v if en == "1" else "struct"] = re.findall(r"\w+", fs)
        for p, vs in set(DISCR.findall(t)):
            if p.split("::")[0] in own:
                for v in re.findall(r'"-?\d+","(\w+)"', vs):
                    out.setdefault(p, {}).setdefault(v, None)
    return out


def last(p):
    return p.rsplit("::", 1)[-1]


def same(a, b):
    return set(a) == set(b) and all(a[v] is None or b[v] is None or a[v] == b[v] for v in a)


def changes(gold, cur):
    """[(regular expression, replacement)] turning the current names into the recorded ones, and what was renamed."""
    subs, told = [], []
    gone, new = [p for p in gold if p not in cur], [p for p in cur if p not in gold]
    back = {}
    for g in gone:
        c = [p for p in new if same(gold[g], cur[p])]
        named = [p for p in c if last(p) == last(g)]
        c = named if len(named) == 1 else c
        if len(c) == 1 and c[0] not in back and sum(same(gold[x], cur[c[0]]) for x in gone) == 1:
            back[c[0]] = g
    for n in sorted(back, key=len, reverse=True):
        g = back[n]
        subs.append((r"(?<![\w:])%s(?!\w)" % re.escape(n), g))
        if "struct" in gold[g] and last(n) != last(g):
            subs.append((r'\["adt","%s","%s"' % (g, last(n)), '["adt","%s","%s"' % (g, last(g))))
        told.append((n, g))
        cur[g] = cur[n]
    allv = [v for p in cur for v in cur[p]]
    for p in gold:
        if p not in cur:
            continue
        gv, cv = gold[p], cur[p]
        a, b = [v for v in gv if v not in cv], [v for v in cv if v not in gv]
        if len(a) == len(b) == 1 and len(gv) == len(cv) and "struct" not in (a[0], b[0]) and allv.count(b[0]) == 1:
            for pre in (r'\["v",\d+,', r'\["-?\d+",', r'\["adt","%s",' % re.escape(p), r'"e":'):
                subs.append((r'(%s)"%s"' % (pre, b[0]), r'\1"%s"' % a[0]))
            told.append((p + "::" + b[0], a[0]))
            cv[a[0]] = cv.pop(b[0])
        for v in gv:
            fa, fb = gv[v], cv.get(v)
            if not fa or not fb or len(fa) != len(fb) or fa == fb:
                continue
            ga, gb = [f for f in fa if f not in fb], [f for f in fb if f not in fa]
            if not ga or len(ga) > 1 and [fa.index(f) for f in ga] != [fb.index(f) for f in gb]:
                continue
            for old, now in zip(ga, gb):
                if any(now in (cv[w] or ()) for w in cv if w != v):
                    continue
                subs.append((r'(\["f",\d+,)"%s"(,"%s"\])' % (now, re.escape(p)), r'\1"%s"\2' % old))
                name = last(p) if v == "struct" else v
                pat = r'(\["adt","%s","%s",\[(?:"\w+",)*)"%s"' % (re.escape(p), name, now)
                subs.append((pat, r'\1"%s"' % old))
                told.append(("%s.%s" % (p, now), old))
    return subs, told


def apply(text, subs):
    for a, b in subs:
        text = re.sub(a, b, text)
    return text

