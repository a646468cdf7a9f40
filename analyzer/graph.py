"""Feasible-path graph, control dependence and guards of an inlined body.

A node of the graph is (block, facts) where facts are the statically known
variants/booleans of locals that are later branched on; branches on a known
value have a single successor.  This makes `let b = x && y; if b`, a helper
returning a bool/Result, `matches!`, `any(..)`, and the direct form the same.
"""
from flat import strip_generics, last, targs, ty_head, WRAP, short

CMPS = {"Lt": lambda a, b: a < b, "Le": lambda a, b: a <= b, "Gt": lambda a, b: a > b, "Ge": lambda a, b: a >= b}
BINS = ("Eq", "Ne", "BitAnd", "BitOr") + tuple(CMPS)
TRACE_LE = ("tracing_core::metadata::Level",)


def op_key(op):
    return op[1] if op[0] == "p" else None


def fpath(proj):
    """Fact path of a projection, or None if not representable."""
    out = []
    for e in proj:
        if e[0] == "f":
            out.append(e[1])
        elif e[0] == "w":
            out.append("0")
        else:
            return None
    return tuple(out)


class Graph:
    CAP = 24000

    def __init__(self, flat):
        self.fl = flat
        self.track = self._tracked()
        self.live = self._liveness()
        ok = self._build()
        if not ok:
            # too many combinations: stop splitting on named variables
            self.track = {l for l in self.track if l not in flat.names or l == flat.ret}
            self.live = self._liveness()
            ok = self._build()
            self.degraded = 1
        else:
            self.degraded = 0
        if not ok:
            self.track = set()
            self.live = self._liveness()
            self.CAP = 10 ** 9
            self._build()
            self.degraded = 2
        self._prune()
        self._loops()
        self._postdom()

    # ------------------------------------------------------------ tracking
    def _tracked(self):
        fl = self.fl
        mutb = set()
        copies = []  # (dst, src)
        seeds = {fl.ret}
        assigned_known = set()
        uses = {}
        for stmts, term, _, _ in fl.blocks:
            for _, rv in stmts:
                for o in rv_ops(rv):
                    if o[0] == "p":
                        uses.setdefault(o[1][0], set()).add("other")
            if term[0] == "call":
                m = last(strip_generics(term[1]["path"]))
                for i, a in enumerate(term[2]):
                    if a[0] == "p":
                        uses.setdefault(a[1][0], set()).add(m if i == 0 else "other")

        def keeps(l, p):
            """A mutable borrow that cannot change which variant is there."""
            return not p and uses.get(l, set()) <= {"as_mut", "as_deref_mut"}

        for stmts, term, _, _ in fl.blocks:
            for (dl, dp), rv in stmts:
                k = rv[0]
                if k == "use" and rv[1][0] == "p":
                    copies.append((dl, rv[1][1][0]))
                elif k == "use":
                    assigned_known.add(dl)
                elif k == "ref":
                    if rv[2] and not keeps(dl, dp):
                        mutb.add(rv[1][0])
                    copies.append((dl, rv[1][0]))
                elif k == "discr":
                    seeds.add(rv[1][0])
                    copies.append((dl, rv[1][0]))
                    seeds.add(dl)
                elif k == "agg":
                    assigned_known.add(dl)
                    for o in rv[2]:
                        if o[0] == "p":
                            copies.append((dl, o[1][0]))
                elif k == "un":
                    if rv[2][0] == "p":
                        copies.append((dl, rv[2][1][0]))
                elif k == "bin" and rv[1] in BINS:
                    for o in rv[2:4]:
                        if o[0] == "p":
                            copies.append((dl, o[1][0]))
            if term[0] == "switch" and term[1][0] == "p":
                seeds.add(term[1][1][0])
            elif term[0] == "call":
                m = last(strip_generics(term[1]["path"]))
                if m in VARIANT_FNS or m == "not":
                    for a in term[2][:1]:
                        if a[0] == "p":
                            copies.append((term[3][0], a[1][0]))
                if m in ("from_residual", "le"):
                    assigned_known.add(term[3][0])
                if m == "from_residual" and term[2] and term[2][0][0] == "p":
                    copies.append((term[3][0], term[2][0][1][0]))
        # backward: which locals flow into branches
        rel = set(seeds)
        bysrc = {}
        bydst = {}
        for d, s in copies:
            bysrc.setdefault(s, set()).add(d)
            bydst.setdefault(d, set()).add(s)
        work = list(rel)
        while work:
            x = work.pop()
            for s in bydst.get(x, ()):
                if s not in rel:
                    rel.add(s)
                    work.append(s)
        # forward: which locals may hold something known
        known = set(assigned_known) | {fl.ret}
        work = list(known)
        while work:
            x = work.pop()
            for d in bysrc.get(x, ()):
                if d not in known:
                    known.add(d)
                    work.append(d)
        return ((rel & known) | self._retested()) - mutb | {fl.ret}

    def _retested(self):
        """Locals holding a value that more than one branch inspects, and the temporaries leading to it."""
        fl = self.fl
        defs = {}
        for b, (stmts, term, _, _) in enumerate(fl.blocks):
            for (dl, dp), rv in stmts:
                defs.setdefault(dl, []).append(rv if not dp else None)
            if term[0] == "call":
                dl, dp = term[3]
                defs.setdefault(dl, []).append(("call", term) if not dp else None)
        roots = {}
        for b, (stmts, term, _, _) in enumerate(fl.blocks):
            if term[0] != "switch" or term[1][0] != "p":
                continue
            work = [(*term[1][1], (), frozenset())]
            seen = set()
            while work and len(seen) < 60:
                l, proj, chain, was = work.pop()
                if (l, proj) in seen or l in was:
                    continue
                seen.add((l, proj))
                chain, was = chain + (l,), was | {l}
                ds = defs.get(l, ())
                srcs = []
                if 1 <= len(ds) <= 4 and None not in ds and l not in fl.params:
                    srcs = [x for x in (self._copied(rv, proj) for rv in ds) if x]
                if srcs:
                    work += [(*x, chain, was) for x in srcs]
                    continue
                p = fpath(proj)
                if p is not None:
                    r = roots.setdefault((l, p), [set(), set()])
                    r[0].add(b)
                    r[1].update(chain)
        out = set()
        for (l, p), (bs, chain) in roots.items():
            if len(bs) > 1:
                out |= chain
        self.retested = out
        return out

    def _copied(self, rv, proj):
        """The place whose variant or truth the value defined by rv, read through proj, follows."""
        src = None
        if rv[0] == "use" and rv[1][0] == "p":
            src = rv[1][1]
        elif rv[0] in ("ref", "discr"):
            src = rv[1]
        elif rv[0] == "un" and rv[1] == "Not" and rv[2][0] == "p":
            src = rv[2][1]
        elif rv[0] == "call":
            m = last(strip_generics(rv[1][1]["path"]))
            if (m in LINKS or m in COPY_FNS) and rv[1][2] and rv[1][2][0][0] == "p" and rv[1][1]["res"] not in self.fl.prog.fns:
                src = rv[1][2][0][1]
        return (src[0], src[1] + proj) if src else None

    def _liveness(self):
        fl = self.fl
        track = self.track
        n = len(fl.blocks)
        idx = {l: i for i, l in enumerate(sorted(track))}
        self._bit = {l: 1 << i for l, i in idx.items()}
        bit = self._bit
        use = [0] * n
        dfn = [0] * n
        succ = [[] for _ in range(n)]
        for b, (stmts, term, _, _) in enumerate(fl.blocks):
            u = d = 0

            def use_op(o):
                nonlocal u
                if o[0] == "p":
                    x = bit.get(o[1][0], 0)
                    if x & ~d:
                        u |= x

            def use_pl(p):
                nonlocal u
                x = bit.get(p[0], 0)
                if x & ~d:
                    u |= x

            for (dl, dp), rv in stmts:
                for o in rv_ops(rv):
                    use_op(o)
                if dl in bit and not dp and rv[0] != "wpush":
                    d |= bit[dl]
            k = term[0]
            if k == "goto":
                succ[b] = [term[1]]
            elif k == "nd":
                succ[b] = list(term[1])
            elif k == "switch":
                use_op(term[1])
                succ[b] = [t for _, t in term[3]] + ([term[4]] if term[4] is not None else [])
            elif k == "call":
                for a in term[2]:
                    use_op(a)
                dl, dp = term[3]
                if dl in bit and not dp:
                    d |= bit[dl]
                if term[4] is not None:
                    succ[b] = [term[4]]
            elif k == "ret":
                u |= bit.get(fl.ret, 0) & ~d
            use[b], dfn[b] = u, d
        pred = [[] for _ in range(n)]
        for b in range(n):
            for s in succ[b]:
                pred[s].append(b)
        live = [0] * n
        work = list(range(n))
        inw = [True] * n
        while work:
            b = work.pop()
            inw[b] = False
            out = 0
            for s in succ[b]:
                out |= live[s]
            x = use[b] | (out & ~dfn[b])
            if x != live[b]:
                live[b] = x
                for p in pred[b]:
                    if not inw[p]:
                        inw[p] = True
                        work.append(p)
        return live

    # ------------------------------------------------------------ transfer
    def _build(self):
        fl = self.fl
        self.nodes = []   # (block, env)
        self.succ = []    # list of (node, edge label) ; label: index into switch or None
        index = {}
        bit = self._bit
        live = self.live

        def get(b, env):
            lv = live[b]
            e = frozenset(x for x in env.items() if bit.get(x[0][0], 0) & lv)
            k = (b, e)
            i = index.get(k)
            if i is None:
                i = len(self.nodes)
                index[k] = i
                self.nodes.append(k)
                self.succ.append(None)
                work.append(i)
            return i

        work = []
        get(fl.entry, {})
        while work:
            i = work.pop()
            if len(self.nodes) > self.CAP:
                return False
            b, e = self.nodes[i]
            env = dict(e)
            stmts, term, _, _ = fl.blocks[b]
            for d, rv in stmts:
                self._stmt(env, d, rv)
            k = term[0]
            out = []
            if k == "goto":
                out = [(get(term[1], env), None)]
            elif k == "nd":
                out = [(get(t, env), ("nd", j)) for j, t in enumerate(term[1])]
            elif k == "switch":
                v = self._val(env, term[1])
                if v is not None:
                    t = None
                    for val, tt in term[3]:
                        if val == v:
                            t = tt
                    if t is None:
                        t = term[4]
                    if t is not None:
                        out = [(get(t, env), None)]
                else:
                    listed = [val for val, _ in term[3]]
                    for val, tt in term[3]:
                        out.append((get(tt, self._refine(env, term[1], val, listed)), ("sw", val)))
                    if term[4] is not None:
                        out.append((get(term[4], self._refine(env, term[1], None, listed)), ("sw", None)))
            elif k == "call":
                self._call(env, term)
                if term[4] is not None:
                    out = [(get(term[4], env), None)]
            self.succ[i] = out
        self.entry = 0
        return True

    def _val(self, env, op):
        """Known switch value (string) of an operand."""
        if op[0] == "k":
            v = op[1].get("v")
            if v and "i" in v:
                return str(v["i"])
            return None
        l, proj = op[1]
        p = fpath(proj)
        if p is None:
            return None
        v = env.get((l, p))
        if v is not None and v.isdigit():
            return v
        return None

    def _kill(self, env, l, p):
        if l not in self.track:
            return
        n = len(p)
        for k in [k for k, v in env.items() if k[0] == l and (k[1] is LINK or k[1][:n] == p) or k[1] is LINK and v[1] == l]:
            del env[k]

    def _link(self, env, dl, dp, kind, src):
        """Remember that dl was computed from the place src, until either changes."""
        if dp or dl not in self.retested or src[0] not in self.track or src[0] == dl:
            return
        p = fpath(src[1])
        if p is None:
            return
        l = src[0]
        # look through temporaries, whose own facts do not outlive them
        for _ in range(10):
            k = env.get((l, LINK))
            if k is None or k[1] == dl or k[1] not in self.track:
                break
            if k[0] == "u":
                l, p = k[1], k[2] + p
            elif kind == "u" and not p:
                kind, l, p = k
            else:
                break
        env[(dl, LINK)] = (kind, l, p)

    def _refine(self, env, op, val, listed):
        """Facts after a branch on op took the edge for val."""
        if op[0] != "p" or op[1][1] or (op[1][0], LINK) not in env:
            return env
        env = dict(env)
        l, p = op[1][0], ()
        if val is None:
            if listed == ["0"]:
                val = "1"
            elif listed == ["1"]:
                val = "0"
            else:
                val = ("not", tuple(listed))
        for _ in range(20):
            if isinstance(val, str) and l in self.track:
                env[(l, p)] = val
            k = env.get((l, LINK))
            if k is None or p and k[0] != "u":
                break
            kind, l2, p2 = k
            if kind == "u":
                l, p = l2, p2 + p
                continue
            if kind == "n":
                if val not in ("0", "1"):
                    break
                val = "1" if val == "0" else "0"
            elif kind[0] == "d":
                names = dict(kind[1])
                if isinstance(val, tuple):
                    rest = [nm for num, nm in kind[1] if num not in val[1]]
                    if len(rest) != 1:
                        break
                    val = rest[0]
                elif val in names:
                    val = names[val]
                else:
                    break
            elif kind[0] == "m":
                val = dict(kind[1]).get(val)
                if val is None:
                    break
            l, p = l2, p2
            if len(p) >= 5:
                break
        return env

    def _copy(self, env, src, dl, dp):
        l, proj = src
        p = fpath(proj)
        if p is None:
            return
        n = len(p)
        for k, v in list(env.items()):
            if k[0] == l and k[1][:n] == p:
                env[(dl, dp + k[1][n:])] = v

    def _set(self, env, dl, dp, v):
        if dl in self.track and len(dp) < 5:
            env[(dl, dp)] = v

    def _assign_op(self, env, dl, dp, o):
        if dl not in self.track:
            return
        if o[0] == "p":
            self._copy(env, o[1], dl, dp)
        else:
            v = o[1].get("v")
            if v:
                if "i" in v:
                    self._set(env, dl, dp, str(v["i"]))
                elif "e" in v:
                    self._set(env, dl, dp, v["e"])

    def _stmt(self, env, d, rv):
        dl, dproj = d
        if dl not in self.track:
            return
        dp = fpath(dproj)
        if dp is None:
            return
        k = rv[0]
        if k == "wpush":
            return
        new = {}
        if k in ("use", "wpush0"):
            o = rv[1]
            if len(rv) > 2:
                return
            if o[0] == "p" and o[1][0] == dl:
                self._kill(env, dl, dp)
                return
            self._kill(env, dl, dp)
            self._assign_op(env, dl, dp, o)
            if o[0] == "p":
                self._link(env, dl, dp, "u", o[1])
            return
        if k == "ref":
            self._kill(env, dl, dp)
            self._copy(env, rv[1], dl, dp)
            self._link(env, dl, dp, "u", rv[1])
            return
        if k == "agg":
            kind = rv[1]
            ops = rv[2]
            tmp = {}
            for i, o in enumerate(ops):
                if kind[0] == "adt":
                    name = "0" if kind[1] in WRAP else (kind[3][i] if i < len(kind[3]) else str(i))
                elif kind[0] in ("tuple", "closure"):
                    name = str(i)
                else:
                    continue
                if o[0] == "p" and o[1][0] != dl:
                    p = fpath(o[1][1])
                    if p is not None:
                        for kk, v in env.items():
                            if kk[0] == o[1][0] and kk[1][:len(p)] == p:
                                tmp[(dl, dp + (name,) + kk[1][len(p):])] = v
                elif o[0] == "k":
                    v = o[1].get("v")
                    if v and "i" in v:
                        tmp[(dl, dp + (name,))] = str(v["i"])
                    elif v and "e" in v:
                        tmp[(dl, dp + (name,))] = v["e"]
            self._kill(env, dl, dp)
            for kk, v in tmp.items():
                if len(kk[1]) < 5:
                    env[kk] = v
            if kind[0] == "adt" and kind[4]:
                self._set(env, dl, dp, kind[2])
            return
        if k == "discr":
            l, proj = rv[1]
            p = fpath(proj)
            v = env.get((l, p)) if p is not None else None
            self._kill(env, dl, dp)
            if v is not None:
                for num, name in rv[3]:
                    if name == v:
                        self._set(env, dl, dp, num)
            else:
                self._link(env, dl, dp, ("d", tuple((a, b) for a, b in rv[3])), rv[1])
            return
        if k == "un" and rv[1] == "Not":
            v = self._val(env, rv[2])
            self._kill(env, dl, dp)
            if v in ("0", "1"):
                self._set(env, dl, dp, "1" if v == "0" else "0")
            elif rv[2][0] == "p":
                self._link(env, dl, dp, "n", rv[2][1])
            return
        if k == "bin" and rv[1] in BINS:
            a, b = self._val(env, rv[2]), self._val(env, rv[3])
            self._kill(env, dl, dp)
            if rv[1] == "BitAnd" and "0" in (a, b):
                self._set(env, dl, dp, "0")
            elif rv[1] == "BitOr" and "1" in (a, b) and self.fl.types[dl] == "bool":
                self._set(env, dl, dp, "1")
            elif a is not None and b is not None:
                if rv[1] in ("Eq", "Ne"):
                    self._set(env, dl, dp, "1" if (a == b) == (rv[1] == "Eq") else "0")
                elif rv[1] in CMPS:
                    self._set(env, dl, dp, "1" if CMPS[rv[1]](int(a), int(b)) else "0")
                elif self.fl.types[dl] == "bool":
                    r = (a == "1" and b == "1") if rv[1] == "BitAnd" else (a == "1" or b == "1")
                    self._set(env, dl, dp, "1" if r else "0")
            return
        self._kill(env, dl, dp)

    def _call(self, env, term):
        _, c, args, dest, _ = term
        dl, dproj = dest
        if dl not in self.track:
            return
        dp = fpath(dproj)
        if dp is None:
            return
        m = last(strip_generics(c["path"]))
        a0 = None
        sub = {}
        if args and args[0][0] == "p":
            p = fpath(args[0][1][1])
            if p is not None:
                l = args[0][1][0]
                a0 = env.get((l, p))
                n = len(p)
                for kk, v in env.items():
                    if kk[0] == l and kk[1][:n] == p and len(kk[1]) > n:
                        sub[kk[1][n:]] = v
        self._kill(env, dl, dp)
        if a0 is None and m in LINKS and args and args[0][0] == "p" and c["res"] not in self.fl.prog.fns:
            src = args[0][1]
            t = ty_head(self.fl.types[src[0]]) if not src[1] else ""
            if m == "branch":
                o = "Option" in t
                mp = (("Continue", "Some" if o else "Ok"), ("Break", "None" if o else "Err"))
            else:
                mp = LINKS[m]
            self._link(env, dl, dp, ("m", mp) if mp else "u", src)
        if m == "branch":
            if a0 in ("Ok", "Some"):
                self._set(env, dl, dp, "Continue")
                for kk, v in sub.items():
                    self._set(env, dl, dp + kk, v)
            elif a0 in ("Err", "None"):
                self._set(env, dl, dp, "Break")
                self._set(env, dl, dp + ("0",), a0)
                for kk, v in sub.items():
                    self._set(env, dl, dp + ("0",) + kk, v)
        elif m == "from_residual":
            t = self.fl.types[dl] if not dp else ""
            if t.startswith("core::result::Result"):
                self._set(env, dl, dp, "Err")
                s = self.fl.types[args[0][1][0]] if args[0][0] == "p" and not args[0][1][1] else ""
                if targs(s)[-1:] == targs(t)[-1:]:
                    for kk, v in sub.items():
                        self._set(env, dl, dp + kk, v)
            elif t.startswith("core::option::Option"):
                self._set(env, dl, dp, "None")
        elif m == "le" and c.get("self") in TRACE_LE:
            self._set(env, dl, dp, "0")
        elif m in ("is_some", "is_ok"):
            if a0 in ("Some", "Ok", "None", "Err"):
                self._set(env, dl, dp, "1" if a0 in ("Some", "Ok") else "0")
        elif m in ("is_none", "is_err"):
            if a0 in ("Some", "Ok", "None", "Err"):
                self._set(env, dl, dp, "0" if a0 in ("Some", "Ok") else "1")
        elif m in COPY_FNS:
            if a0:
                self._set(env, dl, dp, a0)
            for kk, v in sub.items():
                self._set(env, dl, dp + kk, v)
        elif m == "ok":
            if a0 == "Ok":
                self._set(env, dl, dp, "Some")
                for kk, v in sub.items():
                    self._set(env, dl, dp + kk, v)
            elif a0 == "Err":
                self._set(env, dl, dp, "None")
        elif m == "not":
            if a0 in ("0", "1"):
                self._set(env, dl, dp, "1" if a0 == "0" else "0")

    # ------------------------------------------------------------ cleanup
    def _prune(self):
        """Keep nodes on a path to return; contract trivial chains is not needed."""
        n = len(self.nodes)
        pred = [[] for _ in range(n)]
        for i in range(n):
            for s, _ in self.succ[i]:
                pred[s].append(i)
        good = set()
        work = [i for i in range(n) if self.fl.blocks[self.nodes[i][0]][1][0] == "ret"]
        good.update(work)
        while work:
            x = work.pop()
            for p in pred[x]:
                if p not in good:
                    good.add(p)
                    work.append(p)
        if self.entry not in good:
            good = set(range(n))  # never returns (e.g. exits the process)
        self.good = good
        ok = set()
        work = []
        for i in good:
            if self.fl.blocks[self.nodes[i][0]][1][0] == "ret":
                if dict(self.nodes[i][1]).get((self.fl.ret, ())) != "Err":
                    work.append(i)
        ok.update(work)
        while work:
            x = work.pop()
            for p in pred[x]:
                if p not in ok:
                    ok.add(p)
                    work.append(p)
        self.errnodes = good - ok  # every return reachable from here is an error
        for i in range(n):
            if i in good:
                self.succ[i] = [(s, l) for s, l in self.succ[i] if s in good]
                if len(self.succ[i]) == 1 and self.succ[i][0][1] is not None:
                    self.succ[i] = [(self.succ[i][0][0], None)]
            else:
                self.succ[i] = []
        self.pred = [[] for _ in range(n)]
        for i in good:
            for s, _ in self.succ[i]:
                self.pred[s].append(i)
        self.byblock = {}
        for i in sorted(good):
            self.byblock.setdefault(self.nodes[i][0], []).append(i)

    # ------------------------------------------------------------ loops
    def _loops(self):
        """SCCs (loops), exit edges, and the acyclic graph used for control dependence."""
        n = len(self.nodes)
        # iterative DFS for retreating edges and order
        color = {}
        order = []
        back = set()
        stack = [(self.entry, iter(self.succ[self.entry]))]
        color[self.entry] = 1
        while stack:
            x, it = stack[-1]
            adv = False
            for s, _ in it:
                c = color.get(s, 0)
                if c == 0:
                    color[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    adv = True
                    break
                elif c == 1:
                    back.add((x, s))
            if not adv:
                color[x] = 2
                order.append(x)
                stack.pop()
        self.rpo = list(reversed(order))
        self.reach = set(order)
        self.scc = self._tarjan()
        self.back = back
        # natural loop bodies per header
        headers = {}
        for u, h in back:
            headers.setdefault(h, set()).add(u)
        self.loops = {}
        for h, us in headers.items():
            body = {h}
            comp = self.scc[h][0]
            work = list(us)
            while work:
                x = work.pop()
                if x not in body:
                    body.add(x)
                    work.extend(p for p in self.pred[x] if p in self.reach and self.scc[p][0] == comp)
            self.loops[h] = body
        self.exits = {}
        for h, body in self.loops.items():
            ex = []
            for x in body:
                for s, l in self.succ[x]:
                    if s not in body:
                        ex.append((x, s, l))
            self.exits[h] = ex
        self._leaving()
        # acyclic successor lists
        self.dsucc = [list(self.succ[i]) for i in range(n)]
        for h in sorted(headers, key=lambda h: (len(self.loops[h]), h)):
            tg = self._loop_exit_targets(h)
            self._one_iteration(h, tg)
            # inner loops that go on with the next item of this one have been redirected to h by now
            for u in sorted(self.loops[h]):
                if not any(s == h for s, _ in self.dsucc[u]):
                    continue
                lst = []
                for s, l in self.dsucc[u]:
                    if s == h:
                        if not tg:
                            continue
                        for t in tg:
                            lst.append((t, l))
                    else:
                        lst.append((s, l))
                # dedupe
                seen = set()
                res = []
                for s, l in lst:
                    if (s, l) not in seen:
                        seen.add((s, l))
                        res.append((s, l))
                self.dsucc[u] = res

    def _leaving(self):
        """Branches on which an iterator loop is left before its items are exhausted: {node: (leaving labels, other labels)}."""
        self.leave = {}
        for h, ex in self.exits.items():
            if not any(self._exhausted(self.nodes[x][0]) for x, s, l in ex):
                continue
            outs = {}
            for x, s, l in ex:
                if s not in self.errnodes and l is not None and not self._exhausted(self.nodes[x][0]):
                    outs.setdefault(x, set()).add(l)
            for x, ls in outs.items():
                ins = {l for s, l in self.succ[x] if s in self.loops[h]} - ls
                if ins:
                    a, b = self.leave.get(x, (set(), set()))
                    self.leave[x] = (a | ls, (b | ins) - ls - a)

    def _one_iteration(self, h, tg):
        """Iterator loops are taken to run at least once, so that what follows the loop is guarded by what each iteration must satisfy."""
        body = self.loops[h]
        blocks = {self.nodes[x][0] for x in body}
        if any(p not in body and self.nodes[p][0] in blocks for p in self.pred[h]):
            return   # entered from another copy of the same loop
        for x in body:
            if any(s in tg for s, _ in self.succ[x]) and self._exhausted(self.nodes[x][0]):
                self.dsucc[x] = [(s, l) for s, l in self.dsucc[x] if s not in tg]

    def _exhausted(self, b):
        """Block b ends a loop when its iterator has no more items."""
        stmts, term, _, _ = self.fl.blocks[b]
        if term[0] == "nd":
            return True
        if term[0] != "switch" or term[1][0] != "p":
            return False
        if not hasattr(self, "_nexts"):
            self._nexts = {t[3][0] for _, t, _, _ in self.fl.blocks
                           if t[0] == "call" and t[1]["path"].split("::")[-1].split("<")[0] in ("next", "next_back")}
        for d, rv in stmts:
            if d == term[1][1] and rv[0] == "discr":
                return rv[1][0] in self._nexts and not rv[1][1]
        return False

    def _loop_exit_targets(self, h):
        """Where control goes when the loop at h finishes normally."""
        body = self.loops[h]
        # when the items are exhausted
        done = [s for x in sorted(body) if self._exhausted(self.nodes[x][0]) for s, _ in self.succ[x] if s not in body]
        if done:
            return done[:1]
        # breadth first from the header: the first exiting branch
        seen = {h}
        q = [h]
        for x in q:
            outs = [s for s, _ in self.succ[x] if s not in body and s not in self.errnodes]
            ins = [s for s, _ in self.succ[x] if s in body]
            if outs:
                return outs[:1]
            for s in ins:
                if s not in seen:
                    seen.add(s)
                    q.append(s)
        for x in q:
            outs = [s for s, _ in self.succ[x] if s not in body]
            if outs:
                return outs[:1]
        return []

    def _tarjan(self):
        idx, low, comp = {}, {}, {}
        st, on = [], set()
        cnt = [0]
        for root in [self.entry]:
            work = [(root, 0)]
            while work:
                v, pi = work.pop()
                if pi == 0:
                    idx[v] = low[v] = cnt[0]
                    cnt[0] += 1
                    st.append(v)
                    on.add(v)
                rec = False
                for k in range(pi, len(self.succ[v])):
                    w = self.succ[v][k][0]
                    if w not in idx:
                        work.append((v, k + 1))
                        work.append((w, 0))
                        rec = True
                        break
                    elif w in on:
                        low[v] = min(low[v], idx[w])
                if rec:
                    continue
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    for w in c:
                        comp[w] = (v, len(c))
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
        return comp

    # ------------------------------------------------------------ control dependence
    def _postdom(self):
        """Post-dominators on the acyclic graph; control-dependence parents."""
        EXIT = -1
        nodes = self.reach
        # topological order of the acyclic graph, entry first
        indeg = {x: 0 for x in nodes}
        for x in nodes:
            for s, _ in self.dsucc[x]:
                indeg[s] += 1
        order = []
        work = [x for x in nodes if indeg[x] == 0]
        while work:
            x = work.pop()
            order.append(x)
            for s, _ in self.dsucc[x]:
                indeg[s] -= 1
                if indeg[s] == 0:
                    work.append(s)
        if len(order) != len(nodes):
            # leftover cycles (irreducible redirects): break them arbitrarily but deterministically
            done = set(order)
            rest = [x for x in self.rpo if x not in done]
            pos = {x: i for i, x in enumerate(self.rpo)}
            for x in rest:
                self.dsucc[x] = [(s, l) for s, l in self.dsucc[x] if pos[s] > pos[x]]
            indeg = {x: 0 for x in nodes}
            for x in nodes:
                for s, _ in self.dsucc[x]:
                    indeg[s] += 1
            order = []
            work = [x for x in nodes if indeg[x] == 0]
            while work:
                x = work.pop()
                order.append(x)
                for s, _ in self.dsucc[x]:
                    indeg[s] -= 1
                    if indeg[s] == 0:
                        work.append(s)
        self.topo = order
        ipd = {EXIT: EXIT}
        depth = {EXIT: 0}

        def nca(a, b):
            while a != b:
                if depth[a] < depth[b]:
                    b = ipd[b]
                else:
                    a = ipd[a]
            return a

        for x in reversed(order):
            ss = [s for s, _ in self.dsucc[x]]
            if not ss:
                p = EXIT
            else:
                p = ss[0]
                for s in ss[1:]:
                    p = nca(p, s)
            ipd[x] = p
            depth[x] = depth[p] + 1
        self.ipd = ipd
        # control dependence: for edge x->s, all nodes from s up to ipd(x)
        self.cd = {}
        for x in order:
            if len(self.dsucc[x]) < 2:
                continue
            stop = ipd[x]
            for s, l in self.dsucc[x]:
                y = s
                while y != stop and y != EXIT:
                    self.cd.setdefault(y, set()).add((x, l))
                    y = ipd[y]


LINK = "~"
LINKS = {"branch": None, "is_some": (("1", "Some"), ("0", "None")), "is_none": (("1", "None"), ("0", "Some")),
         "is_ok": (("1", "Ok"), ("0", "Err")), "is_err": (("1", "Err"), ("0", "Ok")),
         "ok": (("Some", "Ok"), ("None", "Err")), "as_ref": None, "as_deref": None, "as_mut": None,
         "not": (("1", "0"), ("0", "1"))}
VARIANT_FNS = {"branch", "is_some", "is_none", "is_ok", "is_err", "as_ref", "as_deref", "as_mut", "clone", "cloned",
               "copied", "ok", "as_deref_mut", "wrap_err", "wrap_err_with", "context", "with_context", "to_owned", "map_err",
               "suggestion", "with_suggestion", "must_use", "into"}
COPY_FNS = {"as_ref", "as_deref", "as_mut", "clone", "cloned", "copied", "as_deref_mut", "wrap_err", "wrap_err_with",
            "context", "with_context", "to_owned", "must_use", "suggestion", "with_suggestion"}


def rv_ops(rv):
    k = rv[0]
    if k in ("use", "elem", "wpush", "wpush0"):
        return [rv[1]]
    if k in ("ref", "discr"):
        return [("p", rv[1])]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return rv[2]
    return []
