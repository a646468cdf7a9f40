"""Program model and inlining.

`Program` holds the facts of all crates.  `Flat` is one control-flow graph for a
root function in which private helpers, closures and new functions are folded
in, standard combinators taking closures are expanded into branches and loops,
and drop/unwind/tracing noise is removed.
"""
import glob, json, os, re, sys
import retype

sys.setrecursionlimit(20000)

# Places are (local, proj) with proj a tuple of:
#   ("f", name, owner)  field      ("w", variant) payload of Option/Result/...
#   ("c", k, from_end)  fixed index
#   ("s", k, l, from_end)  part of a slice
# Dereferences and dynamic indexing are dropped (a reference is its referent,
# an element is its collection).
WRAP = ("core::option::Option", "core::result::Result", "core::ops::control_flow::ControlFlow")


def short(path):
    """A readable name for a path: last two segments, generics removed."""
    p = strip_generics(path)
    segs = p.split("::")
    return "::".join(segs[-2:]) if len(segs) > 1 else p


_sg = {}


def strip_generics(p):
    r = _sg.get(p)
    if r is not None:
        return r
    if p.startswith("<"):
        # `<T as Trait>::m` / `<impl T>::m`
        depth = 0
        for i, c in enumerate(p):
            if c == "<":
                depth += 1
            elif c == ">" and p[i - 1] != "-":
                depth -= 1
                if depth == 0:
                    break
        inner, rest = p[1:i], p[i + 1:]
        if " as " in inner:
            a, b = split_as(inner)
            r = last(strip_generics(a)) + " as " + last(strip_generics(b)) + strip_generics(rest)
        else:
            r = last(strip_generics(inner)) + strip_generics(rest)
    else:
        out, depth = [], 0
        for i, c in enumerate(p):
            if c == "<":
                depth += 1
            elif c == ">" and (i == 0 or p[i - 1] != "-"):
                depth -= 1
            elif depth == 0:
                out.append(c)
        r = "".join(out).replace("::::", "::").rstrip(":")
    _sg[p] = r
    return r


def split_as(s):
    depth = 0
    for i, c in enumerate(s):
        if c == "<":
            depth += 1
        elif c == ">" and s[i - 1] != "-":
            depth -= 1
        elif depth == 0 and s.startswith(" as ", i):
            return s[:i], s[i + 4:]
    return s, ""


def targs(t):
    """Top-level generic arguments of a type."""
    i = t.find("<")
    if i < 0:
        return []
    out, cur, depth = [], "", 0
    for j in range(i + 1, len(t)):
        ch = t[j]
        if ch in "<([":
            depth += 1
        elif ch in ")]" or ch == ">" and t[j - 1] != "-":
            depth -= 1
            if depth < 0:
                break
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    return out + [cur.strip()]


def last(p):
    return p.split("::")[-1]


def ty_head(t):
    """Outermost type constructor, references stripped."""
    while True:
        t = t.strip()
        if t.startswith("&"):
            t = re.sub(r"^&('\w+ )?(mut )?", "", t)
            continue
        break
    if t.startswith("("):
        return "tuple"
    i = t.find("<")
    return t[:i] if i > 0 else t


class Fn:
    __slots__ = ("const_locals", "path", "kind", "pub", "ti", "auto", "isasync", "file", "line", "argc", "locals", "clos", "names",
                 "bbs", "prom", "crate", "bin")

    def __init__(self, d, crate, isbin):
        self.path = d["path"]
        self.kind = d["k"]
        self.pub = d["pub"]
        self.ti = d["ti"]
        self.auto = d["auto"]
        self.isasync = d["async"]
        self.file = d["file"]
        self.line = d["line"]
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.clos = {int(k): v for k, v in d["clos"].items()}
        self.names = {int(k): v for k, v in d["names"].items()}
        self.bbs = d["bbs"]
        self.prom = d["prom"]
        self.crate = crate
        self.bin = isbin


# Variants of enums of other crates, whether or not the current tree still matches on them.
ENUMS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "enums.json")


class Program:
    def __init__(self, facts_dir, f0=None, skip=(), shapes=None):
        self.fns = {}
        self.enums = {}
        self.facts_dir = facts_dir
        self.f0 = f0
        texts = []
        for f in sorted(glob.glob(os.path.join(facts_dir, "*.json"))):
            base = os.path.basename(f)
            isbin = ".bin." in base
            if isbin or any(s in base for s in skip):
                continue
            with open(f) as fh:
                texts.append(fh.read())
        own = {m.group(1) for m in (re.search(r'"crate":"(\w+)"', t) for t in texts) if m}
        self.shapes = retype.shapes(texts, own)
        self.retyped = []
        if shapes is not None and shapes != self.shapes:
            subs, self.retyped = retype.changes(shapes, {p: dict(v) for p, v in self.shapes.items()})
            if subs:
                texts = [retype.apply(t, subs) for t in texts]
        for t in texts:
            d = json.loads(t)
            for fn in d["fns"]:
                p = fn["path"]
                if "__CALLSITE" in p:
                    continue
                self.fns.setdefault(p, Fn(fn, d["crate"], False))
        self.boundary_cache = {}
        self._collect_enums()

    def rename(self, al):
        """Give moved or renamed functions (and what is nested in them) their recorded names."""
        keys = sorted(al, key=len, reverse=True)

        def nm(p):
            for k in keys:
                if p == k or p.startswith(k + "::"):
                    return al[k] + p[len(k):]
            return p

        def walk(o):
            if isinstance(o, dict):
                if "fn" in o:
                    o["fn"] = [nm(x) if isinstance(x, str) and i < 2 else x for i, x in enumerate(o["fn"])]
                for k in ("def", "of"):
                    if isinstance(o.get(k), str):
                        o[k] = nm(o[k])
                return
            if isinstance(o, list):
                if len(o) > 1 and o[0] == "closure" and isinstance(o[1], str):
                    o[1] = nm(o[1])
                for x in o:
                    if isinstance(x, (list, dict)):
                        walk(x)

        out = {}
        for p, f in self.fns.items():
            f.path = nm(p)
            f.clos = {k: nm(v) if isinstance(v, str) else v for k, v in f.clos.items()}
            walk(f.bbs)
            walk(f.prom)
            out[f.path] = f
        self.fns = out

    def _collect_enums(self):
        if os.path.exists(ENUMS):
            with open(ENUMS) as fh:
                self.enums.update(json.load(fh))
        for fn in self.fns.values():
            for bb in fn.bbs:
                if not bb:
                    continue
                for pl, rv in bb[0]:
                    if rv[0] == "discr" and rv[3]:
                        self.enums[rv[2]] = [v for _, v in rv[3]]

    def conversions(self):
        """{(From or TryFrom, target type, source type): function} of the workspace."""
        if not hasattr(self, "_conv"):
            self._conv = {}
            for p in self.fns:
                m = re.match(r"<(.+) as core::convert::(From|TryFrom)<(.+)>>::(?:try_)?from$", p)
                if m:
                    self._conv[m.group(2), m.group(1), m.group(3)] = p
                m = re.match(r".*::<impl core::convert::(From|TryFrom)<(.+?)> for (.+)>::(?:try_)?from$", p)
                if m:
                    self._conv[m.group(1), m.group(3), m.group(2)] = p
        return self._conv

    def is_boundary(self, path):
        """A workspace function that is summarised by its name, not folded in."""
        r = self.boundary_cache.get(path)
        if r is None:
            fn = self.fns.get(path)
            if fn is None:
                r = True
            elif fn.kind == "closure":
                r = False
            elif fn.isasync:
                r = True
            elif self.f0 is not None:
                r = path in self.f0
            else:
                r = bool(fn.pub or fn.ti)
            self.boundary_cache[path] = r
        return r


def const_place(o):
    return not isinstance(o, list)


class Flat:
    """Inlined control-flow graph of `root`."""

    MAXBLOCKS = 60000

    def __init__(self, prog, root, opaque=()):
        self.prog = prog
        self.root = root
        self.opaque = set(opaque)
        self.types = []
        self.names = {}
        self.clos = {}
        self.chain = {}   # iterator local -> combin.Chain
        self.blocks = []  # [stmts, term, line, fnpath]
        self.inlined = set()
        self.fn = prog.fns[root]
        f = self.fn
        self.params = [self.new_local(t) for t in f.locals[1:1 + f.argc]]
        self.ret = self.new_local(f.locals[0])
        for i, l in enumerate(self.params):
            if i + 1 in f.names:
                self.names[l] = f.names[i + 1]
        rb = self.new_block([], ("ret",), f.line, root)
        self.entry = self.inline(f, [("p", (l, ())) for l in self.params], (self.ret, ()), rb, (root,))
        self._keep_copies()

    def _keep_copies(self):
        """`x = a; if c { x = b }`: make the branch that keeps a assign it, as `x = if c { b } else { a }` does."""
        blocks = self.blocks
        defs, read = {}, {self.ret}
        for b, (stmts, term, _, _) in enumerate(blocks):
            for d, rv in stmts:
                if not d[1] and rv[0] != "wpush" and not isinstance(d[1], Thru):
                    defs.setdefault(d[0], []).append(b)
                read |= {l for l, _ in places(rv)}
            if term[0] == "call":
                if not term[3][1] and not isinstance(term[3][1], Thru):
                    defs.setdefault(term[3][0], []).append(b)
                read |= {a[1][0] for a in term[2] if a[0] == "p"}
            elif term[0] == "switch" and term[1][0] == "p":
                read.add(term[1][1][0])
        cand = {l for l, bs in defs.items() if len(set(bs)) > 1 and l in read}
        if not cand:
            return
        succ = {b: term_succ(blocks[b][1]) for b in reachable(blocks, self.entry)}
        pred = {}
        for b, ss in succ.items():
            for s in ss:
                pred.setdefault(s, set()).add(b)
        comp = sccs(succ, self.entry)
        joins = [b for b in succ if len(pred.get(b, ())) > 1]
        edges = {}
        for l in sorted(cand):
            dbs = set(defs[l]) & set(succ)
            if len(dbs) < 2:
                continue
            rd = {}   # block -> definitions reaching its end
            work = list(dbs)
            for b in dbs:
                rd[b] = {b}
            while work:
                b = work.pop()
                for s in succ[b]:
                    if s in dbs:
                        continue
                    r = rd.setdefault(s, set())
                    if not rd[b] <= r:
                        r |= rd[b]
                        work.append(s)
            into = {b: set().union(*[rd.get(p, set()) for p in pred.get(b, ())]) for b in dbs}
            for j in joins:
                ps = [p for p in pred[j] if rd.get(p)]
                if len(ps) < 2 or j in dbs or len({frozenset(rd[p]) for p in ps}) < 2:
                    continue
                here = set().union(*[rd[p] for p in ps])
                for p in ps:
                    if p in dbs or p not in comp or comp[p] != comp[j]:
                        continue
                    if any(comp[d] == comp[j] and any(d in into[d2] for d2 in here if d2 != d) for d in rd[p]):
                        edges.setdefault((p, j), []).append(l)
        for (p, j), ls in sorted(edges.items()):
            e = self.new_block([((l, ()), ("use", ("p", (l, ())), "keep")) for l in ls], ("goto", j), blocks[p][2], blocks[p][3])
            blocks[p][1] = retarget(blocks[p][1], j, e)

    # -- construction helpers
    def new_local(self, ty, name=None, clos=None):
        self.types.append(ty)
        i = len(self.types) - 1
        if name:
            self.names[i] = name
        if clos:
            self.clos[i] = clos
        return i

    def new_block(self, stmts, term, line, fn):
        self.blocks.append([stmts, term, line, fn])
        if len(self.blocks) > self.MAXBLOCKS:
            raise RuntimeError("inlined body too large: " + self.root)
        return len(self.blocks) - 1

    def conv_place(self, p, lmap):
        if isinstance(lmap, dict) and any(e[0] == "i" for e in p[1:]):
            p = [p[0]] + [["c", lmap["consts"][e[1]], 0] if e[0] == "i" and e[1] in lmap["consts"] else e for e in p[1:]]
        return (lmap[p[0]], conv_proj(p[1:], lmap))

    def conv_dest(self, p, lmap):
        """A place assigned to; what is not the whole local keeps a mark."""
        l, proj = self.conv_place(p, lmap)
        if len(p) > 1 and not proj:
            proj = Thru()
            proj.elem = any(e[0] == "i" for e in p[1:])
        return (l, proj)

    def conv_op(self, o, lmap, fn, stmts):
        """Operand: ("p", place) or ("k", const dict)."""
        if isinstance(o, list):
            return ("p", self.conv_place(o, lmap))
        if "promoted" in o:
            owner = self.prog.fns.get(o["of"])
            if owner and o["promoted"] < len(owner.prom):
                r = self.inline_const(owner.prom[o["promoted"]], owner, stmts)
                if r is not None:
                    return r
            return ("k", {"ty": o["ty"], "v": {"p": "promoted"}})
        if "def" in o and o.get("v") and "p" in (o["v"] or {}):
            owner = self.prog.fns.get(o["def"])
            if owner and owner.kind == "const":
                r = self.inline_const(owner, owner, stmts)
                if r is not None:
                    return r
        if "static" in o:
            return ("k", {"ty": o["ty"], "v": {"p": "static " + o["static"]}, "static": o["static"]})
        return ("k", o)

    def inline_const(self, body, owner, stmts, depth=0):
        bbs = body["bbs"] if isinstance(body, dict) else body.bbs
        locs = body["locals"] if isinstance(body, dict) else body.locals
        if len(bbs) != 1 or bbs[0][1][0] != "return":
            return None
        if len(bbs[0][0]) > 400:
            return None
        lmap = [self.new_local(t) for t in locs]
        for pl, rv in bbs[0][0]:
            d = self.conv_place(pl, lmap)
            stmts.append((d, self.conv_rv(rv, lmap, owner, stmts)))
        return ("p", (lmap[0], ()))

    def conv_rv(self, rv, lmap, fn, stmts):
        k = rv[0]
        if k in ("use", "rep"):
            return ("use", self.conv_op(rv[1], lmap, fn, stmts))
        if k == "ref":
            return ("ref", self.conv_place(rv[1], lmap), rv[2])
        if k == "cast":
            return ("use", self.conv_op(rv[1], lmap, fn, stmts))
        if k == "bin":
            return ("bin", rv[1], self.conv_op(rv[2], lmap, fn, stmts), self.conv_op(rv[3], lmap, fn, stmts))
        if k == "un":
            return ("un", rv[1], self.conv_op(rv[2], lmap, fn, stmts))
        if k == "discr":
            return ("discr", self.conv_place(rv[1], lmap), rv[2], tuple((a, b) for a, b in rv[3]))
        if k == "agg":
            return ("agg", tuple(tuple(x) if isinstance(x, list) else x for x in rv[1]),
                    [self.conv_op(o, lmap, fn, stmts) for o in rv[2]])
        return ("other", k)

    # -- inlining
    def inline(self, fn, args, dest, target, stack):
        """Fold `fn` in; returns its entry block."""
        self.inlined.add(fn.path)
        lmap = {"consts": const_locals(fn)}
        entry_stmts = []
        for i, t in enumerate(fn.locals):
            lmap[i] = self.new_local(t, fn.names.get(i), fn.clos.get(i))
        for i, a in enumerate(args):
            if i < fn.argc:
                entry_stmts.append(((lmap[i + 1], ()), ("use", a)))
                self.alias(lmap[i + 1], a)
        base = {}
        for i, bb in enumerate(fn.bbs):
            if bb is not None:
                base[i] = self.new_block([], ("stop",), bb[2], fn.path)
        flags = drop_flags(fn)
        for i in preorder(fn.bbs):
            bb = fn.bbs[i]
            cur = base[i]
            stmts = self.blocks[cur][0]
            for pl, rv in bb[0]:
                if rv[0] in ("setdiscr", "tls", "other"):
                    continue
                if len(pl) == 1 and pl[0] in flags:
                    continue
                d = self.conv_dest(pl, lmap)
                rv = self.conv_rv(rv, lmap, fn, stmts)
                if self.chain:
                    if rv[0] in ("use", "ref") and not d[1]:
                        self.alias(d[0], rv[1] if rv[0] == "use" else ("p", rv[1]))
                    elif rv[0] in ("use", "agg"):
                        cur, ops = self.force_all(cur, [rv[1]] if rv[0] == "use" else rv[2], bb[2], fn.path, stack)
                        stmts = self.blocks[cur][0]
                        rv = ("use", ops[0]) if rv[0] == "use" else ("agg", rv[1], ops)
                stmts.append((d, rv))
            t = bb[1]
            k = t[0]
            if k == "goto":
                term = ("goto", base[t[1]])
            elif k == "drop":
                term = ("goto", base[t[1]])
            elif k == "return":
                r = ("p", (lmap[0], ()))
                if len(stack) == 1 or dest[1]:
                    cur, (r,) = self.force_all(cur, [r], bb[2], fn.path, stack)
                    stmts = self.blocks[cur][0]
                else:
                    self.alias(dest[0], r)
                stmts.append((dest, ("use", r)))
                term = ("goto", target)
            elif k == "unreachable":
                term = ("stop",)
            elif k == "switch":
                if isinstance(t[1], list) and len(t[1]) == 1 and t[1][0] in flags:
                    term = ("goto", base[t[4]])
                else:
                    o = self.conv_op(t[1], lmap, fn, stmts)
                    rest = base.get(t[4])
                    for d, rv in stmts[-2:]:
                        if rv[0] == "discr" and o == ("p", d) and rv[3] and {x for x, _ in rv[3]} <= {v for v, _ in t[3]}:
                            rest = None   # no variant is left
                    term = ("switch", o, t[2], [(v, base[b]) for v, b in t[3] if b in base], rest)
            elif k == "call":
                callee = t[1]
                cargs = [self.conv_op(o, lmap, fn, stmts) for o in t[2]]
                cdest = self.conv_dest(t[3], lmap)
                ctarget = base.get(t[4]) if t[4] is not None else None
                if isinstance(callee, dict) and "fn" in callee:
                    path, res, selft, full = callee["fn"]
                    c = dict(path=path, res=res or path, self=selft, full=full)
                else:
                    c = dict(path="<indirect>", res="<indirect>", self=None, full="")
                    cargs = [self.conv_op(callee, lmap, fn, stmts)] + cargs
                self.emit_call(cur, stmts, c, cargs, cdest, ctarget, bb[2], fn.path, stack)
                continue
            else:
                term = ("stop",)
            self.blocks[cur][1] = term
        return self._prefix(entry_stmts, base[0], fn)

    def _prefix(self, stmts, to, fn):
        return self.new_block(stmts, ("goto", to), fn.line, fn.path)

    # -- iterator chains
    def chain_of(self, op):
        return self.chain.get(op[1][0]) if op[0] == "p" and not op[1][1] else None

    def alias(self, l, op):
        ch = self.chain_of(op)
        if ch:
            self.chain[l] = ch

    def force_all(self, b, ops, line, fnpath, stack):
        """Collect the recorded chains among ops; (block to go on in, operands)."""
        import combin
        out = []
        for o in ops:
            if self.chain_of(o):
                b, o = combin.force(self, b, o, line, fnpath, stack)
            out.append(o)
        return b, out

    def closure_of(self, op):
        """(kind, path) of a callable operand."""
        if op[0] == "p":
            l, proj = op[1]
            if not proj and l in self.clos:
                return ("clos", self.clos[l])
            return None
        c = op[1]
        if "fn" in c:
            return ("fn", c["fn"])
        return None

    def call_value(self, b, stmts, fop, args, dest, target, line, fnpath, stack):
        """Terminate block b with a call of callable operand `fop`."""
        k = self.closure_of(fop)
        if k and k[0] == "clos":
            body = self.prog.fns.get(k[1])
            if body and k[1] not in stack and not body.isasync:
                self.blocks[b][1] = ("goto", self.inline(body, [fop] + args, dest, target, stack + (k[1],)))
                return
            if body and body.isasync:
                self.blocks[b][1] = ("call", dict(path="<async>", res="<async>", self=None, full=k[1]), [fop] + args, dest, target)
                return
            self.blocks[b][1] = ("call", dict(path="<rec>", res="<rec " + strip_generics(k[1]) + ">", self=None, full=""), args, dest, target)
            return
        if k and k[0] == "fn":
            path, res, selft, full = k[1]
            c = dict(path=path, res=res or path, self=selft, full=full)
            self.emit_call(b, stmts, c, args, dest, target, line, fnpath, stack)
            return
        self.blocks[b][1] = ("call", dict(path="<indirect>", res="<indirect>", self=None, full=""), [fop] + args, dest, target)

    def normal_call(self, c):
        """`s.parse::<T>()` is `T::from_str(s)`; `x.into()` is `T::from(x)` where the workspace defines it."""
        path, full = c["path"], c["full"] or ""
        if path == "core::str::<impl str>::parse" and "parse::<" in full:
            t = full.split("parse::<", 1)[1][:-1]
            return dict(path="core::str::traits::FromStr::from_str", res="<%s as core::str::traits::FromStr>::from_str" % t,
                        self=t, full="<%s as core::str::traits::FromStr>::from_str" % t)
        m = re.match(r"core::convert::(Into::into|TryInto::try_into)$", path)
        if m and c["self"]:
            a, tr = split_as(full[1:].rsplit(">::", 1)[0])
            t = tr[tr.find("<") + 1:-1] if "<" in tr else ""
            name = "TryFrom" if "Try" in path else "From"
            res = self.prog.conversions().get((name, t, a))
            if res:
                return dict(path="core::convert::%s::%s" % (name, last(res)), res=res, self=t, full=res)
        return c

    def emit_call(self, b, stmts, c, args, dest, target, line, fnpath, stack):
        c = self.normal_call(c)
        res, path = c["res"], c["path"]
        blk = self.blocks[b]
        m = last(strip_generics(path))
        if target is None:
            blk[1] = ("call", c, args, dest, None)
            return
        if m[:1].isupper() and res not in self.prog.fns:
            # tuple constructor used as a function
            b, args = self.force_all(b, args, line, fnpath, stack)
            up = path.rsplit("::", 1)[0]
            variant = last(strip_generics(up))[:1].isupper()
            self.blocks[b][0].append((dest, ("agg", ("adt", up if variant else path, m, tuple(str(i) for i in range(len(args))), int(variant)), args)))
            self.blocks[b][1] = ("goto", target)
            return
        # closure calls
        if path.startswith("core::ops::function::Fn") and m in ("call", "call_mut", "call_once"):
            fop = args[0]
            k = self.closure_of(fop)
            if k is None and res in self.prog.fns:
                k = ("clos", res)
            if k:
                tup = args[1]
                n = 0
                if k[0] == "clos" and k[1] in self.prog.fns:
                    n = self.prog.fns[k[1]].argc - 1
                elif k[0] == "fn":
                    n = 8
                if tup[0] == "p":
                    a = [("p", (tup[1][0], tup[1][1] + (("f", str(i), ""),))) for i in range(n)]
                else:
                    a = []
                if k[0] == "clos":
                    body = self.prog.fns.get(k[1])
                    if body and k[1] not in stack and not body.isasync:
                        blk[1] = ("goto", self.inline(body, [fop] + a, dest, target, stack + (k[1],)))
                        return
            blk[1] = ("call", dict(path="<indirect>", res="<indirect>", self=None, full=""), args, dest, target)
            return
        ent = self.prog.fns.get(res)
        if ent is None or ent.kind not in ("fn", "closure"):
            import combin
            if m == "zip" and len(args) > 1:
                b, rest = self.force_all(b, args[1:], line, fnpath, stack)
                args = args[:1] + rest
                blk = self.blocks[b]
            if combin.lazy(self, c, m, args, dest, target, b):
                return
            if m == "next" and args and self.chain_of(args[0]):
                combin.next_item(self, b, args, dest, target, line, fnpath, stack)
                return
            if m in ("collect", "try_collect") and args and not dest[1] and strip_generics(path).startswith(combin.ITER_PATHS) \
                    and self.types[dest[0]].startswith((combin.RES, combin.OPT)):
                combin.collect(self, b, args, dest, target, line, fnpath, stack)
                return
        if ent is None or ent.kind not in ("fn", "closure") or self.prog.is_boundary(res) or res in self.opaque:
            keep = args[:1] if m in DRIVERS else []
            b, args = self.force_all(b, args[len(keep):], line, fnpath, stack)
            args = keep + args
            blk, stmts = self.blocks[b], self.blocks[b][0]
        if ent is not None and ent.kind in ("fn", "closure"):
            if not self.prog.is_boundary(res) and res not in self.opaque:
                if res in stack:
                    blk[1] = ("call", dict(c, res="<rec> " + res), args, dest, target)
                else:
                    blk[1] = ("goto", self.inline(ent, args, dest, target, stack + (res,)))
                return
            # closures handed to a boundary function may be run by it
            self.maybe_closures(b, c, args, dest, target, line, fnpath, stack)
            return
        if m == "extend" and len(args) == 2 and args[1][0] == "p" and not args[1][1][1] \
                and self.types[args[1][1][0]].startswith("core::option::Option<"):
            import combin
            A = combin.Asm(self, line, fnpath, stack)
            some = A.block([], ("call", c, [args[0], combin.payload(args[1], "Some")], dest, target))
            A.switch_discr(b, args[1], combin.OPT, combin.OPTV, {"Some": some, "None": target})
            return
        if any(self.closure_of(a) for a in args) or m in EXPAND0:
            import combin
            if combin.expand(self, b, stmts, c, m, args, dest, target, line, fnpath, stack):
                return
            self.maybe_closures(b, c, args, dest, target, line, fnpath, stack)
            return
        blk[1] = ("call", c, args, dest, target)

    def maybe_closures(self, b, c, args, dest, target, line, fnpath, stack):
        """`args` may contain closures that the callee runs some number of times."""
        extra = []
        cur = b
        given = [a for a in args if not self.closure_of(a)]
        for a in args:
            k = self.closure_of(a)
            if not k:
                continue
            item = k[0] == "fn"
            k = (k[0], k[1][1] or k[1][0]) if item else k
            body = self.prog.fns.get(k[1])
            if not body or k[1] in stack or body.isasync or item and (self.prog.is_boundary(k[1]) or k[1] in self.opaque):
                continue
            r = self.new_local(body.locals[0])
            nxt = self.new_block([], ("stop",), line, fnpath)
            back = self.new_block([], ("goto", nxt), line, fnpath)
            unk = []
            st = []
            for i in range(1, body.argc + item):
                u = self.new_local(body.locals[i + 1 - item])
                st.append(((u, ()), ("cbarg", short(c["res"]), i, given)))
                unk.append(("p", (u, ())))
            e = self.inline(body, unk if item else [a] + unk, (r, ()), back, stack + (k[1],))
            pre = self.new_block(st, ("goto", e), line, fnpath)
            self.blocks[cur][1] = ("nd", [pre, nxt])
            cur = nxt
            extra.append(("p", (r, ())))
            if item:
                args = [("k", dict(x[1], **{"as": "closure"})) if x is a else x for x in args]
        self.blocks[cur][1] = ("call", c, list(args) + extra, dest, target)


# Consumers that run a chain item by item.
DRIVERS = {"skip_while", "find", "partition", "find_position", "position", "any", "all", "find_map", "for_each", "try_for_each", "fold", "then"}
EXPAND0 = {"contains", "or", "unwrap_or", "unwrap_or_default", "then_some", "ok_or", "zip", "enumerate", "chain", "flatten", "retain",
           "take", "flatten_ok", "ok", "err", "and", "transpose", "from_residual", "then", "then_with", "is_relative", "min", "max", "clamp"}


def term_succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for b in [b for _, b in t[3]] + [t[4]] if b is not None]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "nd":
        return list(t[1])
    return []


def retarget(t, a, b):
    k = t[0]

    def r(x):
        return b if x == a else x

    if k == "goto":
        return ("goto", r(t[1]))
    if k == "switch":
        return ("switch", t[1], t[2], [(v, r(x)) for v, x in t[3]], r(t[4]))
    if k == "call":
        return t[:4] + (r(t[4]),) + t[5:]
    if k == "nd":
        return ("nd", [r(x) for x in t[1]])
    return t


def reachable(blocks, entry):
    seen, work = {entry}, [entry]
    while work:
        for s in term_succ(blocks[work.pop()][1]):
            if s not in seen:
                seen.add(s)
                work.append(s)
    return seen


def sccs(succ, entry):
    """Strongly connected component of each block (nested loops share one)."""
    index, low, comp, stack, on = {}, {}, {}, [], set()
    for root in succ:
        if root in index:
            continue
        work = [(root, iter(succ[root]))]
        index[root] = low[root] = len(index)
        stack.append(root)
        on.add(root)
        while work:
            b, it = work[-1]
            for s in it:
                if s not in index:
                    index[s] = low[s] = len(index)
                    stack.append(s)
                    on.add(s)
                    work.append((s, iter(succ[s])))
                    break
                if s in on:
                    low[b] = min(low[b], index[s])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[b])
                if low[b] == index[b]:
                    members = []
                    while True:
                        x = stack.pop()
                        on.discard(x)
                        members.append(x)
                        if x == b:
                            break
                    for x in members:
                        comp[x] = b if len(members) > 1 else None
    return comp


def const_locals(fn):
    """Integer locals assigned once, to a constant."""
    if not hasattr(fn, "const_locals"):
        out, bad = {}, set()
        for bb in fn.bbs:
            if bb is None:
                continue
            for pl, rv in bb[0]:
                v = rv[1].get("v") if rv[0] == "use" and isinstance(rv[1], dict) else None
                if pl[0] in out or not isinstance(v, dict) or "i" not in v:
                    bad.add(pl[0])
                else:
                    out[pl[0]] = v["i"]
            if bb[1][0] == "call":
                bad.add(bb[1][3][0])
        fn.const_locals = {l: k for l, k in out.items() if l not in bad}
    return fn.const_locals


def preorder(bbs):
    """Blocks so that each follows those dominating it."""
    seen, out, work = set(), [], [0]
    while work:
        i = work.pop()
        if i in seen or i is None or i >= len(bbs) or bbs[i] is None:
            continue
        seen.add(i)
        out.append(i)
        t = bbs[i][1]
        if t[0] in ("goto", "drop"):
            work.append(t[1])
        elif t[0] == "switch":
            work += [b for _, b in t[3]] + [t[4]]
        elif t[0] == "call":
            work.append(t[4])
    return out


def places(x):
    """Places read by a statement."""
    if isinstance(x, (tuple, list)):
        if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], (tuple, list)):
            yield x[0], x[1]
            return
        for y in x:
            yield from places(y)


class Thru(tuple):
    """Empty projection of an assignment that writes through a reference or to one element of an array."""


def conv_proj(proj, lmap):
    out = []
    i = 0
    n = len(proj)
    while i < n:
        e = proj[i]
        if e == "*" or e == "?":
            i += 1
            continue
        k = e[0]
        if k == "f":
            out.append(("f", e[2] if e[3] and e[3] != "closure" else str(e[1]), e[3]))
        elif k == "v":
            if i + 1 < n and proj[i + 1][0] == "f":
                f = proj[i + 1]
                if f[3] in WRAP:
                    out.append(("w", e[2]))
                else:
                    out.append(("f", f[2], f[3] + "::" + e[2]))
                i += 2
                continue
        elif k == "c":
            out.append(("c", e[1], e[2]))
        elif k == "s":
            out.append(("s", e[1], e[2], e[3]))
        i += 1
    return tuple(out)


def drop_flags(fn):
    """Bool locals that only steer drops."""
    cand = set()
    for i, t in enumerate(fn.locals):
        if t == "bool" and i not in fn.names and i > fn.argc:
            cand.add(i)
    if not cand:
        return cand
    bad = set()
    seen = set()
    for bb in fn.bbs:
        if bb is None:
            continue
        for pl, rv in bb[0]:
            if len(pl) == 1 and pl[0] in cand:
                if not (rv[0] == "use" and isinstance(rv[1], dict)):
                    bad.add(pl[0])
            for l in rv_locals(rv):
                bad.add(l)
        t = bb[1]
        if t[0] == "switch" and isinstance(t[1], list) and len(t[1]) == 1 and t[1][0] in cand:
            l = t[1][0]
            seen.add(l)
            ok = False
            tgt = fn.bbs[t[4]]
            if tgt is not None and not tgt[0] and tgt[1][0] == "drop":
                ok = True
            elif tgt is not None and leads_to_drop(fn, t[4], t[3][0][1] if t[3] else None):
                ok = True
            if not ok:
                bad.add(l)
        elif t[0] == "switch":
            for l in op_locals(t[1]):
                bad.add(l)
        elif t[0] == "call":
            for o in t[2]:
                for l in op_locals(o):
                    bad.add(l)
            if isinstance(t[1], list):
                bad.add(t[1][0])
            bad.add(t[3][0])
    return {l for l in cand if l in seen and l not in bad}


def leads_to_drop(fn, b, other):
    """Block b reaches only drops/discriminant switches before rejoining."""
    seen = set()
    work = [b]
    n = 0
    drops = False
    while work:
        x = work.pop()
        if x == other or x in seen:
            continue
        seen.add(x)
        n += 1
        if n > 40:
            return False
        bb = fn.bbs[x]
        if bb is None:
            continue
        t = bb[1]
        if t[0] == "drop":
            drops = True
            work.append(t[1])
        elif t[0] == "goto":
            work.append(t[1])
        elif t[0] == "switch":
            work.extend(y for _, y in t[3])
            work.append(t[4])
        elif t[0] == "unreachable":
            continue
        else:
            return False
        for pl, rv in bb[0]:
            if rv[0] not in ("discr",) and not (rv[0] == "use" and isinstance(rv[1], dict)):
                return False
    return drops


def op_locals(o):
    if isinstance(o, list):
        return [o[0]]
    return []


def rv_locals(rv):
    k = rv[0]
    if k in ("use", "rep", "cast"):
        return op_locals(rv[1])
    if k in ("ref", "discr"):
        return [rv[1][0]]
    if k == "bin":
        return op_locals(rv[2]) + op_locals(rv[3])
    if k == "un":
        return op_locals(rv[2])
    if k == "agg":
        r = []
        for o in rv[2]:
            r += op_locals(o)
        return r
    return []
