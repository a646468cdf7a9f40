"""Effect summary (contract form) of a root function."""
import re
from flat import Flat, strip_generics, last, short, places
from graph import Graph
from order import order
from values import BOOL, PERMUTE, Values, call_label, is_noise, is_std, konst, wmatch

# External functions with effects outside the process' own memory.
SEEDS = [
    r"git2::repo::Repository::(reference|reference_matching|reference_symbolic|branch|set_head|set_head_detached|commit|blob|blob_path|checkout.*|reset.*|treebuilder|cherrypick|stash.*|index|worktree.*|tag.*)$",
    r"git2::reference::Reference::(delete|rename|set_target|symbolic_set_target)$",
    r"git2::branch::Branch::(delete|rename|set_upstream)$",
    r"git2::commit::Commit::amend$",
    r"git2::index::Index::(write.*|add.*|remove.*|clear|update_all)$",
    r"git2::treebuilder::TreeBuilder::(write|insert|remove)$",
    r"git2::config::Config::(set_.*|remove.*)$",
    r"std::fs::(write|remove_.*|create_dir.*|rename|set_permissions|copy|hard_link)$",
    r"std::fs::File::create$", r"std::fs::OpenOptions::open$",
    r"std::process::Command::(spawn|status|output)$",
    r"std::process::(exit|abort)$",
    r"std::env::(set_var|set_current_dir|remove_var)$",
    r"rusqlite::", r"fslock::LockFile::(open|lock.*|try_lock.*|unlock)$",
    r"tempfile::(tempdir|.*NamedTempFile.*::(new.*|persist.*|keep)|Builder::tempfile|dir::tempdir)$",
    r"tempfile::dir::tempdir", r"tempfile::file::NamedTempFile::(new|new_in|persist)$", r"tempfile::Builder::tempfile",
    r"dag::ops::DagPersistent::", r"crossbeam_channel::.*::(send|recv)$", r"std::sync::mpsc::.*::send$",
    r"std::sync::poison::condvar::Condvar::", r"std::thread::functions::spawn", r"crossbeam_utils::thread::(scope|Scope::spawn)",
    r"serde_json::ser::to_writer", r"scm_record::ui::Recorder::run", r"skim::Skim::run_with",
    r"core::io::write::Write::(write_all|write)$",
    r"std::io::stdio::stdin$", r"alloc::io::buf_read::BufRead::read_line$", r"alloc::io::read::Read::read",
    r"std::process::Child::(wait|wait_with_output|kill)$",
]
# what tells one call of a function from another
TAG_RE = re.compile(r"<('[^']*'|Event::\w+)$")
STDIO_RE = re.compile(r"(std::(fs|env|process|io)|core::str::<impl str>::parse|<.* as core::str::traits::FromStr>::from_str)")
SEED_RE = re.compile("|".join("(?:%s)" % s for s in SEEDS))
# workspace functions that are never interesting as effects
QUIET = re.compile(
    r"branchless::core::effects::|branchless::core::formatting::|branchless::core::node_descriptors::|"
    r"branchless::testing::|WriteProgress|::effects::")


def is_seed(path):
    return SEED_RE.match(strip_generics(path)) is not None


def effectful(prog):
    """Workspace functions that may have an external effect."""
    if getattr(prog, "_eff", None) is not None:
        return prog._eff
    callers = {}
    eff = set()
    for p, fn in prog.fns.items():
        if QUIET.search(p):
            continue
        for bb in fn.bbs:
            if not bb:
                continue
            for pl, rv in bb[0]:
                if rv[0] == "agg" and rv[1][0] == "closure":
                    callers.setdefault(rv[1][1], set()).add(p)
                for o in (rv[1:] if rv[0] in ("use", "cast") else (rv[2] if rv[0] == "agg" else ())):
                    if isinstance(o, dict) and "fn" in o:
                        callers.setdefault(o["fn"][1] or o["fn"][0], set()).add(p)
            t = bb[1]
            if t[0] == "call":
                c = t[1]
                if isinstance(c, dict) and "fn" in c:
                    r = c["fn"][1] or c["fn"][0]
                    if r in prog.fns:
                        callers.setdefault(r, set()).add(p)
                    elif is_seed(r) or is_seed(c["fn"][0]):
                        eff.add(p)
                for a in t[2]:
                    if isinstance(a, dict) and "fn" in a:
                        callers.setdefault(a["fn"][1] or a["fn"][0], set()).add(p)
    work = list(eff)
    while work:
        x = work.pop()
        for c in callers.get(x, ()):
            if c not in eff:
                eff.add(c)
                work.append(c)
    prog._eff = eff
    return eff


# functions whose messages to the user a property speaks about
REPORTS = {
    "git_branchless_submit::submit",
    "git_branchless::commands::hide::hide",
    "git_branchless::commands::hide::unhide",
    "git_branchless::commands::repair::repair",
    "branchless::core::rewrite::execute::FailedMergeInfo::describe",
    "git_branchless::commands::sync::execute_plans",
}


class Summary:
    def __init__(self, prog, root, depth=4, opaque=(), gdepth=2):
        self.prog = prog
        self.root = root
        self.fl = Flat(prog, root, opaque)
        self.g = Graph(self.fl)
        self.v = Values(self.g)
        self.v.gdepth = gdepth
        self.depth = depth
        self.eff = effectful(prog)
        self.display = root.endswith("core::fmt::Display>::fmt")

    def is_sink(self, c):
        r = c["res"]
        if r.startswith("<rec>"):
            return True
        if r == "<indirect>" or r == "<async>":
            return True
        if r in self.prog.fns:
            return (r in self.eff or self.is_checker(r)) and not QUIET.search(r)
        return is_seed(r) or is_seed(c["path"])

    def is_checker(self, r):
        """A function whose only outcome is whether it fails."""
        f = self.prog.fns[r]
        return f.kind == "fn" and is_unit(f.locals[0].replace("core::result::Result<core::result::Result<(), ", "core::result::Result<(), ")) \
            and f.locals[0] != "()" and not r.endswith("::fmt")

    def is_probe(self, c, dest):
        """A call of a workspace function made only to see whether it fails."""
        if c["res"] not in self.prog.fns or QUIET.search(c["res"]) or c["res"].endswith("::fmt") or dest[1] \
                or not self.fl.types[dest[0]].startswith("core::result::Result<"):
            return False
        if not hasattr(self, "_reads"):
            self._reads = {}
            for b in self.v.good_blocks:
                stmts, term, _, _ = self.fl.blocks[b]
                for d, rv in stmts:
                    for l, proj in places(rv):
                        self._reads.setdefault(l, []).append((proj, d[0] if not d[1] and rv[0] == "use" else None, rv[0]))
                    for e in d[1]:
                        if e[0] == "i":
                            self._reads.setdefault(e[1], []).append(((), None, "index"))
                if term[0] == "call":
                    step = not self.v._ws(term[1]) and last(strip_generics(term[1]["path"])) in ("branch", "map_err", "wrap_err", "wrap_err_with")
                    for a in term[2]:
                        if a[0] == "p":
                            self._reads.setdefault(a[1][0], []).append((a[1][1], term[3][0] if step else None, "call"))
                elif term[0] == "switch" and term[1][0] == "p":
                    self._reads.setdefault(term[1][1][0], []).append((term[1][1][1], None, "switch"))
        seen, work = set(), [(dest[0], False)]
        while work:
            l, payload = work.pop()
            if (l, payload) in seen:
                continue
            seen.add((l, payload))
            if l == self.fl.ret:
                return False
            for proj, to, kind in self._reads.get(l, ()):
                ok = payload or any(e[0] == "w" and e[1] in ("Ok", "Continue") for e in proj)
                err = any(e[0] == "w" and e[1] in ("Err", "Break") for e in proj)
                if err or kind == "discr" and not ok:
                    continue
                if to is None:
                    return False
                work.append((to, ok))
        return True

    def is_raise(self, c):
        return strip_generics(c["path"]) in ("eyre::private::format_err", "eyre::kind::Adhoc::new", "eyre::private::new_adhoc")

    def calls(self):
        """All reachable call nodes: (node, callee, args, dest)."""
        for n in self.g.rpo:
            if n not in self.g.good:
                continue
            t = self.fl.blocks[self.g.nodes[n][0]][1]
            if t[0] == "call":
                yield n, t[1], t[2], t[3]

    def line(self, n):
        b = self.fl.blocks[self.g.nodes[n][0]]
        fn = self.prog.fns.get(b[3])
        return "%s:%d" % (fn.file if fn else "?", b[2])

    def exits_of(self, n):
        """Literals on which a loop containing n is left early."""
        out = set()
        for h, body in self.g.loops.items():
            if n in body:
                for x, s, l in self.g.exits[h]:
                    sh = self.v.shapes_from.get(s, set())
                    if sh and all(self.errish(y) for y in sh):
                        continue
                    lit = self.v.lit(self.g.nodes[x][0], l)
                    if lit:
                        out.add(self.v.show_lit(*lit))
        return out

    @staticmethod
    def errish(shape):
        return shape == "Err" or shape.startswith("Err.") or shape.startswith("Ok.Err")

    def disposition(self, n, c, dest):
        """What happens to an error returned by the call at n."""
        t = self.fl.types[dest[0]] if not dest[1] else ""
        if not t.startswith("core::result::Result<"):
            return None
        if not hasattr(self, "_disp"):
            self._build_disp()
        d = self._disp.get(self.g.nodes[n][0])
        if d:
            kinds = type_levels(t)[0]
            if len(kinds) > 1 and kinds[1] == "R" and not any(x.startswith("inner-") for x in d):
                d = d | {"inner-" + x for x in self._payload_fate(dest[0])}
            return "+".join(sorted(d))
        # never branched on
        uses = self._direct_uses(dest[0])
        return uses

    def _build_disp(self):
        self._disp = {}
        v, g = self.v, self.g
        for x in g.good:
            if x not in g.reach:
                continue
            b = g.nodes[x][0]
            stmts, term, _, _ = self.fl.blocks[b]
            if term[0] != "switch":
                continue
            if len(g.succ[x]) < 2:
                continue
            errvals, srcs = self._result_sources(term[1], b, len(stmts))
            if not srcs:
                continue
            # follow the error edge
            tgt = None
            listed = [a for a, _ in term[3]]
            for s, l in g.succ[x]:
                val = l[1] if l else None
                if val in errvals or (val is None and not (errvals & set(listed))):
                    tgt = s
            if tgt is None:
                continue
            sh = v.shapes_from.get(tgt, set())
            for node, level in srcs:
                if sh and all(self.errish(y) or y == "?@%d" % node for y in sh):
                    r = "prop"
                elif not sh:
                    r = "stop"
                elif self._idle(x):
                    r = "ignored"
                else:
                    r = "handled" + self._which(tgt)
                self._disp.setdefault(node, set()).add(("inner-" if level else "") + r)
        for d in self._disp.values():
            for pre in ("", "inner-"):
                # the compiler tests again what it has to drop
                if any(x != pre + "ignored" and x.startswith("inner-") == bool(pre) for x in d):
                    d.discard(pre + "ignored")

    def _idle(self, x):
        """Nothing depends on which way the branch at x goes."""
        g, stop = self.g, self.g.ipd.get(x, -1)
        if stop == -1:
            return False
        seen, work = set(), [s for s, _ in g.succ[x]]
        while work:
            y = work.pop()
            if y in seen or y == stop:
                continue
            seen.add(y)
            if len(seen) > 30:
                return False
            stmts, term, _, _ = self.fl.blocks[g.nodes[y][0]]
            if term[0] not in ("goto", "nd") and not (term[0] == "call" and is_noise(term[1]["path"])) and not (term[0] == "switch" and len(g.succ[y]) == 1):
                return False
            if any(d[0] in self._read_locals() for d, rv in stmts):
                return False
            work += [s for s, _ in g.succ[y]]
        return True

    def _read_locals(self):
        if not hasattr(self, "_rl"):
            self._rl = {self.fl.ret}
            for b in self.v.good_blocks:
                stmts, term, _, _ = self.fl.blocks[b]
                for d, rv in stmts:
                    self._rl |= {l for l, _ in places(rv)}
                if term[0] == "call" and not is_noise(term[1]["path"]):
                    self._rl |= {a[1][0] for a in term[2] if a[0] == "p"}
                elif term[0] == "switch" and term[1][0] == "p":
                    self._rl.add(term[1][1][0])
        return self._rl

    def _payload_fate(self, l):
        """Fate of the Result inside an Ok of the local l, when nothing branches on it."""
        out = set()
        for x in self._payloads(l):
            out |= set(self._direct_uses(x).split("+")) - {"inner-prop"}
        out.discard("ignored")
        return out or {"ignored"}

    def _payloads(self, l):
        """Locals holding the Ok payload of the local l."""
        seen, work, out = set(), [l], []
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            for b in self.v.good_blocks:
                stmts, term, _, _ = self.fl.blocks[b]
                for d, rv in stmts:
                    if rv[0] == "use" and rv[1][0] == "p" and rv[1][1][0] == x and not d[1]:
                        ws = [e[1] for e in rv[1][1][1] if e[0] == "w"]
                        if ws and ws[0] in ("Ok", "Continue"):
                            out.append(d[0])
                        elif not ws:
                            work.append(d[0])
                if term[0] == "call" and last(strip_generics(term[1]["path"])) in ("branch", "map_err", "wrap_err", "wrap_err_with"):
                    if any(a[0] == "p" and a[1][0] == x and not a[1][1] for a in term[2][:1]):
                        work.append(term[3][0])
        return out

    def _which(self, tgt):
        """The test that tells handled errors from propagated ones, when only some are handled."""
        v, g = self.v, self.g
        if not any(self.errish(y) for y in v.shapes_from.get(tgt, ())):
            return ""
        out, seen, work = set(), {tgt}, [tgt]
        while work:
            x = work.pop()
            good, bad = [], []
            for s, l in g.succ[x]:
                sh = v.shapes_from.get(s, set())
                (bad if sh and all(self.errish(y) for y in sh) else good).append((s, l))
            if good and bad and all(l for _, l in good + bad):
                for s, l in good:
                    lit = v.lit(g.nodes[x][0], l)
                    if lit and not lit[0].startswith("res "):
                        out.add(v.show_lit(*lit))
                continue
            if bad:
                continue
            for s, l in good:
                if s not in seen and len(seen) < 60:
                    seen.add(s)
                    work.append(s)
        return "(" + " / ".join(sorted(out)).replace("+", "plus") + ")" if out else ""

    def _result_sources(self, op, n, i):
        """If op is (derived from) the discriminant of Results of calls: (err switch values, {(call block, level)})."""
        v = self.v
        none = (set(), set())
        d = v.unique_def(op, n, i)
        if not d:
            return none
        if d[0] == "rv" and d[1][0] == "discr":
            rv = d[1]
            names = {nm: num for num, nm in rv[3]}
            err = {names[k] for k in ("Err", "Break") if k in names}
            if not err:
                return none
            cur = ("p", rv[1])
        elif d[0] == "call" and last(strip_generics(d[1][1]["path"])) in ("is_ok", "is_err") and not v._ws(d[1][1]):
            err = {"0"} if last(strip_generics(d[1][1]["path"])) == "is_ok" else {"1", None}
            cur = d[1][2][0]
        else:
            return none
        out, seen, work = set(), set(), [(cur, d[2], d[3])]
        while work:
            at = work.pop()
            if at in seen:
                continue
            seen.add(at)
            cur, cn, ci = at
            if len(seen) > 60 or cur[0] != "p" or any(e[0] != "w" for e in cur[1][1]):
                return none
            l, proj = cur[1]
            dd = self.v.reaching(l, cn, ci)
            if any(x[0] == "param" or x[2] == "weak" for x in dd):
                return none
            for x in dd:
                dn, di = x[0], x[1]
                stmts, term, _, _ = self.fl.blocks[dn]
                if di < len(stmts):
                    rv = stmts[di][1]
                    if rv[0] == "use" and rv[1][0] == "p":
                        work.append((("p", (rv[1][1][0], rv[1][1][1] + proj)), dn, di))
                    elif rv[0] == "ref":
                        work.append((("p", (rv[1][0], rv[1][1] + proj)), dn, di))
                    elif rv[0] == "agg" and rv[1][0] == "adt" and rv[1][1].startswith("core::"):
                        # a variant built on the spot is no call's; another variant than the one looked into cannot be meant
                        if proj and rv[2] and rv[2][0][0] == "p" and wmatch(proj[0][1], rv[1][2]):
                            o = rv[2][0]
                            work.append((("p", (o[1][0], o[1][1] + proj[1:])), dn, di))
                    else:
                        return none
                    continue
                m = last(strip_generics(term[1]["path"]))
                if not v._ws(term[1]) and m in ("branch", "map_err", "wrap_err", "wrap_err_with", "context", "with_context", "ok",
                                                 "as_ref", "as_mut", "clone", "suggestion", "with_suggestion", "transpose"):
                    a = term[2][0]
                    if a[0] != "p":
                        return none
                    work.append((("p", (a[1][0], a[1][1] + proj)), dn, di))
                    continue
                if not v._ws(term[1]) and m == "from_residual":
                    continue
                t = self.fl.types[term[3][0]]
                if not t.startswith("core::result::Result<") or t.count("core::result::Result<") <= len(proj):
                    return none
                if any(e[1] in ("Err", "Break") for e in proj):
                    return none
                out.add((dn, len(proj)))
        return err, out

    def _direct_uses(self, l):
        """Fate of a Result that is never branched on."""
        seen = set()
        work = [l]
        out = set()
        if not hasattr(self, "_useidx"):
            idx = {}
            for b in self.v.good_blocks:
                stmts, term, _, _ = self.fl.blocks[b]
                for d, rv in stmts:
                    if rv[0] in ("use", "wpush", "wpush0", "elem") and rv[1][0] == "p":
                        idx.setdefault(rv[1][1][0], []).append(("l", d[0]))
                    elif rv[0] in ("ref",):
                        idx.setdefault(rv[1][0], []).append(("l", d[0]))
                    elif rv[0] == "agg":
                        for o in rv[2]:
                            if o[0] == "p":
                                idx.setdefault(o[1][0], []).append(("l", d[0]))
                if term[0] == "call":
                    m = last(strip_generics(term[1]["path"]))
                    for a in term[2]:
                        if a[0] == "p":
                            idx.setdefault(a[1][0], []).append(("c", m, term[3][0], self.v._ws(term[1])))
            self._useidx = idx
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == self.fl.ret:
                out.add("returned")
            for u in self._useidx.get(x, ()):
                if u[0] == "l":
                    work.append(u[1])
                elif u[1] in ("unwrap", "expect"):
                    out.add("panic")
                elif u[1] in ("map_err", "wrap_err", "wrap_err_with", "context", "with_context", "branch", "collect", "try_collect", "collect_vec",
                              "into_iter", "next", "ok", "suggestion", "with_suggestion", "join", "block_on"):
                    work.append(u[2])
                    if u[1] == "ok":
                        out.add("dropped")
                elif u[1] in ("is_ok", "is_err"):
                    out.add("handled")
                else:
                    out.add("used")
        if not out:
            return "ignored"
        if "returned" in out:
            out.discard("returned")
            out.add("prop")
            if len(type_levels(self.fl.types[l])[0]) > 1 and type_levels(self.fl.types[l])[0][1] == "R":
                out.add("inner-prop")
        return "+".join(sorted(out))

    # ------------------------------------------------------------ contract
    def contract(self, want=None, returns=True, muts=True, disp=True):
        """List of records describing effects, returns and mutations."""
        v = self.v
        groups = {}
        byblock = {}   # block -> nodes of sink calls
        for n, c, args, dest in self.calls():
            if self.is_sink(c) and (want is None or want(c)) or (self.is_raise(c) or self.is_probe(c, dest)) and want is None:
                byblock.setdefault(self.g.nodes[n][0], []).append(n)

        labels = {}    # block -> name of its sink, told apart by literal arguments
        parts = {}     # sink -> [(nodes, extra, {argument: starts})]

        def add(key, args, nodes, extra=None, starts=None):
            parts.setdefault(key, []).append((nodes, extra, starts or {}, dict(args).get("exits")))
            k = (key, tuple((p, tuple(sorted(a))) for p, a in args), extra)
            groups.setdefault(k, []).extend(nodes)

        for b, nodes in byblock.items():
            _, c, args, dest, _ = self.fl.blocks[b][1]
            if self.is_raise(c):
                add("raise", [], nodes)
                continue
            base = v.GS(nodes)
            sl = []
            t = len(self.fl.blocks[b][0])
            names = v.argnames(c, len(args))
            st = {}
            for i, a in enumerate(args):
                st[names[i]] = [("o", (a, b, t))]
                sl.append((names[i], v.slice(st[names[i]], base, self.depth)))
            ex = set()
            ds = set()
            for n in nodes:
                ex |= self.exits_of(n)
                d = self.disposition(n, c, dest) if disp else None
                if d:
                    ds |= set(d.split("+"))
            if ex:
                sl.append(("exits", ex))
            add("call " + call_label(c), sl, nodes, "+".join(sorted(ds)), st)
            labels[b] = call_label(c) + "".join(sorted({" " + t for _, a in sl for x in a for t in TAG_RE.findall(x.split(" ?")[0])}))
        if self.root in REPORTS and want is None:
            self._says(add)
        disp_tab = {}
        if disp:
            for n, c, args, dest in self.calls():
                if self.is_sink(c) and (want is None or want(c)) or self.is_raise(c) or self.is_probe(c, dest):
                    continue
                if c["res"] in self.prog.fns or not is_std(c["path"]) or STDIO_RE.match(c["path"]):
                    if QUIET.search(c["res"]) or is_noise(c["path"]) or call_label(c).startswith(("context::", "section::")):
                        continue
                    d = self.disposition(n, c, dest)
                    if d:
                        disp_tab.setdefault(call_label(c), set()).update(d.split("+"))
        if muts:
            for pi, l in enumerate(self.fl.params):
                for b, lst in self.v.defs.get(l, {}).items():
                    for idx, kind, info in lst:
                        self._mut_record(add, pi, self.g.byblock.get(b, []), idx, kind, info)
        if returns:
            byshape, valued = {}, False
            for n, sh in v.retnodes:
                for sh2, conj, bare in self.expand_shape(n, sh):
                    if sh2 != "Err":
                        byshape.setdefault(sh2, {}).setdefault(conj, []).append(n)
                        valued = valued or not bare
            for sh, conjs in byshape.items():
                dnf = []
                for conj, nodes in conjs.items():
                    for g in v.GS(nodes):
                        m = v._meet(g, conj)
                        if m is not None:
                            dnf.append(m)
                groups[("return " + sh, (), None)] = v.simplify(dnf)
            if valued:
                proj = (("w", "Ok"),) if self.fl.types[self.fl.ret].startswith("core::result::Result<") else ()
                sl = v.slice([("o", (("p", (self.fl.ret, proj)), b, 0)) for b in sorted({self.g.nodes[n][0] for n, _ in v.retnodes})],
                             ((),), self.depth)
                groups[("return value", (("0", tuple(sorted(sl))),), None)] = ()
        recs = []
        for (key, args, extra), nodes in groups.items():
            g = v.show_guard(nodes if key.startswith("return") else v.GS(nodes), drop_err=key.startswith("return Err"))
            if key.startswith("return"):
                nodes = []
            if key.startswith("return Err") and not g:
                continue
            r = dict(sink=key, guard=g, args={p: list(a) for p, a in args})
            if extra:
                r["errors"] = extra
            r["_at"] = sorted({self.line(n) for n in nodes if not key.startswith("return")})
            recs.append(r)
        cs = v.conditions(self.depth)
        if cs:
            recs.append(dict(sink="conditions", guard=[[]], args={"0": sorted(cs)}, _at=[]))
        ts = self.tables()
        if ts:
            recs.append(dict(sink="tables", guard=[[]], args={"0": ts}, _at=[]))
        ks = self.keys()
        if ks:
            recs.append(dict(sink="keys", guard=[[]], args={"0": ks}, _at=[]))
        ms = self.machines()
        if ms:
            recs.append(dict(sink="states", guard=[[]], args={"0": sorted(ms)}, _at=[]))
        recs.sort(key=lambda r: (r["sink"], str(r["args"]), str(r["guard"])))
        merged = {}
        for key, ps in parts.items():
            if len({id(x[0]) for x in ps}) > 1 and sum(1 for r in recs if r["sink"] == key) > 1:
                merged[key] = self.merge(ps)
        return dict(records=recs, merged=merged, fallible={k: sorted(x) for k, x in sorted(disp_tab.items())}, order=order(self, labels),
                    tests=self.tests())

    def _says(self, add):
        """Messages written to the user, with their text."""
        v, byblock = self.v, {}
        for n, c, args, dest in self.calls():
            if last(strip_generics(c["path"])) == "write_fmt" and len(args) == 2 and args[0][0] == "p" \
                    and re.search(r"effects::(Output|Error)Stream", self.fl.types[args[0][1][0]]):
                byblock.setdefault(self.g.nodes[n][0], []).append(n)
        for b, nodes in byblock.items():
            _, _, args, _, _ = self.fl.blocks[b][1]
            st = {"text": [("o", (args[1], b, len(self.fl.blocks[b][0])))]}
            text = {re.sub(r" & last\b|(?<=\?)last & |(?<=\| )last & | \?last$", "", x) for x in v.slice(st["text"], v.GS(nodes), self.depth)}
            add("say", [("text", sorted(text))], nodes, None, st)

    def tests(self):
        """What is tested somewhere but mentioned in no record, and what is mentioned."""
        v, quiet = self.v, set()
        for n in self.g.topo:
            if n not in self.g.good:
                continue
            for _, l in self.g.dsucc[n]:
                if l and l[0] == "sw":
                    lit, alts = v.lits(n, l)
                    for var, _ in ([lit] if lit else []) + [y for c in alts or () for y in c]:
                        if v.univ.get(var) == BOOL and var not in v.shown and not re.match(r"\w+\('[^']*'\)$", var):
                            quiet.add(var)
        return dict(quiet=sorted(quiet), shown=sorted(x for x in v.shown if v.univ.get(x) == BOOL))

    def keys(self):
        """What lists are ordered by, wherever they are kept."""
        v, out = self.v, set()
        for n, c, args, dest in self.calls():
            m = last(strip_generics(c["path"]))
            m = PERMUTE.get(m, m)
            if m in ("sort_by_key", "max_by_key", "min_by_key") and len(args) == 2:
                b = self.g.nodes[n][0]
                u = v.unique_def(args[1], b, len(self.fl.blocks[b][0]))
                if u and u[0] == "rv" and u[1][0] == "agg" and u[1][1][0] == "tuple":
                    out.add(m + " " + ", ".join(v.render("o", (x, u[2], u[3]), 2) for x in u[1][2]))
        return sorted(out)

    def tables(self):
        """Rows of the tables written out in the function: which parts belong together."""
        v, out = self.v, set()
        for b in v.good_blocks:
            for i, (_, rv) in enumerate(self.fl.blocks[b][0]):
                if rv[0] != "agg" or rv[1][0] != "array" or len(rv[2]) < 2:
                    continue
                rows = []
                for o in rv[2]:
                    u = v.unique_def(o, b, i)
                    if not u or u[0] != "rv" or u[1][0] != "agg" or u[1][1][0] != "tuple" or len(u[1][2]) < 2:
                        break
                    rows.append(tuple(v.render("o", (x, u[2], u[3]), 2) for x in u[1][2]))
                else:
                    if all(len(set(c)) > 1 for c in zip(*rows)):
                        out.update(" ~ ".join(r) for r in rows)
        return sorted(out)

    # ------------------------------------------------------------ loops that remember
    def machines(self):
        """Loops whose iterations depend on flags set by earlier ones: (state, guard, effects, next state) lines."""
        g, out = self.g, set()
        heads = {}
        inloop = set().union(*g.loops.values()) if g.loops else set()
        for n in sorted(inloop):
            t = self.fl.blocks[g.nodes[n][0]][1]
            if n in g.good and (t[0] == "nd" or t[0] == "call" and last(strip_generics(t[1]["path"])) == "next"):
                heads.setdefault(g.nodes[n][0], []).append(n)
        for b, states in heads.items():
            if len(states) > 1:
                m = self._machine(b, set(states))
                if m and any(t != s for s, moves in m.items() for _, t in moves if t != "end"):
                    out |= self._minimal(m, b)
        return out

    def _effects_at(self, n):
        b = self.g.nodes[n][0]
        stmts, term, _, _ = self.fl.blocks[b]
        if term[0] != "call":
            return None
        c, v = term[1], self.v
        m = last(strip_generics(c["path"]))
        if self.is_sink(c) or self.is_raise(c):
            return call_label(c)
        if v._ws(c) or is_noise(c["path"]) or m in ("next", "fmt", "peek", "into_iter", "iter"):
            return None
        if not any(info and info[0] == "call" for l in v.defs.values() for idx, kind, info in l.get(b, ()) if idx == len(stmts)):
            return None
        args = {v.op_info(op)[0] for a in term[2][1:] for op, _ in v.firsts_of("o", (a, b, len(stmts)))}
        return "%s(%s)" % (m, ",".join(sorted(args)))

    def _machine(self, b, states):
        """{state: {((literals, effects), next state)}} of one iteration, or None when there are too many paths."""
        g, v, m = self.g, self.v, {}
        eff, inside = {}, {g.nodes[x][0] for body in g.loops.values() if body & states for x in body}
        for h in states:
            moves, work, count = set(), [(h, (), (), frozenset())], 0
            while work:
                n, conj, effs, seen = work.pop()
                count += 1
                if count > 4000:
                    return None
                if n not in eff:
                    eff[n] = self._effects_at(n)
                e = effs + (eff[n],) if eff[n] and n != h else effs
                for s, l in g.succ[n]:
                    if s not in g.good or s in seen or s in g.errnodes:
                        continue
                    c = [conj]
                    if l is not None:
                        lit, alts = v._lits(n, l) if not g._exhausted(g.nodes[n][0]) else (None, None)
                        if alts is None:
                            alts = [[lit]] if lit else [[]]
                        c = [x for d in alts for x in [v._meet(conj, d)] if x is not None]
                    if s in states:
                        moves |= {((x, e), s) for x in c}
                    elif g.nodes[s][0] in inside:
                        work += [(s, x, e, seen | {s}) for x in c]
                    else:
                        moves |= {((x, e + self._after(s)), "end") for x in c}
                if len(moves) > 200:
                    return None
            m[h] = moves
        return m

    def _after(self, n):
        """Effects that can follow a loop left at n."""
        g, seen, work, out = self.g, {n}, [n], set()
        while work:
            x = work.pop()
            e = self._effects_at(x)
            if e:
                out.add(e)
            for s, _ in g.succ[x]:
                if s not in seen and s in g.good and s not in g.errnodes:
                    seen.add(s)
                    work.append(s)
        return ("then " + " ".join(sorted(out)),) if out else ()

    def _minimal(self, m, b):
        """The machine with equivalent states joined and states numbered from the initial one."""
        v, cls = self.v, {s: 0 for s in m}
        cls["end"] = -1

        def sig(s):
            by = {}
            for (conj, e), t in m[s]:
                by.setdefault((e, cls[t]), []).append(conj)
            return frozenset((e, t, str(v.show_guard(v.simplify(cs)))) for (e, t), cs in by.items())
        while True:
            sigs = {s: (cls[s], sig(s)) for s in m}
            ids = {x: i for i, x in enumerate(dict.fromkeys(sigs[s] for s in m))}
            new = {s: ids[sigs[s]] for s in m}
            new["end"] = -1
            if len(set(new.values())) == len(set(cls.values())):
                break
            cls = new
        if len(set(cls.values())) <= 2:
            return set()
        names, out = {-1: "end"}, set()
        first = [s for s in m if any(p not in self.g.loops.get(s, ()) and self.g.nodes[p][0] != b for p in self.g.pred[s])]
        order = sorted(m, key=lambda s: (s not in first, self.g.rpo.index(s)))
        byc = {}
        for s in order:
            byc.setdefault(cls[s], s)
        work = [cls[order[0]]]
        names[cls[order[0]]] = "s0"
        while work:
            c = work.pop(0)
            for e, t, gd in sorted(sig(byc[c]), key=lambda x: (x[0], x[2])):
                if t not in names:
                    names[t] = "s%d" % (len(names) - 1)
                    work.append(t)
                out.add("%s %s [%s] -> %s" % (names[c], gd, "; ".join(e), names[t]))
        return out

    def merge(self, ps):
        """The record of one call standing for several calls of the same sink on different paths."""
        v = self.v
        base = v.GS([n for x in ps for n in x[0]])
        args = {}
        for k in sorted({k for x in ps for k in x[2]}):
            starts, seeds = [], []
            for nodes, _, st, _ in ps:
                for q in st.get(k, ()):
                    starts.append(q)
                    seeds.append(frozenset({self.g.nodes[nodes[0]][0]}))
            args[k] = sorted(v.slice(starts, base, self.depth, seeds))
        ex = set().union(*(x[3] for x in ps if x[3])) if any(x[3] for x in ps) else None
        if ex:
            args["exits"] = sorted(ex)
        m = dict(guard=v.show_guard(base), args=args)
        e = "+".join(sorted({y for x in ps if x[1] for y in x[1].split("+")}))
        if e:
            m["errors"] = e
        return m

    def expand_shape(self, n, sh):
        """Shapes of the value returned at n: [(shape, extra guard, no payload)]."""
        v = self.v
        rb = self.g.nodes[n][0]
        levels, leaf = type_levels(self.fl.types[self.fl.ret])
        sh = sh.split("@")[0]
        have = [] if sh == "?" else sh.split(".")
        out = [(have, frozenset(), False)]
        for k in range(len(have), len(levels)):
            nxt = []
            for h, conj, bare in out:
                if bare or h == ["Err"] and levels[0] == "R":
                    nxt.append((h, conj, True))
                    continue
                proj = tuple(("w", x) for x in h)
                op = ("p", (self.fl.ret, proj))
                if levels[k] == "R":
                    enum, un = "core::result::Result", ["Ok", "Err"]
                elif levels[k] == "O":
                    enum, un = "core::option::Option", ["None", "Some"]
                elif levels[k] == "bool":
                    for val in ("1", "0"):
                        alts = v.boolalts(op, rb, 0, val == "1", v.topopos.get(n, -1))
                        if alts is None:
                            lit = v.boolcond(op, rb, 0, val == "1")
                            alts = [frozenset([lit] if lit else [])]
                        for a in alts:
                            m = v._meet(conj, a)
                            if m is not None:
                                nxt.append((h + [val], m, True))
                    continue
                for val in un:
                    if levels[k] == "R" and k == 0 and val == "Err":
                        continue
                    lit = v.variantcond(op, rb, 0, enum, un, frozenset([val]))
                    c = conj if lit is None else v._meet(conj, frozenset([lit]))
                    if c is not None:
                        nxt.append((h + [val], c, val == "None"))
            out = nxt
        res = []
        for h, conj, bare in out:
            if h and h[-1] == "None" or len(h) == len(levels) and (leaf == "()" or levels and levels[-1] == "bool"):
                bare = True
            if not levels and leaf in ("()", "bool"):
                bare = True
            res.append((".".join(h) or "?", conj, bare))
        return res

    def _mut_record(self, add, pi, nodes, idx, kind, info):
        if not nodes:
            return
        v = self.v
        b = self.g.nodes[nodes[0]][0]
        stmts, term, _, _ = self.fl.blocks[b]
        base = v.GS(nodes)
        if kind == "weak" and info[0] == "assign":
            proj = info[1]
            if idx < len(stmts):
                steps = v._rvalue(stmts[idx][1], (), b, idx, None)
            else:
                steps = v._callval(term, (), b, idx, None)
            starts = [(s[0], s[1]) for s in steps]
            st = {"0": starts}
            d = stmts[idx][0][0] if idx < len(stmts) else term[3][0]
            keys = v.mut_keys(d)
            if keys:
                st["at"] = [("o", k) for k in keys]
            sl = [(k, v.slice(x, base, self.depth)) for k, x in st.items()]
            add("set %s%s" % (v.pnames[pi], projname(proj)), sl, nodes, None, st)
        elif kind == "weak" and info[0] == "call":
            proj = info[1]
            c = term[1]
            m = last(strip_generics(c["path"]))
            shown = self.display and m in ("write_fmt", "write_str", "write_char", "pad", "fmt")
            if not v._ws(c) and not shown and (m in ("next", "fmt", "poll", "flush") or is_noise(c["path"])):
                return
            if m == "write_fmt" and not self.display or QUIET.search(c["res"]) or (m == "new" and is_std(c["path"])):
                return
            if self.is_sink(c):
                return
            st = {}
            names = v.argnames(c, len(term[2]))
            for j, a in enumerate(term[2]):
                if j != info[2]:
                    st[names[j]] = [("o", (a, b, idx))]
            a = term[2][info[2]]
            keys = v.mut_keys(a[1][0]) if a[0] == "p" else []
            if keys:
                st["at"] = [("o", k) for k in keys]
            sl = [(k, v.slice(x, base, self.depth)) for k, x in st.items()]
            add("mut %s%s %s" % (v.pnames[pi], projname(proj), call_label(c)), sl, nodes, None, st)


def projname(proj):
    return "".join("." + e[1] for e in proj if e[0] == "f")


def split_args(t):
    """Generic arguments of `head<..>`."""
    i = t.find("<")
    if i < 0 or not t.endswith(">"):
        return []
    out, depth, cur = [], 0, []
    for c in t[i + 1:-1]:
        if c in "<([":
            depth += 1
        elif c in ">)]":
            depth -= 1
        if c == "," and depth == 0:
            out.append("".join(cur).strip())
            cur = []
        else:
            cur.append(c)
    out.append("".join(cur).strip())
    return out


def type_levels(t):
    """(kinds of nested Result/Option/bool, innermost type)"""
    out = []
    for _ in range(3):
        if t.startswith("core::result::Result<"):
            out.append("R")
        elif t.startswith("core::option::Option<"):
            out.append("O")
        elif t == "bool":
            out.append("bool")
            return out, t
        else:
            break
        a = split_args(t)
        if not a:
            break
        t = a[0]
    return out, t


def is_unit(t):
    return t == "()" or t.startswith("core::result::Result<(), ")
