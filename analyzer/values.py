"""Value provenance and guards on a Graph."""
import hashlib, heapq, re
from flat import strip_generics, last, short, ty_head, Thru, WRAP, targs
from graph import fpath

# Standard functions through which a value passes unchanged for our purposes
# (first argument only).
T0 = set("""clone cloned copied to_owned to_string into from as_ref as_mut as_str as_slice as_bytes as_path as_deref
as_deref_mut deref deref_mut borrow borrow_mut iter iter_mut into_iter by_ref collect collect_vec try_collect to_vec
into_vec to_path_buf as_os_str into_os_string to_string_lossy to_str into_owned into_string into_bytes unwrap expect
branch wrap_err wrap_err_with context with_context map_err must_use display from_utf8 from_utf8_lossy to_str_lossy lock
into_inner next peekable fuse into_future poll box_assume_init_into_vec_unsafe into_par_iter par_iter ok transpose
flatten flatten_ok to_slash into_path_buf chars bytes from_iter into_boxed_slice as_mut_slice try_into try_from
new_unchecked drain into_string_lossy as_os_string new_display new_debug into_stream_position
suggestion with_suggestion note section into_iter_unordered values_mut into_boxed_str leak as_encoded_bytes inspect_err
into_boxed_path copied_from get_mut_ref unwrap_unchecked as_slice_mut peek into_values into_keys ok_or
stream block_on into_stdin_lock eyre_kind as_nanos as_error""".split())
# wrappers whose `new` is transparent
NEW_T = ("alloc::boxed::Box", "alloc::rcs::arc::Arc", "alloc::sync::Arc", "alloc::rc::Rc", "std::sync::poison::mutex::Mutex",
         "std::sync::poison::rwlock::RwLock", "alloc::io::buffered", "std::io::buffered", "core::cell::", "core::pin::Pin",
         "alloc::rcs::", "std::ffi::os_str::OsStr", "std::path::Path", "std::path::PathBuf", "alloc::borrow::Cow",
         "core::iter::sources")
# functions whose result is a mutable view of their first argument
MUTCHAIN = set("""deref_mut entry or_default or_insert or_insert_with or_insert_with_key get_mut as_mut iter_mut next unwrap
expect branch lock borrow_mut by_ref values_mut last_mut first_mut index_mut get_or_insert get_or_insert_with as_deref_mut
into_iter write as_file_mut as_mut_slice peek_mut find_name get_inner_mut arg args env envs current_dir stdin stdout stderr
env_clear env_remove prefix suffix rand_bytes context_lines create append truncate from_residual""".split())
# mutators that add their arguments to the receiver
ADDERS = set("push insert extend append push_str push_back push_front add_assign write_fmt write_str write_all "
             "extend_from_slice set_item".split())
IGNORED_MUT = set("next peek fmt by_ref flush drop poll reserve".split())
DROP_CALL_MUT = set("deref_mut as_mut iter_mut get_mut borrow_mut entry as_deref_mut values_mut last_mut first_mut index_mut "
                    "lock write into_iter branch unwrap expect by_ref".split())

ENTRY_RE = re.compile(r"(?<!\w)(?:Occupied|Vacant)?Entry<")
MUTVIEW_RE = re.compile(r"(?<!\w)(IterMut|ValuesMut|OccupiedEntry|VacantEntry|Entry|MutexGuard|RwLockWriteGuard|RefMut|PeekMut|Drain)<")
KEYED = {"entry", "get_mut", "index_mut"}
# operations of set expressions, followed to the sets they combine
ALGEBRA = re.compile(r"(?:\w+::)*(NameSet|CommitSet)::(union|difference|intersection|filter)$|"
                     r"(tup|fmt|fmtargs|fmtarg|arr|arg|args|env|envs|current_dir|stdin|stdout|stderr)$")
# reorderings of a collection, in place or as an adapter
PERMUTE = {"rev": "reverse", "sorted": "sort", "sort_unstable": "sort", "sorted_unstable": "sort",
           "sorted_by_key": "sort_by_key", "sort_by_cached_key": "sort_by_key", "sorted_by_cached_key": "sort_by_key",
           "sort_unstable_by_key": "sort_by_key", "sorted_unstable_by_key": "sort_by_key",
           "sorted_by": "sort_by", "sort_unstable_by": "sort_by", "sorted_unstable_by": "sort_by"}
SYMMETRIC = re.compile(r"(?:\w+::)*(NameSet|CommitSet)::(union|intersection)$")
BINCANON = {"Gt": ("Lt", 1), "Ge": ("Le", 1)}


def is_std(path):
    p = path.lstrip("<")
    return p.startswith(("core::", "alloc::", "std::"))


class Values:
    def __init__(self, graph):
        self.g = graph
        self.fl = graph.fl
        self.prog = graph.fl.prog
        self._index()
        self.rd_memo = {}
        self.G_memo = {}
        self.lit_memo = {}
        self.lits_memo = {}
        self.eqk = {}           # variable of an equality with a constant -> (subject, constant)
        self.cond_starts = {}   # variable of a condition -> the values it is about
        self.shown = set()      # variables of reported conditions
        self.narrow_memo = {}
        self._anc, self._dpred = {}, {}
        self.univ = {}
        self.render_memo = {}
        self.firsts_memo = {}
        self.topopos = {x: i for i, x in enumerate(graph.topo)}
        # Values are computed per block, over the edges some feasible path takes.
        self.bpred = {}
        for n in graph.good:
            if n in graph.reach:
                b = graph.nodes[n][0]
                for q in graph.pred[n]:
                    if q in graph.reach:
                        self.bpred.setdefault(b, set()).add(graph.nodes[q][0])
        self.bpred = {b: sorted(x) for b, x in self.bpred.items()}
        self.bentry = graph.nodes[graph.entry][0]
        self.bscc = {}
        self.bsccs = {}
        for n, x in graph.scc.items():
            b = graph.nodes[n][0]
            if x[1] > 1:
                self.bsccs.setdefault(b, set()).add(x[0])
            self.bscc[b] = max(self.bscc.get(b, 1), x[1])
        self.pnames = type_names([self.fl.types[l] for l in self.fl.params])
        self._shapes()

    # ------------------------------------------------------------ definitions
    def _index(self):
        fl = self.fl
        self.defs = {}   # local -> {block: [(idx, kind, info)]}
        single = {}      # local -> list of (block, idx)
        good_blocks = set(self.g.byblock)
        self.good_blocks = good_blocks

        def add(l, b, i, kind, info):
            self.defs.setdefault(l, {}).setdefault(b, []).append((i, kind, info))

        # first pass: plain definitions
        for b in good_blocks:
            stmts, term, _, _ = fl.blocks[b]
            for i, (d, rv) in enumerate(stmts):
                if not isinstance(d[1], Thru):
                    single.setdefault(d[0], []).append((b, i))
            if term[0] == "call" and not isinstance(term[3][1], Thru):
                single.setdefault(term[3][0], []).append((b, len(stmts)))
        self.single = single
        self._mb_memo = {}
        for b in good_blocks:
            stmts, term, _, _ = fl.blocks[b]
            for i, (d, rv) in enumerate(stmts):
                l, proj = d
                if rv[0] == "wpush":
                    add(l, b, i, "weak", ("wpush", proj, rv[1]))
                elif not proj:
                    if rv[0] == "use" and rv[1] == ("p", d) and len(rv) == 2:
                        continue
                    self._whole(add, l, proj, b, i)
                else:
                    add(l, b, i, "weak", ("assign", proj))
                    # assignment through a reference
                    for bl, bp in self.mut_bases(l):
                        if bl != l:
                            add(bl, b, i, "weak", ("assign", bp + proj))
            if term[0] == "call":
                l, proj = term[3]
                n = len(stmts)
                if proj:
                    add(l, b, n, "weak", ("assign", proj))
                else:
                    self._whole(add, l, proj, b, n)
                m = last(strip_generics(term[1]["path"]))
                if m in DROP_CALL_MUT and is_std(term[1]["path"]):
                    continue
                for j, a in enumerate(term[2]):
                    if a[0] != "p":
                        continue
                    al, ap = a[1]
                    if self._mutref(al, j, m):
                        for bl, bp in self.mut_bases(al):
                            if bl != l:
                                add(bl, b, n, "weak", ("call", bp, j))
        for l, d in self.defs.items():
            for b in d:
                d[b].sort(key=lambda x: x[0])
        self.ndefs = {l: sum(len(v) for v in d.values()) for l, d in self.defs.items()}

    def _whole(self, add, l, proj, b, i):
        """An assignment to local l, or to all of what l refers to."""
        if not isinstance(proj, Thru):
            add(l, b, i, "strong", None)
            return
        if proj.elem:
            add(l, b, i, "weak", ("assign", ()))
        else:
            add(l, b, i, "strong", None)
        x = self._referent(l)
        for bl, bp in self.mut_bases(l):
            if bl != l:
                if bl == x and not proj.elem:
                    add(bl, b, i, "strong", None)
                else:
                    add(bl, b, i, "weak", ("assign", bp))

    def _referent(self, l):
        """The one local that reference l was made from."""
        seen = set()
        while l not in seen and len(self.single.get(l, ())) == 1 and l not in self.fl.params:
            seen.add(l)
            (b, i), = self.single[l]
            stmts = self.fl.blocks[b][0]
            if i >= len(stmts):
                return None
            (_, proj), rv = stmts[i]
            if proj:
                return None
            if rv[0] == "ref" and not rv[1][1]:
                if not self.fl.types[rv[1][0]].startswith("&"):
                    return rv[1][0]
                l = rv[1][0]
            elif rv[0] == "use" and rv[1][0] == "p" and not rv[1][1][1]:
                l = rv[1][1][0]
            else:
                return None
        return None

    def _mutref(self, l, argpos, m):
        t = self.fl.types[l]
        return t.startswith("&") and re.match(r"^&('\w+ )?mut ", t) is not None or \
            ENTRY_RE.search(t) is not None or (argpos == 0 and ("IterMut" in t or "MutexGuard" in t or "RefMut" in t))

    def mut_bases(self, l, seen=None):
        """Places that a mutable reference held by local l may denote."""
        if l in self._mb_memo:
            return self._mb_memo[l]
        if seen is None:
            seen = set()
        if l in seen:
            return []
        seen.add(l)
        out = []
        ds = self.single.get(l, [])
        if len(ds) > 6:
            ds = ds[:6]
        for b, i in ds:
            stmts, term, _, _ = self.fl.blocks[b]
            if i < len(stmts):
                d, rv = stmts[i]
                if d[1]:
                    continue
                if rv[0] == "ref":
                    out += self._place_base(rv[1], seen)
                elif rv[0] in ("use", "elem") and rv[1][0] == "p":
                    out += self._ref_value_base(rv[1][1], seen)
            else:
                m = last(strip_generics(term[1]["path"]))
                if m in MUTCHAIN and term[2] and term[2][0][0] == "p" and not self._ws(term[1]):
                    out += self._ref_value_base(term[2][0][1], seen)
        if l in self.fl.params:
            out.append((l, ()))
        out = list(dict.fromkeys(out))
        self._mb_memo[l] = out
        return out

    def mut_keys(self, l, seen=None):
        """Keys under which the place denoted by mutable reference l was looked up: [(operand, block, idx)]."""
        seen = set() if seen is None else seen
        out = []
        if l in seen:
            return out
        seen.add(l)
        for b, i in self.single.get(l, [])[:6]:
            stmts, term, _, _ = self.fl.blocks[b]
            if i < len(stmts):
                d, rv = stmts[i]
                if d[1]:
                    continue
                if rv[0] == "ref":
                    out += self.mut_keys(rv[1][0], seen)
                elif rv[0] in ("use", "elem") and rv[1][0] == "p":
                    out += self.mut_keys(rv[1][1][0], seen)
            else:
                m = last(strip_generics(term[1]["path"]))
                if m in MUTCHAIN and term[2] and term[2][0][0] == "p" and not self._ws(term[1]):
                    if m in KEYED and len(term[2]) > 1:
                        out.append((term[2][1], b, i))
                    out += self.mut_keys(term[2][0][1][0], seen)
        return out

    def _ws(self, c):
        return c["res"] in self.prog.fns

    def _place_base(self, pl, seen):
        """&mut pl: pl itself, or what pl's base refers to."""
        l, proj = pl
        t = self.fl.types[l]
        if t.startswith("&") or "closure" in t or l in self.fl.clos or MUTVIEW_RE.search(t):
            r = self._ref_value_base(pl, seen)
            if r:
                return r
        return [(l, proj)]

    def _ref_value_base(self, pl, seen):
        """The place denoted by the reference stored at pl."""
        l, proj = pl
        if not proj:
            return self.mut_bases(l, seen) or [(l, ())]
        # field of an aggregate built once (closure environments, tuples)
        ds = self.single.get(l, [])
        if len(ds) == 1:
            b, i = ds[0]
            stmts = self.fl.blocks[b][0]
            if i < len(stmts):
                d, rv = stmts[i]
                if rv[0] == "agg" and proj[0][0] == "f":
                    o = self._agg_field(rv, proj[0])
                    if o and o[0] == "p":
                        return self._ref_value_base((o[1][0], o[1][1] + proj[1:]), seen)
                elif rv[0] == "use" and rv[1][0] == "p":
                    return self._ref_value_base((rv[1][1][0], rv[1][1][1] + proj), seen)
                elif rv[0] == "ref":
                    return self._ref_value_base((rv[1][0], rv[1][1] + proj), seen)
        bases = self.mut_bases(l, seen)
        if bases:
            return [(bl, bp + proj) for bl, bp in bases]
        return [(l, proj)]

    @staticmethod
    def _agg_field(rv, f):
        kind, ops = rv[1], rv[2]
        if kind[0] in ("tuple", "closure"):
            i = int(f[1]) if f[1].isdigit() else -1
            return ops[i] if 0 <= i < len(ops) else None
        if kind[0] == "adt":
            if f[2] and "::" in f[2] and kind[4]:
                if not f[2].endswith("::" + kind[2]):
                    return "novariant"
            if f[1] in kind[3]:
                i = kind[3].index(f[1])
                return ops[i] if i < len(ops) else None
        return None

    def reaching(self, l, n, i):
        """Definitions of l reaching before position i of node n: [(node, idx, kind, info)] or ("param",)."""
        d = self.defs.get(l)
        if d is None:
            return [("param",)] if l in self.fl.params else []
        out = []
        nb = n
        stop = False
        for (idx, kind, info) in reversed(d.get(nb, [])):
            if idx < i:
                out.append((n, idx, kind, info))
                if kind == "strong":
                    stop = True
                    break
        if not stop:
            out += self._entry_defs(l, n)
        return out

    def _entry_defs(self, l, n):
        key = (l, n)
        r = self.rd_memo.get(key)
        if r is not None:
            return r
        d = self.defs[l]
        # single strong definition: no search needed if its node is unique
        if self.ndefs[l] == 1:
            (b, lst), = d.items()
            if lst[0][1] == "strong" and l not in self.fl.params:
                r = [(b, lst[0][0], "strong", None)]
                self.rd_memo[key] = r
                return r
        out = []
        seen = set()
        work = list(self.bpred.get(n, ()))
        isp = l in self.fl.params
        param = (n == self.bentry and isp)
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            stop = False
            for (idx, kind, info) in reversed(d.get(x, [])):
                out.append((x, idx, kind, info))
                if kind == "strong":
                    stop = True
                    break
            if not stop:
                if x == self.bentry and isp:
                    param = True
                work.extend(self.bpred.get(x, ()))
        out.sort(key=lambda t: (t[0], t[1]))
        if param:
            out.append(("param",))
        self.rd_memo[key] = out
        return out

    # ------------------------------------------------------------ stepping
    # A query is (local, proj, node, idx).  step yields
    #   ("q", query, guardnode or None)  or  ("op", opid, guardnode or None)
    def step(self, q):
        l, proj, n, i = q
        out = []
        ds = self.reaching(l, n, i)
        multi = len(ds) > 1
        for d in ds:
            if d[0] == "param":
                out += self._ops(("param", self.fl.params.index(l)), proj, None)
                continue
            dn, di, kind, info = d
            gn = dn if multi else None
            stmts, term, _, _ = self.fl.blocks[dn]
            if multi and kind == "strong" and self.overwritten(dn, n) and not (di < len(stmts) and constant(stmts[di][1])):
                gn = (dn, "last")
            if kind == "weak":
                if info[0] == "wpush":
                    if not self._prefix(info[1], proj):
                        rest = self._rest(proj, info[1])
                        if rest is None:
                            continue
                    else:
                        rest = ()
                    out += self._operand(info[2], rest, dn, di, gn)
                elif info[0] == "assign":
                    rest = self._rest(proj, info[1])
                    if rest is None:
                        if self._prefix(info[1], proj):
                            rest = ()   # reading the whole: include the part
                        else:
                            continue
                    if di < len(stmts):
                        out += self._rvalue(stmts[di][1], rest, dn, di, gn, q)
                    else:
                        out += self._callval(term, rest, dn, di, gn)
                else:
                    _, bp, j = info
                    rest = self._rest(proj, bp)
                    if rest is None and not self._prefix(bp, proj):
                        continue
                    out += self._mutcall(term, j, rest or (), dn, di, gn)
            else:
                if di < len(stmts):
                    out += self._rvalue(stmts[di][1], proj, dn, di, gn, q)
                else:
                    out += self._callval(term, proj, dn, di, gn)
        return out

    def overwritten(self, dn, n):
        """A definition in block dn, read at n, can be replaced by a later iteration of a loop that n is not part of."""
        a = self.bsccs.get(dn)
        return bool(a) and not (a & self.bsccs.get(n, frozenset()))

    @staticmethod
    def _rest(proj, defproj):
        """proj after removing defproj as prefix, None if different."""
        k = len(defproj)
        if len(proj) >= k and all(same_elem(a, b) for a, b in zip(proj, defproj)):
            return proj[k:]
        return None

    @staticmethod
    def _prefix(defproj, proj):
        return len(defproj) >= len(proj) and all(same_elem(a, b) for a, b in zip(proj, defproj))

    def _operand(self, o, proj, n, i, gn):
        if o[0] == "p":
            return [("q", (o[1][0], o[1][1] + proj, n, i), gn)]
        if proj and (o[1].get("v") or {}).get("e") == "None":
            return []
        return self._ops(("const", konst(o[1])), (), gn)

    def _ops(self, base, proj, gn):
        """An operation result read through the projection proj."""
        op = base
        for e in proj:
            if e[0] == "f":
                op = ("field", op, e[1], short_owner(e[2]))
            elif e[0] == "c":
                op = ("field", op, "[%s%d]" % ("-" if e[2] else "", e[1]), "")
            elif e[0] == "s":
                op = ("field", op, "[%d..%s%d]" % (e[1], "-" if e[3] else "", e[2]), "")
        return [("op", op, gn)]

    def _rvalue(self, rv, proj, n, i, gn, q=None):
        k = rv[0]
        if k in ("use", "wpush0"):
            return self._operand(rv[1], proj, n, i, gn)
        if k == "elem":
            return self._operand(rv[1], proj, n, i, gn)
        if k == "ref":
            # what the referent holds at the point of use
            pl = rv[1]
            if q is not None and self.ndefs.get(pl[0], 0) > 1 and rv[2]:
                return [("q", (pl[0], pl[1] + proj, q[2], q[3]), gn)]
            return [("q", (pl[0], pl[1] + proj, n, i), gn)]
        if k == "agg":
            kind, ops = rv[1], rv[2]
            if kind[0] == "adt" and kind[1] in WRAP:
                if not ops:
                    return [] if proj else self._ops(("const", kind[2]), (), gn)
                if proj and proj[0][0] == "w":
                    if not wmatch(proj[0][1], kind[2]):
                        return []
                    proj = proj[1:]
                return self._operand(ops[0], proj, n, i, gn)
            if proj and proj[0][0] == "f":
                o = self._agg_field(rv, proj[0])
                if o == "novariant":
                    return []
                if o is not None:
                    return self._operand(o, proj[1:], n, i, gn)
            if proj and proj[0][0] == "c" and kind[0] == "array":
                j = proj[0][1]
                if proj[0][2]:
                    j = len(ops) - j
                if 0 <= j < len(ops):
                    return self._operand(ops[j], proj[1:], n, i, gn)
            if proj and proj[0][0] == "w":
                proj = proj[1:]
            if kind[0] == "tuple" and len(ops) > 1 and not proj:
                return self._ops(("agg", n, i), (), gn)
            if kind[0] == "tuple" or (kind[0] == "array" and (len(ops) < 2 or proj)):
                r = []
                for o in ops:
                    r += self._operand(o, (), n, i, gn)
                return r
            return self._ops(("agg", n, i), proj, gn)
        if k in ("bin", "un", "discr"):
            return self._ops((k, n, i), (), gn)
        if k == "cbarg":
            return self._ops(("cb", n, i), proj, gn)
        if k == "idx":
            return self._ops(("const", "index"), (), gn)
        if k == "default":
            if self._container(self.fl.blocks[n][0][i][0]):
                return []
            return self._ops(("const", "default"), (), gn)
        return []

    def _callval(self, term, proj, n, i, gn):
        _, c, args, dest, _ = term
        path = strip_generics(c["path"])
        m = last(path)
        ws = self._ws(c) or c["res"].startswith("<rec>")
        if path in ("core::clone::Clone::clone", "core::convert::From::from"):
            ws = False
        if ws and path.endswith("::Commit::get_oid"):
            # the id of a commit that was looked up by id
            ss = self.sources(args[0], n, i)
            if ss and len(ss) == 1 and ss[0][0] == "def":
                (_, (l, p)), b, j = ss[0][1]
                stmts, t, _, _ = self.fl.blocks[b]
                if j - 1 == len(stmts) and t[0] == "call" and t[3][0] == l and all(e[0] == "w" for e in p) \
                        and re.search(r"::Repo::find_commit(_or_fail)?$", strip_generics(t[1]["path"])):
                    return self._operand(t[2][1], proj, b, j - 1, gn)
        if not ws:
            if m == "call" or path.startswith("<"):
                pass
            if m in ("branch", "unwrap", "expect") and args:
                if m == "branch":
                    if proj and proj[0][0] == "w":
                        v = "Ok" if proj[0][1] == "Continue" else "Err"
                        return self._operand(args[0], (("w", v),) + proj[1:], n, i, gn)
                    return self._operand(args[0], proj, n, i, gn)
                return self._operand(args[0], (("w", "Ok"),) + proj, n, i, gn)
            if m == "from_residual":
                if proj and proj[0] == ("w", "Err"):
                    return self._operand(args[0], proj, n, i, gn)
                return []
            if m == "next" and args:
                p = proj[1:] if proj and proj[0][0] == "w" else proj
                k = self._nth(args[0], n)
                if k is not None:
                    return self._ops(("nth", n, k), p, gn)
                return self._operand(args[0], p, n, i, gn)
            if m in PERMUTE and args and m[0] in "rs" and m != "sort_unstable":
                return self._operand(args[0], proj, n, i, gn) + self._ops(("mut", n, 0), (), gn)
            if m in ("keys", "into_keys") and args:
                return self._operand(args[0], (("f", "0", ""),) + proj, n, i, gn)
            if m in ("values", "into_values", "values_mut") and args and "HashSet" not in path:
                return self._operand(args[0], (("f", "1", ""),) + proj, n, i, gn)
            at = self._const_at(c, m, args, n, i)
            if at is not None:
                return self._operand(args[0], (at,) + (proj[1:] if proj and proj[0][0] == "w" else proj), n, i, gn)
            if m in ("get", "get_mut", "index", "index_mut", "remove") and len(args) >= 2 and is_coll(path, c):
                p = proj
                while p and p[0][0] == "w":
                    p = p[1:]
                return self._ops(("call", n, "lookup"), p, gn)
            if transparent(path, m, c):
                if not args:
                    return []
                if m in ("try_into", "try_from", "parse") and c["res"] in self.prog.fns:
                    return self._ops(("call", n, None), proj, gn)
                return self._operand(args[0], proj, n, i, gn)
            if m == "new" and not args or m in ("with_capacity", "new_uninit"):
                if is_std(path) or path.startswith(("indexmap", "itertools")):
                    return []
            if m == "empty" and path.startswith("core::iter"):
                return []
            if m == "default" and is_std(path) and not ws:
                if self._container(dest):
                    return []
                return self._ops(("const", "default"), (), gn)
        return self._ops(("call", n, None), proj, gn)

    def _container(self, pl):
        """A place whose default value holds nothing."""
        if pl[1]:
            return False
        t = self.fl.types[pl[0]]
        parts = targs("t<" + t[1:-1] + ">") if t.startswith("(") else []
        return all(re.match(r"(alloc::(string::String|vec::Vec|collections)|std::collections|indexmap::|std::path::PathBuf)", x)
                   for x in parts or [t])

    def _const_at(self, c, m, args, n, i):
        """Projection to the element that a call with a constant index picks from a list."""
        if m not in ("get", "index", "first", "last") or not args or args[0][0] != "p":
            return None
        st = c["self"] or ""
        if not (c["path"].startswith("core::slice::") or st.startswith(("alloc::vec::Vec<", "["))):
            return None
        if m in ("first", "last"):
            return ("c", 0, 0) if m == "first" else ("c", 1, 1)
        k = self.const_of(args[1], n, i) if len(args) == 2 else None
        return ("c", k[1], 0) if k and k[0] == "n" and k[1] >= 0 else None

    def _nth(self, a, b):
        """Which of several successive `next` calls on one iterator block b makes."""
        if a[0] != "p" or self.loop_branch(b):
            return None
        if not hasattr(self, "_nths"):
            by = {}
            for x in sorted(self.good_blocks):
                stmts, term, _, _ = self.fl.blocks[x]
                if term[0] == "call" and term[2] and term[2][0][0] == "p" and not self.loop_branch(x) \
                        and last(strip_generics(term[1]["path"])) == "next" and not self._ws(term[1]):
                    for base in self.mut_bases(term[2][0][1][0]):
                        by.setdefault(base, []).append(x)
            pos = {}
            for x in self.g.topo:
                pos.setdefault(self.g.nodes[x][0], len(pos))
            self._nths = {}
            for base, xs in by.items():
                if len(xs) > 1:
                    for k, x in enumerate(sorted(xs, key=lambda x: pos.get(x, 0))):
                        self._nths[x] = k
        return self._nths.get(b)

    def _mutcall(self, term, j, rest, n, i, gn):
        _, c, args, dest, _ = term
        path = strip_generics(c["path"])
        m = last(path)
        if not self._ws(c):
            if m in IGNORED_MUT or is_noise(path):
                return []
            if m in ADDERS:
                a = [x for k2, x in enumerate(args) if k2 != j]
                if m == "insert" and len(a) == 2 and rest and rest[0] in (("f", "0", ""), ("f", "1", "")):
                    a = [a[int(rest[0][1])]]
                    rest = rest[1:]
                r = []
                keys = self.mut_keys(args[j][1][0]) if args[j][0] == "p" else []
                if keys and rest and rest[0] == ("f", "0", ""):
                    a, rest = [], rest[1:]
                elif keys and rest and rest[0] == ("f", "1", ""):
                    keys, rest = [], rest[1:]
                if not rest and (m == "insert" and len(a) == 2 and "Vec" not in path or keys and a):
                    return self._ops(("pair", n, j), (), gn)
                for x in a:
                    r += self._operand(x, rest if len(a) == 1 else (), n, i, gn)
                for x, kb, ki in keys:
                    r += self._operand(x, (), kb, ki, gn)
                return r
            if m == "<assign>" or path == "<assign>":
                r = []
                for k2, x in enumerate(args):
                    if k2 != j:
                        r += self._operand(x, rest, n, i, gn)
                return r
        return self._ops(("mut", n, j), (), gn)

    # ------------------------------------------------------------ operations
    def op_info(self, op):
        """(label, [(pos, "q"/"op", query or op)])"""
        k = op[0]
        if k == "const":
            return op[1], []
        if k == "param":
            l = self.fl.params[op[1]]
            return self.pnames[op[1]], []
        if k == "field":
            return (op[3] + "." if op[3] else ".") + op[2], [("", "op", op[1])]
        n = op[1]
        stmts, term, _, _ = self.fl.blocks[n]
        if k == "nth":
            return "nth(%d)" % op[2], [("", "o", (term[2][0], n, len(stmts)))]
        if k == "pair":
            args, j, t = term[2], op[2], len(stmts)
            a = [x for k2, x in enumerate(args) if k2 != j]
            keys = self.mut_keys(args[j][1][0]) if args[j][0] == "p" else []
            if keys:
                return "tup", [("0", "o", x) for x in keys] + [("1", "o", (x, n, t)) for x in a]
            return "tup", [(str(p), "o", (x, n, t)) for p, x in enumerate(a)]
        if k in ("call", "mut"):
            _, c, args, dest, _ = term
            if k == "call" and op[2] == "lookup":
                lab = "lookup"
            else:
                lab = call_label(c)
            out = []
            t = len(stmts)
            if lab == "fmt":
                return lab, [(str(a), "o", (x, n, t)) for a, x in enumerate(args)]
            names = self.argnames(c, len(args))
            for a, x in enumerate(args):
                if k == "mut" and a == op[2]:
                    continue
                out.append(("" if SYMMETRIC.match(lab) else names[a], "o", (x, n, t)))
            return (lab if k == "call" else "~" + PERMUTE.get(last(lab), lab)), out
        i = op[2]
        rv = stmts[i][1]
        if k == "agg":
            kind, ops = rv[1], rv[2]
            if kind[0] == "adt":
                nm = last(kind[1])
                lab = nm + "::" + kind[2] if kind[4] else nm
                return lab, [(kind[3][j] if j < len(kind[3]) else str(j), "o", (o, n, i)) for j, o in enumerate(ops)]
            if kind[0] == "closure":
                return "closure", [("c", "o", (o, n, i)) for j, o in enumerate(ops)]
            if kind[0] == "tuple":
                return "tup", [(str(j), "o", (o, n, i)) for j, o in enumerate(ops)]
            return "arr", [(str(j), "o", (o, n, i)) for j, o in enumerate(ops)]
        if k == "bin":
            a, b = (rv[2], n, i), (rv[3], n, i)
            lab = rv[1]
            if lab in ("Gt", "Ge"):
                lab = {"Gt": "Lt", "Ge": "Le"}[lab]
                a, b = b, a
            lab = lab.replace("WithOverflow", "")
            return lab, [("0", "o", a), ("1", "o", b)]
        if k == "un":
            return "len" if rv[1] == "PtrMetadata" else rv[1], [("0", "o", (rv[2], n, i))]
        if k == "cb":
            return "cb:%s.%d" % (rv[1], rv[2]), [(str(j), "o", (o, n, i)) for j, o in enumerate(rv[3])]
        if k == "discr":
            return "variant", [("0", "o", (("p", rv[1]), n, i))]
        return k, []

    def argnames(self, c, n):
        fn = self.prog.fns.get(c["res"])
        if fn is not None:
            r = [x[1:] for x in type_names(fn.locals[1:1 + fn.argc])][:n]
            return r + [str(i) for i in range(len(r), n)]
        return [str(i) for i in range(n)]

    def firsts_of(self, kind, x):
        """First non-transparent operations: list of (op, frozenset of guard nodes)."""
        if kind == "op":
            return [(x, frozenset())]
        if kind == "o":
            o, n, i = x
            if o[0] != "p":
                return [(("const", konst(o[1])), frozenset())]
            x = (o[1][0], o[1][1], n, i)
        key = x
        r = self.firsts_memo.get(key)
        if r is not None:
            return r
        out = {}
        seen = {}
        work = [(x, frozenset())]
        while work:
            q, gs = work.pop()
            old = seen.setdefault(q, [])
            if any(o <= gs for o in old) or len(old) >= 4:
                continue
            old.append(gs)
            for s in self.step(q):
                g2 = gs if s[2] is None else gs | {s[2]}
                if s[0] == "q":
                    work.append((s[1], g2))
                else:
                    o = out.setdefault(s[1], [])
                    if not any(y <= g2 for y in o):
                        o.append(g2)
        r = [(op, g) for op, o in out.items() for g in o]
        self.firsts_memo[key] = r
        if len(out) > 1 and any(op[0] == "agg" and self.op_info(op)[0] == "arr" for op in out):
            # a list built from a literal and further elements: order is not tracked
            flat = {}
            for op, g in r:
                if op[0] == "agg" and self.op_info(op)[0] == "arr":
                    for _, k, a in self.op_info(op)[1]:
                        for op2, g2 in self.firsts_of(k, a):
                            flat.setdefault((op2, g | g2))
                else:
                    flat.setdefault((op, g))
            r = self.firsts_memo[key] = list(flat)
        return r

    def render(self, kind, x, depth=3):
        fs = self.firsts_of(kind, x)
        if len(fs) > 1 and all(op[0] == "agg" for op, _ in fs):
            # one of several wrappings of the same kind: the wrapping of one of several
            infos = [self.op_info(op) for op in {op for op, _ in fs}]
            if len(infos) > 1 and len({lab for lab, _ in infos}) == 1 and infos[0][0] not in ("arr", "tup") \
                    and all(len(args) == 1 for _, args in infos):
                inner = {op for _, args in infos for op, _ in self.firsts_of(args[0][1], args[0][2])}
                names = sorted({self.render_op(op, 0 if len(inner) > 1 else depth - 2) for op in inner} - {"~reverse", "~sort", ""})
                if names:
                    return clip(infos[0][0] + "(" + (names[0] if len(names) == 1 else clip("{" + "|".join(names) + "}")) + ")")
        if len({op for op, _ in fs if op[0] != "mut" or self.op_info(op)[0] not in ("~reverse", "~sort")}) > 1:
            depth = 0
        names = sorted({self.render_op(op, depth) for op, _ in fs} - {"~reverse", "~sort"})
        names = [s for s in names if s]
        if len(names) == 1:
            return names[0]
        if not names:
            return kind == "o" and self._slot(*x) or "_"
        return clip("{" + "|".join(names) + "}")

    def _slot(self, op, b, i):
        """The field in which a value of no known origin is kept."""
        for _ in range(20):
            if op[0] != "p":
                return None
            l, proj = op[1]
            fs = [e for e in proj if e[0] == "f" and e[2]]
            if fs:
                return short_owner(fs[-1][2]) + "." + fs[-1][1]
            ds = [d for d in self.reaching(l, b, i) if d[0] != "param"]
            if len(ds) != 1 or ds[0][1] >= len(self.fl.blocks[ds[0][0]][0]):
                return None
            b, i = ds[0][0], ds[0][1]
            rv = self.fl.blocks[b][0][i][1]
            if rv[0] == "ref":
                op = ("p", rv[1])
            elif rv[0] == "use":
                op = rv[1]
            else:
                return None
        return None

    def render_op(self, op, depth):
        key = (op, depth)
        r = self.render_memo.get(key)
        if r is not None:
            return r
        lab, args = self.op_info(op)
        if not args:
            r = lab
        elif depth <= 0 or op[0] == "agg" and len(args) > 1 and lab not in ("arr", "tup"):
            r = lab + "(..)"
        elif op[0] == "field":
            r = self.render(args[0][1], args[0][2], depth - 1)
            r = lab + "<" + r if r != "_" else lab
        else:
            parts = []
            for pos, k, a in args:
                parts.append(self.render(k, a, depth - 1))
            if lab in ("Eq", "Ne", "eq", "ne", "BitAnd", "BitOr", "Add") or SYMMETRIC.match(lab):
                parts.sort()
            r = clip(lab + "(" + ",".join(parts) + ")")
        self.render_memo[key] = r
        return r

    gdepth = 2     # levels of a slice below the first whose edges carry conditions

    def conditions(self, depth=4):
        """Provenance of what the reported conditions are about."""
        starts = {}
        for var in self.shown:
            starts.update(self.cond_starts.get(var, {}))
        return self.slice([starts[k] for k in sorted(starts)], depth=depth, plain=True)

    def slice(self, starts, base=((),), depth=4, seeds=None, plain=False):
        """Provenance of a value as a set of labelled edges."""
        edges, first, level = {}, {}, {}
        heap, count = [], 0

        def reach(op, lv, gss):
            """op is found at level lv under the guards gss; those of its lowest level count."""
            nonlocal count
            if lv > level.get(op, lv):
                return
            if lv < level.get(op, lv + 1):
                level[op], first[op] = lv, []
                count += 1
                heapq.heappush(heap, (lv, count, op))
            first[op] += [g for g in gss if g not in first[op]]

        for j, (kind, x) in enumerate(starts):
            for op, gs in self.firsts_of(kind, x):
                if plain:
                    gs = frozenset()
                elif seeds:
                    gs = gs | seeds[j]
                edges.setdefault(("", self.op_info(op)[0]), []).append(gs)
                reach(op, 1000, [gs])
        while heap:
            lv, _, op = heapq.heappop(heap)
            d = lv // 1000
            if lv != level[op] or d > depth:
                continue
            lab, args = self.op_info(op)
            dup = self._ambiguous(args)
            free = ALGEBRA.match(lab) is not None
            ups = first[op] if len(first[op]) <= 12 else [frozenset.intersection(*first[op])]
            for pos, k, a in args:
                for op2, gs in self.firsts_of(k, a):
                    to = self.op_info(op2)[0]
                    if to == "NameSet::empty" and lab == "NameSet::union":
                        continue
                    if to in dup:
                        to += "{" + ",".join(sorted(self.leaves(op2))) + "}"
                    e = (lab + "." + pos if pos else lab, to)
                    if d <= self.gdepth and not plain:
                        new = [gs | up for up in ups]
                        edges.setdefault(e, []).extend(new)
                    else:
                        new = [frozenset()]
                        edges.setdefault(e, []).append(frozenset())
                    reach(op2, lv + (1 if free else 1000), new)
        out = set()
        for (p, c), gss in edges.items():
            g = self._edge_guard(gss, base)
            if c.startswith("#Option<") and " | " not in g:
                # what an option holds is read only where it holds something
                g = " & ".join(x for x in g.split(" & ") if x != c + "=Some")
            out.add(p + "<" + c + (" ?" + g if g else ""))
        return out

    def _ambiguous(self, args):
        """Labels found in more than one argument position; those are told apart by what they are computed from."""
        if len(args) < 2:
            return ()
        at = {}
        for pos, k, a in args:
            for op, _ in self.firsts_of(k, a):
                lab, sub = self.op_info(op)
                if sub:
                    at.setdefault(lab, set()).add(pos)
        return {l for l, ps in at.items() if len(ps) > 1}

    def leaves(self, op, depth=30):
        """Labels of the parameters and constants an operation is computed from."""
        out, seen, work = set(), set(), [(op, 0)]
        while work:
            x, d = work.pop()
            if x in seen or d > depth:
                continue
            seen.add(x)
            lab, args = self.op_info(x)
            if not args:
                out.add(lab)
            elif x[0] == "field" and x[1][0] == "param":
                out.add(self.op_info(x[1])[0] + "." + x[2])
                continue
            elif lab == "other" or x[0] == "field" and x[2][:1] == "[":
                out.add(lab)
            for pos, k, a in args:
                work += [(y, d + 1) for y, _ in self.firsts_of(k, a)]
        return out

    def _edge_guard(self, gss, base):
        if any(not g for g in gss):
            return ""
        dnf = []
        single = set()
        for gs in set(gss):
            if len(gs) == 1 and not isinstance(next(iter(gs)), tuple):
                single |= gs
            else:
                dnf += self.conj_dnf([self.GB(n) for n in sorted(gs, key=str)])
        if single:
            dnf += self.GS([x for b in single for x in self.g.byblock[b]])
        common = set(self._common(base)[0]) if base else set()
        known = dict(common)
        live = [c for c in dnf if all(v not in known or known[v] & x for v, x in c)]
        cs = [frozenset(l for l in c if l not in common) for c in live or dnf]
        cs = self.simplify(cs)
        if any(not c for c in cs):
            return ""
        return " | ".join(" & ".join(sorted(self.show_lit(v, x) for v, x in c)) for c in cs)

    # ------------------------------------------------------------ guards
    def show_lit(self, var, vals, report=True):
        u = self.univ.get(var)
        if report:
            self.shown.add(var)
        if u == BOOL:
            return var if "T" in vals else "!" + var
        return var + "=" + "|".join(sorted(vals))

    def G(self, n):
        """Guard of node n: tuple of conjunctions, each a frozenset of (var, frozenset vals)."""
        r = self.G_memo.get(n)
        if r is not None:
            return r
        need, work = {n}, [n]
        while work:
            x = work.pop()
            for p, _ in self.g.cd.get(x, ()):
                if p not in need and p not in self.G_memo:
                    need.add(p)
                    work.append(p)
        for x in sorted(need, key=self.topopos.__getitem__):
            ps = self.g.cd.get(x)
            if not ps:
                self.G_memo[x] = (frozenset(),)
                continue
            dnf = []
            for p, l in sorted(ps, key=str):
                dnf += self._edge(self.G_memo[p], p, l)
            self.G_memo[x] = self.simplify(dnf)
        return self.G_memo[n]

    def GB(self, b):
        """Guard of block b."""
        if isinstance(b, tuple):
            lit = self._booll("last", True)
            return tuple(self._and(c, lit) for c in self.GB(b[0]))
        return self.GS(self.g.byblock[b])

    def GS(self, nodes):
        """Guard of reaching any of `nodes`."""
        S = frozenset(n for n in nodes if n in self.g.reach)
        if len(S) == 1:
            return self.G(next(iter(S)))
        if not S:
            return ()
        r = self.G_memo.get(S)
        if r is not None:
            return r
        must = set()
        for x in reversed(self.g.topo):
            if x in S:
                must.add(x)
            else:
                ss = self.g.dsucc[x]
                if ss and all(s in must for s, _ in ss):
                    must.add(x)
        dnf = []
        if self.g.entry in must:
            r = (frozenset(),)
        else:
            for x in self.g.topo:
                if x in must:
                    continue
                for s, l in self.g.dsucc[x]:
                    if s in must:
                        dnf += self._edge(self.G(x), x, l)
            r = self.simplify(dnf)
        self.G_memo[S] = r
        return r

    def _edge(self, g, n, label):
        """Guard g of node n extended by taking edge `label`."""
        lit, alts = self.lits(n, label)
        out = []
        if alts is None:
            known = [c for c in g if self._meet(c, (lit,)) is not None] if lit else []
            for conj in known or g:
                out.append(self._and(conj, lit))
            return out
        if not alts:
            return []
        for conj in g:
            for a in alts:
                c = self._meet(conj, a)
                if c is not None:
                    out.append(c)
        return out or list(g)

    @staticmethod
    def _meet(a, b):
        d = dict(a)
        for v, x in b:
            if v in d:
                x = d[v] & x
                if not x:
                    return None
            d[v] = x
        return frozenset(d.items())

    def lits(self, n, label):
        """(literal, None) of an edge, or (None, alternatives) if the tested value has several sources."""
        key = (n, label)
        r = self.lits_memo.get(key)
        if r is None:
            r = self.lits_memo[key] = self._left(n, label) or self._lits(n, label)
        return r

    def _left(self, n, label):
        """Leaving a loop early means some item met the condition, going on that this one did not."""
        if n not in self.g.leave:
            return None
        outs, ins = self.g.leave[n]
        if label not in outs and label not in ins:
            return None
        texts, starts = [], set()
        for l in outs:
            lit, alts = self._lits(n, l)
            if alts is not None:
                texts += [" & ".join(sorted(self.show_lit(*y, False) for y in c)) for c in alts]
                starts.update(y[0] for c in alts for y in c)
            elif lit is None:
                return None
            else:
                texts.append(self.show_lit(*lit, False))
                starts.add(lit[0])
        var = "some " + clip(" | ".join(sorted(set(texts))))
        for s in starts:
            self.cond_starts.setdefault(var, {}).update(self.cond_starts.get(s, {}))
        lit = self._booll(var, label in outs)
        side = outs if label in outs else ins
        if len(side) == 1 or len({t for t, l in self.g.succ[n] if l in side}) == 1:
            return (lit, None)
        own, alts = self._lits(n, label)
        if alts is None:
            return (None, [frozenset([lit] + ([own] if own else []))])
        return (None, [frozenset(set(c) | {lit}) for c in alts])

    def _lits(self, n, label):
        key = (n, label, 0)
        r = self.lits_memo.get(key)
        if r is None:
            b = self.g.nodes[n][0]
            if label is not None and label[0] == "sw":
                stmts, term, _, _ = self.fl.blocks[b]
                if term[0] == "switch" and term[1][0] == "p" and term[2] == "bool":
                    listed = [v for v, _ in term[3]]
                    val = label[1]
                    truth = (val is None and "0" in listed) or (val is not None and val != "0")
                    alts = self.boolalts(term[1], b, len(stmts), truth, self.topopos.get(n, -1))
                    if alts is not None:
                        r = (None, alts)
                elif term[0] == "switch" and term[1][0] == "p":
                    d = self.unique_def(term[1], b, len(stmts))
                    if d and d[0] == "rv" and d[1][0] == "discr":
                        rv = d[1]
                        vals = self._discr_vals(rv, label[1], [v for v, _ in term[3]])
                        alts = self.varalts(("p", rv[1]), d[2], d[3], rv[2], [nm for _, nm in rv[3]], vals, self.topopos.get(n, -1))
                        if alts is not None:
                            r = (None, alts)
                    elif re.match(r"[iu](\d+|size)$|char$", term[2]):
                        # a choice between numbers asks the questions that comparisons with them ask
                        x = (term[1], b, len(stmts))
                        ask = lambda k, t: self.cmpcond("Eq", x, (("k", {"ty": term[2], "v": {"i": int(k)}}), b, len(stmts)), t)
                        if label[1] is not None:
                            r = (ask(label[1], True), None)
                        else:
                            r = (None, [frozenset(ask(k, False) for k, _ in term[3])])
            r = r or (self.lit(b, label), None)
            self.lits_memo[key] = r
        return r

    def sources(self, op, b, i):
        """Definitions op may hold: [(kind, (op, block, idx), joins)], positions from which the value is read
        unchanged and the blocks of the alternative definitions that select them."""
        out, seen, work = [], set(), [(op, b, i, frozenset())]
        while work:
            op, b, i, js = work.pop()
            if op[0] != "p":
                out.append(("const", (op, b, i), js))
                continue
            if (op, b, i) in seen:
                continue
            seen.add((op, b, i))
            l, proj = op[1]
            ds = self.reaching(l, b, i)
            if any(d[0] != "param" and d[2] == "weak" for d in ds):
                out.append(("opaque", (op, b, i), js))
                continue
            for d in ds:
                if d[0] == "param":
                    out.append(("param" if len(ds) == 1 else "opaque", (op, self.bentry, 0), js))
                    continue
                dn, di = d[0], d[1]
                j2 = js | {dn} if len(ds) > 1 else js
                stmts, term, _, _ = self.fl.blocks[dn]
                if di < len(stmts):
                    rv = stmts[di][1]
                    if rv[0] == "use":
                        o = rv[1]
                        work.append((("p", (o[1][0], o[1][1] + proj)) if o[0] == "p" else o, dn, di, j2))
                        continue
                    if rv[0] == "ref":
                        work.append((("p", (rv[1][0], rv[1][1] + proj)), dn, di, j2))
                        continue
                    if rv[0] == "agg":
                        o, rest = self._proj_agg(rv, proj)
                        if o == "none":
                            continue
                        if o is not None:
                            work.append((("p", (o[1][0], o[1][1] + rest)) if o[0] == "p" else o, dn, di, j2))
                            continue
                        if rv[1][0] == "adt" and rv[1][4]:
                            out.append(("const", (("p", (l, proj)), dn, di + 1), j2))
                            continue
                else:
                    o = self._through(term, proj)
                    if o == "none":
                        continue
                    if o is not None:
                        work.append((o, dn, di, j2))
                        continue
                out.append(("def", (("p", (l, proj)), dn, di + 1), j2))
            if len(out) + len(work) > 12:
                return None
        return out

    def _through(self, term, proj):
        """The operand that part proj of a call's result is; "none" if the result has no such part."""
        c, args = term[1], term[2]
        m = last(strip_generics(c["path"]))
        if self._ws(c) or not args or args[0][0] != "p":
            return None
        if proj and proj[0][0] == "w":
            if m == "branch":
                proj = (("w", "Ok" if proj[0][1] == "Continue" else "Err"),) + proj[1:]
            elif m == "from_residual":
                return "none" if proj[0][1] != "Err" else None
            elif m not in ("as_ref", "as_deref", "as_mut", "as_deref_mut", "cloned", "copied", "map_err", "wrap_err", "wrap_err_with",
                           "context", "with_context", "suggestion", "with_suggestion"):
                return None
        elif m in ("unwrap", "expect"):
            proj = (("w", "Ok"),) + proj
        else:
            return None
        l, pj = args[0][1]
        return ("p", (l, pj + proj))

    def _proj_agg(self, rv, proj):
        """Operand of an aggregate selected by proj, or "none" if the variant differs."""
        kind, ops = rv[1], rv[2]
        if not proj:
            return None, None
        if kind[0] == "adt" and kind[1] in WRAP:
            if proj[0][0] == "w":
                if not ops or not wmatch(proj[0][1], kind[2]):
                    return "none", None
                return ops[0], proj[1:]
            return None, None
        if proj[0][0] == "f":
            o = self._agg_field(rv, proj[0])
            if o == "novariant":
                return "none", None
            if o is not None:
                return o, proj[1:]
        return None, None

    def narrow(self, op, b, i):
        """A position at which op's only not-statically-known source is read."""
        if op[0] != "p":
            return op, b, i
        key = (op[1], b, i)
        r = self.narrow_memo.get(key)
        if r is None:
            r = (op, b, i)
            ss = self.sources(op, b, i)
            if ss:
                live = list(dict.fromkeys(x for k, x, _ in ss if k != "const"))
                if len(live) == 1:
                    r = live[0]
                elif not live and len(ss) == 1:
                    r = ss[0][1]
            self.narrow_memo[key] = r
        return r

    def boolalts(self, op, b, i, truth, pos, depth=0):
        """DNF of `op == truth` when op merges values computed on different paths; None if it does not."""
        if op[0] != "p" or depth > 3:
            return None
        op, b, i = self.narrow(op, b, i)
        if op[0] != "p":
            return None
        d = self.unique_def(op, b, i)
        if d:
            if d[0] == "rv" and d[1][0] == "un" and d[1][1] == "Not":
                return self.boolalts(d[1][2], d[2], d[3], not truth, pos, depth + 1)
            return self.cmpalts(d, truth, pos)
        return self._alts(op, b, i, pos, lambda x: self.boolalts(*x, truth, pos, depth + 1), lambda x: self.boolcond(*x, truth))

    def varalts(self, op, b, i, enum, universe, vals, pos, depth=0):
        """DNF of `op is one of vals`, like boolalts."""
        if op[0] != "p" or depth > 3:
            return None
        op, b, i = self.narrow(op, b, i)
        if op[0] != "p":
            return None
        d = self.unique_def(op, b, i)
        if d:
            t = self._vmap(d, enum, universe, vals)
            return self.varalts(*t, pos, depth + 1) if t else None
        return self._alts(op, b, i, pos, lambda x: self.varalts(*x, enum, universe, vals, pos, depth + 1),
                          lambda x: self.variantcond(*x, enum, universe, vals))

    def _before(self, b, pos):
        """Nodes of block b passed before the node at pos; none if it may also come round to b again."""
        at = self.g.topo[pos] if pos >= 0 else None
        late = [y for y in self.g.byblock[b] if self.topopos.get(y, 1 << 30) >= pos]
        if late and any(at in body and not body.isdisjoint(late) for body in self.g.loops.values()):
            return None
        anc = self._anc.get(at)
        if anc is None:
            if not self._dpred:
                for x in self.g.topo:
                    for y, _ in self.g.dsucc[x]:
                        self._dpred.setdefault(y, []).append(x)
            anc, work = {at}, [at]
            while work:
                for x in self._dpred.get(work.pop(), ()):
                    if x not in anc:
                        anc.add(x)
                        work.append(x)
            self._anc[at] = anc
        return tuple(y for y in self.g.byblock[b] if y in anc)

    def _alts(self, op, b, i, pos, deeper, literal):
        ss = self.sources(op, b, i)
        if not ss:
            return None
        live = {}
        for k, x, js in ss:
            if k == "opaque":
                return None
            if k != "const":
                if not js:
                    return None
                live.setdefault(x, []).append(js)
        if not 2 <= len(live) <= 4:
            return None
        out = []
        for x, jss in live.items():
            if any(self._before(j, pos) is None for js in jss for j in js):
                return None
            sub = deeper(x)
            if sub is None:
                y = literal(x)
                sub = [frozenset([y])] if y else [frozenset()]
            for js in jss:
                if not all(self._before(j, pos) for j in js):
                    continue
                for g in self.conj_dnf([self.GS(self._before(j, pos)) for j in sorted(js)]):
                    for c in sub:
                        m = self._meet(g, c)
                        if m is not None:
                            out.append(m)
        return out or None

    def _and(self, conj, lit):
        if lit is None:
            return conj
        var, vals = lit
        d = dict(conj)
        if var in d:
            v = d[var] & vals
            # disjoint: two values under one name (e.g. successive iterations); the later test counts
            d[var] = v or vals
        else:
            d[var] = vals
        return frozenset(d.items())

    CAP = 40

    def simplify(self, dnf):
        """All prime implicants (iterated consensus), or what all alternatives share if too many."""
        cs = self._absorb(self._join(self._exclusive(set(dnf))))
        if not cs:
            return (frozenset(),)
        while len(cs) > self.CAP:
            cs = self._absorb(self._forget(cs))
        tried = set()
        changed = True
        while changed:
            changed = False
            lst = sorted(cs, key=conj_key)
            for ia, a in enumerate(lst):
                for b in lst[ia + 1:]:
                    if (a, b) in tried:
                        continue
                    tried.add((a, b))
                    for c in self._consensus(a, b):
                        if not any(self._implies(c, k) for k in cs):
                            cs = {k for k in cs if not self._implies(k, c)}
                            cs.add(c)
                            changed = True
                    if len(cs) > self.CAP:
                        return self.simplify(self._forget(cs))
        return tuple(sorted(cs, key=conj_key))

    def _exclusive(self, cs):
        """What equals one constant differs from the others."""
        if not self.eqk:
            return cs
        out = set()
        for c in cs:
            eq = {}
            for v, x in c:
                if v in self.eqk and x == TRUE:
                    eq.setdefault(self.eqk[v][0], set()).add(v)
            if any(len(x) > 1 for x in eq.values()):
                continue
            out.add(frozenset((v, x) for v, x in c if x == TRUE or v not in self.eqk or self.eqk[v][0] not in eq) if eq else c)
        return out or cs

    def _join(self, cs):
        """Join alternatives that differ in one variable only."""
        common = frozenset.intersection(*cs) if cs else frozenset()
        rest = [c - common for c in cs]
        vs = {v for c in rest for v, _ in c}
        if len(cs) < 2 or len(vs) != 1 or not all(rest):
            return cs
        x = frozenset().union(*(x for c in rest for _, x in c))
        v = vs.pop()
        return {common if x == self.univ.get(v) else common | {(v, x)}}

    def _consensus(self, a, b):
        da, db = dict(a), dict(b)
        for v in da:
            if v not in db or da[v] <= db[v] or db[v] <= da[v]:
                # a one-sided overlap adds nothing beyond absorption unless equal elsewhere
                if v not in db:
                    continue
            d = {}
            ok = True
            for k in set(da) | set(db):
                if k == v:
                    continue
                if k in da and k in db:
                    x = da[k] & db[k]
                    if not x:
                        ok = False
                        break
                else:
                    x = da.get(k, db.get(k))
                d[k] = x
            if not ok:
                continue
            x = da[v] | db[v]
            if x != self.univ.get(v):
                d[v] = x
            yield frozenset(d.items())

    def _absorb(self, cs):
        out = []
        for c in sorted(cs, key=conj_key):
            if not any(self._implies(c, k) for k in out):
                out.append(c)
        return set(out)

    @staticmethod
    def _forget(cs):
        """Drop the variable on which the alternatives differ most (a weaker, still necessary condition)."""
        n = {}
        for c in cs:
            for v, x in c:
                n.setdefault(v, {}).setdefault(x, 0)
                n[v][x] += 1
        tot = len(cs)

        def score(v):
            d = n[v]
            seen = sum(d.values())
            split = len(d) + (1 if seen < tot else 0)
            return (split > 1, "{" in v, "res " in v, split, len(v), v)
        v = max(n, key=score)
        return {frozenset(l for l in c if l[0] != v) for c in cs}

    @staticmethod
    def _common(cs):
        common = None
        for c in cs:
            common = set(c) if common is None else common & set(c)
        return (frozenset(common),)

    def conj_dnf(self, ds):
        """Conjunction of several DNFs."""
        ds = sorted((d for d in ds if d), key=lambda d: [conj_key(c) for c in d])
        # what contradicts itself is about two values under one name (e.g. successive iterations) and says nothing
        return self._product(ds, False) or [frozenset(l for l in c if l[1]) for c in self._product(ds, True)]

    def _product(self, ds, empty):
        cur = [frozenset()]
        for d in ds:
            if empty:
                nxt = []
                for c in cur:
                    for e in d:
                        x = dict(c)
                        for v, vals in e:
                            x[v] = x[v] & vals if v in x else vals
                        nxt.append(frozenset(x.items()))
            else:
                nxt = [m for m in (self._meet(c, e) for c in cur for e in d) if m is not None]
            cur = list(self._absorb(set(nxt)))
            while len(cur) > 24:
                cur = list(self._absorb(self._forget(set(cur))))
        return cur

    @staticmethod
    def _implies(a, b):
        """conjunction a implies conjunction b"""
        da = dict(a)
        return all(v in da and da[v] <= x for v, x in b)

    def show_guard(self, dnf, drop_err=False):
        out = []
        for c in dnf:
            if drop_err:
                errs = [v[4:] for v, x in c if x == frozenset(["Err"]) and v.startswith("res ")]
                if errs and not any(e in v for e in errs for v, _ in c if not v.startswith("res ")):
                    continue
            out.append(sorted(self.show_lit(v, x) for v, x in c))
        return sorted(out)

    def lit(self, n, label):
        """Literal (var, vals) for taking edge `label` at node n; None means no information."""
        key = (n, label)
        if key in self.lit_memo:
            return self.lit_memo[key]
        self.lit_memo[key] = None  # cycles
        r = self._lit(n, label)
        self.lit_memo[key] = r
        return r

    def _lit(self, n, label):
        if label is None or label[0] == "nd":
            return None
        stmts, term, _, _ = self.fl.blocks[n]
        if term[0] != "switch":
            return None
        val = label[1]
        listed = [v for v, _ in term[3]]
        op, ty = term[1], term[2]
        if op[0] != "p":
            return None
        return self.cond(op, n, len(stmts), ty, val, listed)

    def unique_def(self, op, b, i, narrow=True):
        """Follow copies to the defining statement/call: ("rv", rv, b, i) / ("call", term, b, i) / None."""
        if narrow:
            op, b, i = self.narrow(op, b, i)
        for _ in range(60):
            if op[0] != "p":
                return ("const", op[1])
            l, proj = op[1]
            ds = self.reaching(l, b, i)
            ds = [d for d in ds if d[0] != "param"] if len(ds) > 1 else ds
            if len(ds) != 1 or ds[0][0] == "param" or ds[0][2] == "weak":
                return None
            dn, di = ds[0][0], ds[0][1]
            stmts, term, _, _ = self.fl.blocks[dn]
            if di < len(stmts):
                rv = stmts[di][1]
                if rv[0] == "use":
                    if rv[1][0] == "p":
                        op = ("p", (rv[1][1][0], rv[1][1][1] + proj))
                        b, i = dn, di
                        continue
                    return ("const", rv[1][1]) if not proj else None
                if rv[0] == "ref":
                    op = ("p", (rv[1][0], rv[1][1] + proj))
                    b, i = dn, di
                    continue
                if rv[0] == "agg" and proj:
                    o, rest = self._proj_agg(rv, proj)
                    if o is None or o == "none":
                        return None
                    if o[0] != "p":
                        return ("const", o[1])
                    op = ("p", (o[1][0], o[1][1] + rest))
                    b, i = dn, di
                    continue
                if proj:
                    return None
                return ("rv", rv, dn, di)
            o = self._through(term, proj)
            if o == "none":
                return None
            if o is not None:
                op, b, i = o, dn, di
                continue
            if proj:
                return None
            return ("call", term, dn, di)
        return None

    def _booll(self, var, truth):
        self.univ[var] = BOOL
        return (var, frozenset(["T" if truth else "F"]))

    def cond(self, op, n, i, ty, val, listed):
        if ty == "bool":
            truth = (val is None and "0" in listed) or (val is not None and val != "0")
            return self.boolcond(op, n, i, truth)
        d = self.unique_def(op, n, i)
        if d and d[0] == "rv" and d[1][0] == "discr":
            _, rv, dn, di = d
            return self.variantcond(("p", rv[1]), dn, di, rv[2], [nm for _, nm in rv[3]], self._discr_vals(rv, val, listed))
        var = self._about(self.render("o", (op, n, i)), (op, n, i))
        u = self.univ.setdefault(var, frozenset())
        self.univ[var] = u | frozenset(listed) | {"other"}
        return (var, frozenset([val]) if val is not None else frozenset(["other"]))

    @staticmethod
    def _discr_vals(rv, val, listed):
        if val is not None:
            return frozenset([dict(rv[3]).get(val, val)])
        return frozenset(nm for num, nm in rv[3] if num not in listed)

    def _vmap(self, d, enum, universe, vals):
        """The variant test on the receiver equivalent to one on the result of a variant-preserving call."""
        if d[0] != "call":
            return None
        term = d[1]
        m = last(strip_generics(term[1]["path"]))
        if self._ws(term[1]) and m != "clone" or not term[2]:
            return None
        a = (term[2][0], d[2], d[3])
        if m == "branch":
            isopt = "Option" in ty_head(self.op_type(term[2][0]))
            mp = {"Continue": "Some" if isopt else "Ok", "Break": "None" if isopt else "Err"}
            return (*a, "core::option::Option" if isopt else "core::result::Result", list(mp.values()),
                    frozenset(mp[v] for v in vals if v in mp))
        if m == "ok":
            mp = {"Some": "Ok", "None": "Err"}
            return (*a, "core::result::Result", ["Ok", "Err"], frozenset(mp[v] for v in vals if v in mp))
        if m in ("as_ref", "as_deref", "as_mut", "as_deref_mut", "cloned", "copied", "clone", "map_err", "wrap_err", "wrap_err_with",
                 "context", "with_context", "to_owned", "must_use", "suggestion", "with_suggestion", "transpose"):
            return (*a, enum, universe, vals)
        return None

    def variantcond(self, op, n, i, enum, universe, vals):
        d = self.unique_def(op, n, i)
        if d and d[0] == "call":
            t = self._vmap(d, enum, universe, vals)
            if t:
                return self.variantcond(*t)
            if not self._ws(d[1][1]) and last(strip_generics(d[1][1]["path"])) == "next" and "terator" in d[1][1]["path"] and self.loop_branch(n):
                return None
            c, args = d[1][1], d[1][2]
            at = self._const_at(c, last(strip_generics(c["path"])), args, d[2], d[3]) if not self._ws(c) else None
            if at is not None:
                # there is such an element iff the list is long enough
                x = (args[0], d[2], d[3])
                some = vals == frozenset(["Some"])
                if at[2] or at[1] == 0:
                    return self._booll(self._empty(*x), not some)
                return self._booll(self._about("Lt(len(%s),%d)" % (self.render("o", x, 1), at[1] + 1), x), not some)
        if enum == "core::result::Result" or set(universe) == {"Ok", "Err"}:
            if vals == frozenset(["Ok"]):
                return None
        if enum.endswith("Poll"):
            return None
        var = self.render("o", self.narrow(op, n, i))
        if enum == "core::result::Result":
            var = "res " + var
        elif enum != "core::option::Option":
            var = var + "#" + last(strip_generics(enum))
        var = self._about(var, self.narrow(op, n, i))
        u = frozenset(universe)
        if self.univ.get(var) not in (None, u):
            self.cond_starts.setdefault(var + "'", {}).update(self.cond_starts[var])
            var = var + "'"
        self.univ[var] = u
        return (var, vals)

    def loop_branch(self, n):
        return self.bscc.get(n, 1) > 1

    def op_type(self, op):
        if op[0] == "p":
            l, proj = op[1]
            return self.fl.types[l] if not proj else self.fl.types[l]
        return op[1].get("ty", "")

    def boolcond(self, op, n, i, truth):
        d = self.unique_def(op, n, i)
        if d:
            if d[0] == "rv":
                _, rv, dn, di = d
                if rv[0] == "un" and rv[1] == "Not":
                    return self.boolcond(rv[2], dn, di, not truth)
                if rv[0] == "bin":
                    return self.cmpcond(rv[1], (rv[2], dn, di), (rv[3], dn, di), truth)
            elif d[0] == "call":
                _, term, dn, di = d
                c, args = term[1], term[2]
                m = last(strip_generics(c["path"]))
                if not self._ws(c) or c["path"].startswith("core::cmp"):
                    if m == "not":
                        return self.boolcond(args[0], dn, di, not truth)
                    if m in ("eq", "ne") and len(args) == 2:
                        return self.cmpcond("Eq" if m == "eq" else "Ne", (args[0], dn, di), (args[1], dn, di), truth)
                    if m in ("lt", "le", "gt", "ge") and len(args) == 2 and c["path"].startswith("core::cmp"):
                        return self.cmpcond(m.capitalize(), (args[0], dn, di), (args[1], dn, di), truth)
                    if m in ("is_some", "is_none"):
                        vals = frozenset(["Some" if (m == "is_some") == truth else "None"])
                        return self.variantcond(args[0], dn, di, "core::option::Option", ["None", "Some"], vals)
                    if m in ("is_ok", "is_err"):
                        vals = frozenset(["Ok" if (m == "is_ok") == truth else "Err"])
                        return self.variantcond(args[0], dn, di, "core::result::Result", ["Ok", "Err"], vals)
                    if m in ("contains", "contains_key") and len(args) == 2 and is_coll(strip_generics(c["path"]), c):
                        var = "lookup(" + self.render("o", (args[0], dn, di), 2) + "," + self.render("o", (args[1], dn, di), 2) + ")"
                        var = self._about(var, (args[0], dn, di), (args[1], dn, di))
                        self.univ[var] = frozenset(["None", "Some"])
                        return (var, frozenset(["Some" if truth else "None"]))
                    if m == "is_empty":
                        return self._booll(self._empty(args[0], dn, di), truth)
        x = self.narrow(op, n, i)
        return self._booll(self._about(self.render("o", x), x), truth)

    def _about(self, var, *xs):
        """Name of a condition on xs; one whose text leaves parts out is told apart by what it is computed from."""
        if "(..)" in var:
            ls = set()
            for x in xs:
                for op, _ in self.firsts_of("o", x):
                    ls |= self.leaves(op)
            ls = ",".join(sorted(ls))
            var += "{" + (ls if len(ls) < 120 else ls[:80] + "#" + hashlib.sha1(ls.encode()).hexdigest()[:8]) + "}"
        self.cond_starts.setdefault(var, {}).update((str(x), ("o", x)) for x in xs)
        return var

    def _empty(self, o, n, i):
        return self._about("empty(" + self.render("o", (o, n, i), 2) + ")", (o, n, i))

    def cmpcond(self, opn, a, b, truth):
        """Comparison a opn b of operands with the positions they are read at."""
        if opn in ("Ne",):
            return self.cmpcond("Eq", a, b, not truth)
        if opn == "Gt":
            return self.cmpcond("Lt", b, a, truth)
        if opn == "Ge":
            return self.cmpcond("Lt", a, b, not truth)
        if opn == "Le":
            return self.cmpcond("Lt", b, a, not truth)
        ka, kb = self.const_of(*a), self.const_of(*b)
        if opn == "Eq":
            for k, o in ((ka, b), (kb, a)):
                if k is None:
                    continue
                if k[0] == "e":
                    un = self.enum_univ(k[2])
                    if un:
                        return self.variantcond(*o, k[2], un, frozenset([k[1]]) if truth else frozenset(un) - {k[1]})
                if k[0] == "b":
                    return self.boolcond(*o, truth == (k[1] != 0))
                if k[0] == "n" and k[1] == 0:
                    x = self.len_of(*o)
                    if x is not None:
                        return self._booll(self._empty(*x), truth)
        if opn == "Lt":
            if kb and kb[0] == "n" and kb[1] == 1:
                x = self.len_of(*a)
                if x is not None:
                    return self._booll(self._empty(*x), truth)
            if ka and ka[0] == "n":
                # c < x  ==  !(x < c+1)
                if ka[1] == 0:
                    x = self.len_of(*b)
                    if x is not None:
                        return self._booll(self._empty(*x), not truth)
                if ka[1] == 0 and self.unsigned(b[0]):
                    return self._booll(self._about("Eq(0,%s)" % self.render("o", b, 2), b), not truth)
                return self._booll(self._about("Lt(%s,%d)" % (self.render("o", b, 2), ka[1] + 1), b), not truth)
            if kb and kb[0] == "n" and kb[1] == 1 and self.unsigned(a[0]):
                return self._booll(self._about("Eq(0,%s)" % self.render("o", a, 2), a), truth)
            if kb and kb[0] == "n":
                return self._booll(self._about("Lt(%s,%d)" % (self.render("o", a, 2), kb[1]), a), truth)
        ra, rb = self.render("o", a, 2), self.render("o", b, 2)
        if opn == "Eq" and rb < ra:
            ra, rb = rb, ra
        var = self._about("%s(%s,%s)" % (opn, ra, rb), a, b)
        if opn == "Eq" and bool(CONST_RE.match(ra)) != bool(CONST_RE.match(rb)):
            self.eqk[var] = (rb, ra) if CONST_RE.match(ra) else (ra, rb)
        return self._booll(var, truth)

    def comparison(self, d):
        """(operator, a, b) of a comparison defining a bool."""
        if d[0] == "rv":
            _, rv, dn, di = d
            if rv[0] == "bin" and rv[1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                return rv[1], (rv[2], dn, di), (rv[3], dn, di)
        elif d[0] == "call":
            _, term, dn, di = d
            c, args = term[1], term[2]
            m = last(strip_generics(c["path"]))
            if c["path"].startswith("core::cmp") and m in ("eq", "ne", "lt", "le", "gt", "ge") and len(args) == 2:
                return m.capitalize(), (args[0], dn, di), (args[1], dn, di)
        return None

    def cmpknown(self, opn, a, b):
        """Outcome of a comparison that does not depend on the input, else None."""
        if opn in ("Gt", "Le"):
            r = self.cmpknown("Lt", b, a)
            return r if opn == "Gt" or r is None else not r
        ka, kb = self.const_of(*a), self.const_of(*b)
        if ka and kb and ka[0] == kb[0] and ka[0] in ("n", "b", "e"):
            if opn in ("Eq", "Ne"):
                return (ka[1] == kb[1]) == (opn == "Eq")
            return (ka[1] < kb[1]) == (opn == "Lt") if ka[0] == "n" else None
        if opn in ("Lt", "Ge") and kb and kb[0] == "n" and kb[1] <= 0 and (self.unsigned(a[0]) or self.len_of(*a)):
            return opn != "Lt"
        return None

    def optional(self, o):
        """("Some", payload) or ("None", None) of an operand built as an Option on the spot."""
        k = self.const_of(*o)
        if k and k[0] == "e" and k[2] == "core::option::Option":
            return k[1], None
        d = self.unique_def(*o, False) if o[0][0] == "p" else None
        if d and d[0] == "rv" and d[1][0] == "agg" and d[1][1][0] == "adt" and d[1][1][1] == "core::option::Option" and d[1][2]:
            return "Some", (d[1][2][0], d[2], d[3])
        return None

    def len_is(self, a, b):
        """(length, k) if a and b are a length and a constant k > 0."""
        for x, y in ((a, b), (b, a)):
            k = self.const_of(*y)
            if k and k[0] == "n" and k[1] > 0 and self.len_of(*x):
                return x, (("k", {"ty": "usize", "v": {"i": k[1]}}),) + tuple(y[1:])
        return None

    def cmpdnf(self, opn, a, b, truth, depth=0):
        """DNF of a comparison; a list without alternatives if it cannot have that outcome."""
        if opn == "Ne":
            return self.cmpdnf("Eq", a, b, not truth, depth)
        if opn == "Eq" and depth < 3:
            sa, sb = self.optional(a), self.optional(b)
            if sa and sb:
                if sa[0] != sb[0] or sa[0] == "None":
                    return [frozenset()] if (sa[0] == sb[0]) == truth else []
                return self.cmpdnf("Eq", sa[1], sb[1], truth, depth + 1)
            for s, o in ((sa, b), (sb, a)):
                if s and s[0] == "Some" and o[0][0] == "p":
                    l, proj = o[0][1]
                    inner = self.cmpdnf("Eq", s[1], (("p", (l, proj + (("w", "Some"),))), o[1], o[2]), truth, depth + 1)
                    some, none = [self.variantcond(*o, "core::option::Option", ["None", "Some"], frozenset([x])) for x in ("Some", "None")]
                    out = [] if truth or none is None else [frozenset([none])]
                    for x in inner:
                        m = self._meet(x, frozenset([some])) if some else x
                        if m is not None:
                            out.append(m)
                    return out
        known = self.cmpknown(opn, a, b)
        if known is not None:
            return [frozenset()] if known == truth else []
        x = self.len_is(a, b) if opn == "Eq" else None
        if x:
            k = x[1][0][1]["v"]["i"]
            up = (x[0], (("k", {"ty": "usize", "v": {"i": k + 1}}),) + x[1][1:])
            if truth:
                m = self._meet(frozenset([self.cmpcond("Lt", *x, False)]), frozenset([self.cmpcond("Lt", *up, True)]))
                return [] if m is None else [m]
            return [frozenset([self.cmpcond("Lt", *x, True)]), frozenset([self.cmpcond("Lt", *up, False)])]
        lit = self.cmpcond(opn, a, b, truth)
        return [frozenset([lit] if lit else [])]

    def cmpalts(self, d, truth, pos):
        """DNF of a comparison one side of which merges values of different paths, or is an Option."""
        x = self.comparison(d)
        if not x:
            return None
        opn, a, b = x
        for o, mk in ((a, lambda y: (opn, y, b)), (b, lambda y: (opn, a, y))):
            ss = self.sources(*o)
            if not ss or len({str(y) for _, y, _ in ss}) < 2 or len(ss) > 4 or any(k == "opaque" or not js for k, _, js in ss):
                continue
            if any(self._before(j, pos) is None for _, _, js in ss for j in js):
                continue
            out = []
            for _, y, js in ss:
                if not all(self._before(j, pos) for j in js):
                    continue
                alts = self.cmpdnf(*mk(y), truth)
                if not alts:
                    continue
                for g in self.conj_dnf([self.GS(self._before(j, pos)) for j in sorted(js)]):
                    for x in alts:
                        m = self._meet(g, x)
                        if m is not None:
                            out.append(m)
            return out
        if opn in ("Eq", "Ne") and (self.optional(a) or self.optional(b) or self.len_is(a, b)):
            return self.cmpdnf(opn, a, b, truth)
        return None

    def unsigned(self, o):
        if o[0] != "p":
            return str(o[1].get("ty", "")).startswith("u")
        return not o[1][1] and self.fl.types[o[1][0]].lstrip("&").startswith(("usize", "u8", "u16", "u32", "u64"))

    def len_of(self, o, n, i):
        d = self.unique_def(o, n, i, False)
        for _ in range(4):
            # through integer conversions
            if not (d and d[0] == "call" and not self._ws(d[1][1]) and d[1][2]
                    and last(strip_generics(d[1][1]["path"])) in ("try_into", "into", "try_from", "from", "unwrap", "expect")):
                break
            o, n, i = d[1][2][0], d[2], d[3]
            d = self.unique_def(o, n, i, False)
        if d is None:
            ss = self.sources(o, n, i)
            if ss and len(ss) == 1 and ss[0][0] == "def" and ss[0][1][0][1][1] == (("w", "Ok"),):
                o, n, i = ss[0][1]
                return self.len_of(("p", (o[1][0], ())), n, i)
        if d and d[0] == "call" and last(strip_generics(d[1][1]["path"])) in ("len", "count") and not self._ws(d[1][1]):
            return d[1][2][0], d[2], d[3]
        if d and d[0] == "rv" and (d[1][0] == "len" or d[1][0] == "un" and d[1][1] == "PtrMetadata"):
            return d[1][-1] if d[1][0] == "un" else ("p", d[1][1]), d[2], d[3]
        return None

    def const_of(self, o, n, i):
        d = self.unique_def(o, n, i, False) if o[0] == "p" else ("const", o[1])
        if d and d[0] == "const":
            c = d[1]
            v = c.get("v")
            if v:
                if "e" in v:
                    return ("e", v["e"], ty_head(c.get("ty", "")))
                if "i" in v:
                    return ("b", v["i"]) if c.get("ty") == "bool" else ("n", v["i"])
        if d and d[0] == "rv" and d[1][0] == "agg" and not d[1][2] and d[1][1][0] == "adt" and d[1][1][4]:
            return ("e", d[1][1][2], d[1][1][1])
        return None

    def enum_univ(self, name):
        return self.prog.enums.get(name)

    # ------------------------------------------------------------ returns
    def _shapes(self):
        """Return shape of each return node and the shapes reachable from each node."""
        g = self.g
        self.retnodes = []
        for n in sorted(g.good):
            if n not in g.reach:
                continue
            if self.fl.blocks[g.nodes[n][0]][1][0] == "ret":
                env = dict(g.nodes[n][1])
                sh = self.shape(env)
                if sh == "?":
                    d = self.unique_def(("p", (self.fl.ret, ())), g.nodes[n][0], 0)
                    if d and d[0] == "call":
                        sh = "?@%d" % d[2]
                self.retnodes.append((n, sh))
        self.shapes_from = {}
        for n, sh in self.retnodes:
            work = [n]
            seen = {n}
            while work:
                x = work.pop()
                self.shapes_from.setdefault(x, set()).add(sh)
                for p in g.pred[x]:
                    if p not in seen:
                        seen.add(p)
                        work.append(p)

    def shape(self, env):
        l = self.fl.ret
        out = []
        p = ()
        for _ in range(3):
            v = env.get((l, p))
            if v is None:
                break
            out.append(v)
            p = p + ("0",)
        return ".".join(out) if out else "?"


def constant(rv):
    return rv[0] == "use" and rv[1][0] != "p" or rv[0] == "agg" and not rv[2]


def conj_key(c):
    return (len(c), sorted((v, sorted(x)) for v, x in c))


BOOL = frozenset(["T", "F"])
TRUE = frozenset(["T"])
CONST_RE = re.compile(r"-?\d+$|'[^']*'$|[A-Z]\w*::[A-Z]\w*$")


def type_names(tys):
    """Parameter names from types, so that unrelated parameters can come and go."""
    out, cnt = [], {}
    for t in tys:
        t = short_ty(t)
        k = cnt.get(t, 0)
        cnt[t] = k + 1
        out.append("#" + t + ("'" * k))
    return out


def same_elem(a, b):
    return a == b or (a[0] == "f" and b[0] == "f" and a[1] == b[1])


def wmatch(want, have):
    if want == have:
        return True
    good = {"Ok", "Some", "Continue"}
    return want in good and have in good


def clip(s):
    if len(s) > 400:
        return s[:300] + "#" + hashlib.sha1(s.encode()).hexdigest()[:10]
    return s


def konst(c):
    if "fn" in c:
        return c.get("as") or "fn " + short(c["fn"][1] or c["fn"][0])
    v = c.get("v")
    if v is None:
        t = c.get("ty", "")
        return "()" if t == "()" else "const " + short(c.get("def", t))
    if "s" in v:
        return repr(v["s"])
    if "i" in v:
        if c.get("ty") == "bool":
            return "true" if v["i"] else "false"
        return str(v["i"])
    if "e" in v:
        return last(ty_head(c.get("ty", ""))) + "::" + v["e"]
    if "b" in v:
        return "b" + repr(pieces(v["b"]))
    if "def" in c:
        return "const " + short(c["def"])
    if "static" in c:
        return "static " + short(c["static"])
    p = v.get("p", "")
    return "const " + re.sub(r"alloc\d+", "alloc", p)[:120]


def pieces(bs):
    """Printable runs of an encoded format template."""
    out, cur = [], []
    for b in bs:
        if 32 <= b < 127 or b == 10:
            cur.append(chr(b))
        else:
            if cur:
                out.append("".join(cur))
            cur = []
            if b >= 0x80:
                out.append("{}")
    if cur:
        out.append("".join(cur))
    return "".join(out)


def short_owner(o):
    if not o:
        return ""
    s = strip_generics(o).split("::")
    return "::".join(s[-2:]) if s and s[-1][:1].isupper() and len(s) > 1 and s[-2][:1].isupper() else s[-1]


def short_ty(t):
    t = re.sub(r"'\w+ ?", "", t)
    t = re.sub(r"(\w+::)+", "", t)
    t = t.replace("&mut ", "").replace("&", "").replace("<, ", "<").replace("<>", "")
    return t[:80]


COLL = ("HashMap", "HashSet", "BTreeMap", "BTreeSet", "IndexMap", "CHashMap", "Vec", "[T]", "VecDeque", "DashMap")


def is_coll(path, c):
    return any(x in path for x in COLL) or (last(path) in ("index", "index_mut") and is_std(path)) or "Index" in path


def is_noise(path):
    return path.startswith(("tracing", "core::fmt", "console::", "indicatif::", "cursive", "branchless::core::formatting"))


def transparent(path, m, c):
    if m in T0:
        if m in ("from", "into", "try_into", "try_from", "lock", "next", "display", "section", "note", "peek", "ok"):
            return is_std(path) or path.startswith(("itertools", "rayon", "color_eyre", "eyre"))
        return is_std(path) or path.startswith(("itertools", "rayon", "eyre", "color_eyre", "bstr", "futures", "path_slash", "indexmap", "once_cell", "dag::nameset::AsyncNameSetQuery", "crossbeam", "os_str_bytes", "anyhow"))
    if m == "new" and path.startswith(NEW_T):
        return True
    return False


_GROUP = {"fold": "fold", "format": "fmt", "new_const": "fmt"}


def call_label(c):
    path = strip_generics(c["path"])
    res = c["res"]
    if res.startswith("<rec>"):
        return "rec"
    p = strip_generics(res)
    if path == "alloc::fmt::format":
        return "fmt"
    if path.startswith("core::fmt::Arguments"):
        return "fmtargs"
    if path.startswith("core::fmt::rt::Argument"):
        return "fmtarg"
    if is_std(c["path"]):
        m = last(path)
        if is_std(res):
            return m if m not in ("new",) else short(path)
        return short(res)
    return short(res)
