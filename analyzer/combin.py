"""Expansion of standard combinators into branches and loops."""
import re
from flat import strip_generics, last, targs

OPT = "core::option::Option"
RES = "core::result::Result"
OPTV = (("0", "None"), ("1", "Some"))
ORDV = (("255", "Less"), ("0", "Equal"), ("1", "Greater"))
RESV = (("0", "Ok"), ("1", "Err"))


def agg_opt(v, *ops):
    return ("agg", ("adt", OPT, v, ("0",) if ops else (), 1), list(ops))


def agg_res(v, *ops):
    return ("agg", ("adt", RES, v, ("0",) if ops else (), 1), list(ops))


def k_bool(b):
    return ("k", {"ty": "bool", "v": {"i": int(b)}})


class Asm:
    def __init__(self, fl, line, fnpath, stack):
        self.fl, self.line, self.fnpath, self.stack = fl, line, fnpath, stack

    def block(self, stmts=None, term=("stop",)):
        return self.fl.new_block(list(stmts or []), term, self.line, self.fnpath)

    def local(self, ty="?"):
        return self.fl.new_local(ty)

    def goto(self, b, t):
        self.fl.blocks[b][1] = ("goto", t)

    def call(self, b, f, args, dest, target):
        self.fl.call_value(b, self.fl.blocks[b][0], f, args, dest, target, self.line, self.fnpath, self.stack)

    def operands(self, b, x, two, target):
        """Arguments of a function applied to the element `x`, or to it and another one: a comparison knows which is which."""
        if not two:
            self.goto(b, target)
            return [("p", (x, ()))]
        y = self.local()
        self.fl.blocks[b][1] = ("call", dict(path="<other>", res="<other>", self=None, full=""), [("p", (x, ()))], (y, ()), target)
        return [("p", (x, ())), ("p", (y, ()))]

    def switch_discr(self, b, op, enum, variants, targets):
        """targets: variant -> block"""
        fl = self.fl
        d = self.local("isize")
        if op[0] != "p":
            t = self.local("?")
            fl.blocks[b][0].append(((t, ()), ("use", op)))
            op = ("p", (t, ()))
        fl.blocks[b][0].append(((d, ()), ("discr", op[1], enum, variants)))
        fl.blocks[b][1] = ("switch", ("p", (d, ())), "isize", [(n, targets[v]) for n, v in variants], None)
        return op


def payload(op, v):
    return ("p", (op[1][0], op[1][1] + (("w", v),)))


def expand(fl, b, stmts, c, m, args, dest, target, line, fnpath, stack):
    path = strip_generics(c["path"])
    A = Asm(fl, line, fnpath, stack)
    if path.startswith(OPT + "::"):
        return option(A, b, m, args, dest, target)
    if path.startswith(RES + "::"):
        return result(A, b, m, args, dest, target)
    if path.startswith(("core::iter::traits", "rayon::iter::", "itertools::Itertools", "futures_util::stream")):
        return iterator(A, b, m, args, dest, target)
    if m == "from_residual" and not dest[1] and fl.types[dest[0]].startswith(OPT + "<"):
        fl.blocks[b][0].append((dest, agg_opt("None")))
        A.goto(b, target)
        return True
    if m == "contains":
        if not c["path"].startswith("core::slice::<impl"):
            return False
        head, body, exit_, x = drive(A, b, args[0])
        r, yes = A.local("bool"), A.block([(dest, ("use", k_bool(True)))], ("goto", target))
        fl.blocks[body][0].append(((r, ()), ("bin", "Eq", x, args[1])))
        fl.blocks[body][1] = ("switch", ("p", (r, ())), "bool", [("0", head)], yes)
        fl.blocks[exit_][0].append((dest, ("use", k_bool(False))))
        A.goto(exit_, target)
        return True
    if path in ("core::cmp::Ordering::then_with", "core::cmp::Ordering::then"):
        same, other = A.block(), A.block()
        op = A.switch_discr(b, args[0], "core::cmp::Ordering", ORDV, {"Equal": same, "Less": other, "Greater": other})
        fl.blocks[other][0].append((dest, ("use", op)))
        A.goto(other, target)
        if m == "then":
            fl.blocks[same][0].append((dest, ("use", args[1])))
            A.goto(same, target)
        else:
            A.call(same, args[1], [], dest, target)
        return True
    if re.match(r"core::cmp::(Ord::)?(min|max|clamp)$", path) and re.match(r"[iu](\d+|size)$", fl.types[dest[0]] if not dest[1] else ""):
        def pick(b, x, y, swap, yes, no):
            """to `yes` if x < y (y < x if swapped), else to `no`"""
            r = A.local("bool")
            fl.blocks[b][0].append(((r, ()), ("bin", "Lt", y, x) if swap else ("bin", "Lt", x, y)))
            fl.blocks[b][1] = ("switch", ("p", (r, ())), "bool", [("0", no)], yes)
        outs = [A.block([(dest, ("use", a))], ("goto", target)) for a in args]
        if m == "clamp":
            upper = A.block()
            pick(b, args[0], args[1], False, outs[1], upper)
            pick(upper, args[0], args[2], True, outs[2], outs[0])
        else:
            pick(b, args[0], args[1], m == "min", outs[1], outs[0])
        return True
    if path == "std::path::Path::is_relative":
        r = A.local("bool")
        after = A.block([(dest, ("un", "Not", ("p", (r, ()))))], ("goto", target))
        fl.blocks[b][1] = ("call", dict(c, path=c["path"].replace("is_relative", "is_absolute"), res=c["res"].replace("is_relative", "is_absolute")),
                           args, (r, ()), after)
        return True
    if path.startswith("core::bool::"):
        yes, no = A.block(), A.block([(dest, agg_opt("None"))], ("goto", target))
        fl.blocks[b][1] = ("switch", args[0], "bool", [("0", no)], yes)
        if m == "then_some":
            fl.blocks[yes][0].append((dest, agg_opt("Some", args[1])))
            A.goto(yes, target)
        else:
            r = A.local()
            after = A.block([(dest, agg_opt("Some", ("p", (r, ()))))], ("goto", target))
            A.call(yes, args[1], [], (r, ()), after)
        return True
    if m in ("sort_by_key", "sort_by", "sort_by_cached_key", "sort_unstable_by_key", "sort_unstable_by", "dedup_by_key", "dedup_by"):
        head, after = A.block(), A.block()
        x, r = A.local(), A.local()
        fl.blocks[head][0].append(((x, ()), ("elem", args[0])))
        body = A.block()
        A.call(body, args[1], A.operands(head, x, m in ("sort_by", "sort_unstable_by", "dedup_by"), body), (r, ()), after)
        A.goto(b, head)
        fl.blocks[after][1] = ("call", c, [args[0], ("p", (r, ()))], dest, target)
        return True
    if m == "retain" and path.startswith(("alloc::vec::", "std::collections::", "indexmap::", "alloc::collections::")):
        x, r, tmp = A.local(), A.local(), A.local()
        ismap = "Map" in path
        head, exit_ = A.block(), A.block()
        body = A.block([((x, ()), ("elem", args[0]))])
        chk = A.block()
        keep = A.block([((tmp, ()), ("wpush", ("p", (x, ()))))], ("goto", head))
        fl.blocks[head][1] = ("nd", [body, exit_])
        a = [("p", (x, (("f", "0", ""),))), ("p", (x, (("f", "1", ""),)))] if ismap else [("p", (x, ()))]
        A.call(body, args[1], a, (r, ()), chk)
        fl.blocks[chk][1] = ("switch", ("p", (r, ())), "bool", [("0", head)], keep)
        fl.blocks[b][0].append(((tmp, ()), ("empty",)))
        A.goto(b, head)
        fl.blocks[exit_][1] = ("call", dict(path="<assign>", res="<assign>", self=None, full=""), [args[0], ("p", (tmp, ()))], dest, target)
        return True
    if m in ("get_or_try_init", "get_or_init", "install", "or_insert_with", "get_or_insert_with", "unwrap_or_else", "call", "scope", "or_default_with"):
        f = args[-1]
        r = A.local()
        run, after = A.block(), A.block()
        if m in ("install", "scope"):
            A.goto(b, run)
        else:
            fl.blocks[b][1] = ("nd", [run, after])
        extra = []
        if m == "scope":
            u = A.local()
            fl.blocks[run][0].append(((u, ()), ("cbarg", "scope", 1, [])))
            extra = [("p", (u, ()))]
        A.call(run, f, extra, (r, ()), after)
        if m in ("install", "scope"):
            fl.blocks[after][0].append((dest, ("use", ("p", (r, ())))))
            A.goto(after, target)
        else:
            fl.blocks[after][1] = ("call", c, list(args[:-1]) + [("p", (r, ()))], dest, target)
        return True
    return False


def option(A, b, m, args, dest, target):
    fl = A.fl
    if m in ("map", "and_then", "map_or", "map_or_else", "filter", "is_some_and", "is_none_or", "inspect"):
        some, none = A.block(), A.block()
        op = A.switch_discr(b, args[0], OPT, OPTV, {"Some": some, "None": none})
        x = payload(op, "Some")
        r = A.local()
        after = A.block()
        if m == "map":
            fl.blocks[after][0].append((dest, agg_opt("Some", ("p", (r, ())))))
            A.goto(after, target)
            A.call(some, args[1], [x], (r, ()), after)
            fl.blocks[none][0].append((dest, agg_opt("None")))
            A.goto(none, target)
        elif m == "and_then":
            A.call(some, args[1], [x], dest, target)
            fl.blocks[none][0].append((dest, agg_opt("None")))
            A.goto(none, target)
        elif m == "map_or":
            A.call(some, args[2], [x], dest, target)
            fl.blocks[none][0].append((dest, ("use", args[1])))
            A.goto(none, target)
        elif m == "map_or_else":
            A.call(some, args[2], [x], dest, target)
            A.call(none, args[1], [], dest, target)
        elif m in ("is_some_and", "is_none_or"):
            A.call(some, args[1], [x], dest, target)
            fl.blocks[none][0].append((dest, ("use", k_bool(m == "is_none_or"))))
            A.goto(none, target)
        elif m == "filter":
            keep = A.block([(dest, agg_opt("Some", x))], ("goto", target))
            drop = A.block([(dest, agg_opt("None"))], ("goto", target))
            A.call(some, args[1], [x], (r, ()), after)
            fl.blocks[after][1] = ("switch", ("p", (r, ())), "bool", [("0", drop)], keep)
            A.goto(none, drop)
        else:
            A.call(some, args[1], [x], (r, ()), after)
            fl.blocks[after][0].append((dest, ("use", op)))
            A.goto(after, target)
            fl.blocks[none][0].append((dest, agg_opt("None")))
            A.goto(none, target)
        return True
    if m in ("and", "flatten"):
        some, none = A.block(), A.block([(dest, agg_opt("None"))], ("goto", target))
        op = A.switch_discr(b, args[0], OPT, OPTV, {"Some": some, "None": none})
        fl.blocks[some][0].append((dest, ("use", args[1] if m == "and" else payload(op, "Some"))))
        A.goto(some, target)
        return True
    if m == "transpose":
        some, none = A.block(), A.block()
        good, bad = A.block(), A.block()
        r, n = A.local(), A.local()
        op = A.switch_discr(b, args[0], OPT, OPTV, {"Some": some, "None": none})
        fl.blocks[none][0].extend([((n, ()), agg_opt("None")), (dest, agg_res("Ok", ("p", (n, ()))))])
        x = A.switch_discr(some, payload(op, "Some"), RES, RESV, {"Ok": good, "Err": bad})
        fl.blocks[good][0].extend([((r, ()), agg_opt("Some", payload(x, "Ok"))), (dest, agg_res("Ok", ("p", (r, ()))))])
        fl.blocks[bad][0].append((dest, agg_res("Err", payload(x, "Err"))))
        for y in (none, good, bad):
            A.goto(y, target)
        return True
    if m in ("unwrap_or_else", "unwrap_or", "unwrap_or_default", "or_else", "or", "ok_or_else", "ok_or"):
        some, none = A.block(), A.block()
        op = A.switch_discr(b, args[0], OPT, OPTV, {"Some": some, "None": none})
        x = payload(op, "Some")
        if m in ("or_else", "or"):
            fl.blocks[some][0].append((dest, agg_opt("Some", x)))
        elif m in ("ok_or_else", "ok_or"):
            fl.blocks[some][0].append((dest, agg_res("Ok", x)))
        else:
            fl.blocks[some][0].append((dest, ("use", x)))
        A.goto(some, target)
        if m == "unwrap_or_default":
            fl.blocks[none][0].append((dest, ("default",)))
            A.goto(none, target)
        elif m in ("unwrap_or", "or"):
            fl.blocks[none][0].append((dest, ("use", args[1])))
            A.goto(none, target)
        elif m == "ok_or":
            fl.blocks[none][0].append((dest, agg_res("Err", args[1])))
            A.goto(none, target)
        elif m == "ok_or_else":
            r = A.local()
            after = A.block([(dest, agg_res("Err", ("p", (r, ()))))], ("goto", target))
            A.call(none, args[1], [], (r, ()), after)
        else:
            A.call(none, args[1], [], dest, target)
        return True
    return False


def result(A, b, m, args, dest, target):
    fl = A.fl
    if m in ("ok", "err"):
        ok, err = A.block(), A.block()
        op = A.switch_discr(b, args[0], RES, RESV, {"Ok": ok, "Err": err})
        fl.blocks[ok][0].append((dest, agg_opt("Some", payload(op, "Ok")) if m == "ok" else agg_opt("None")))
        fl.blocks[err][0].append((dest, agg_opt("Some", payload(op, "Err")) if m == "err" else agg_opt("None")))
        A.goto(ok, target)
        A.goto(err, target)
        return True
    if m == "transpose":
        good, bad, some, none = A.block(), A.block(), A.block(), A.block([(dest, agg_opt("None"))], ("goto", target))
        r, e = A.local(), A.local()
        op = A.switch_discr(b, args[0], RES, RESV, {"Ok": good, "Err": bad})
        x = A.switch_discr(good, payload(op, "Ok"), OPT, OPTV, {"Some": some, "None": none})
        fl.blocks[some][0].extend([((r, ()), agg_res("Ok", payload(x, "Some"))), (dest, agg_opt("Some", ("p", (r, ()))))])
        fl.blocks[bad][0].extend([((e, ()), agg_res("Err", payload(op, "Err"))), (dest, agg_opt("Some", ("p", (e, ()))))])
        A.goto(some, target)
        A.goto(bad, target)
        return True
    if m in ("map", "and_then", "unwrap_or_else", "unwrap_or", "unwrap_or_default", "map_or", "or_else", "is_ok_and", "map_or_else"):
        ok, err = A.block(), A.block()
        op = A.switch_discr(b, args[0], RES, RESV, {"Ok": ok, "Err": err})
        x, e = payload(op, "Ok"), payload(op, "Err")
        r = A.local()
        if m == "map":
            after = A.block([(dest, agg_res("Ok", ("p", (r, ()))))], ("goto", target))
            A.call(ok, args[1], [x], (r, ()), after)
            fl.blocks[err][0].append((dest, agg_res("Err", e)))
            A.goto(err, target)
        elif m == "and_then":
            A.call(ok, args[1], [x], dest, target)
            fl.blocks[err][0].append((dest, agg_res("Err", e)))
            A.goto(err, target)
        elif m == "map_or":
            A.call(ok, args[2], [x], dest, target)
            fl.blocks[err][0].append((dest, ("use", args[1])))
            A.goto(err, target)
        elif m == "map_or_else":
            A.call(ok, args[2], [x], dest, target)
            A.call(err, args[1], [e], dest, target)
        elif m == "is_ok_and":
            A.call(ok, args[1], [x], dest, target)
            fl.blocks[err][0].append((dest, ("use", k_bool(False))))
            A.goto(err, target)
        else:
            if m == "or_else":
                fl.blocks[ok][0].append((dest, agg_res("Ok", x)))
            else:
                fl.blocks[ok][0].append((dest, ("use", x)))
            A.goto(ok, target)
            if m == "unwrap_or_default":
                fl.blocks[err][0].append((dest, ("default",)))
                A.goto(err, target)
            elif m == "unwrap_or":
                fl.blocks[err][0].append((dest, ("use", args[1])))
                A.goto(err, target)
            else:
                A.call(err, args[1], [e], dest, target)
        return True
    if m == "map_err" and branching(fl, args[1]):
        ok, err = A.block(), A.block()
        op = A.switch_discr(b, args[0], RES, RESV, {"Ok": ok, "Err": err})
        fl.blocks[ok][0].append((dest, agg_res("Ok", payload(op, "Ok"))))
        A.goto(ok, target)
        r = A.local(returns(fl, args[1]))
        after = A.block([(dest, agg_res("Err", ("p", (r, ()))))], ("goto", target))
        A.call(err, args[1], [payload(op, "Err")], (r, ()), after)
        return True
    if m in ("map_err", "inspect_err"):
        fl.blocks[b][0].append((dest, ("use", args[0])))
        A.goto(b, target)
        return True
    return False


# Adaptors applied only when the iterator is driven, so that a chain of adaptors and the loop spelling it out are the same.
LAZY = {"map", "filter", "filter_map", "take_while", "map_while", "flat_map", "enumerate", "inspect", "zip", "flatten"}
SAME = {"into_iter", "by_ref", "cloned", "copied", "clone", "iter", "fuse", "into_par_iter", "by_mut_ref"}
ITER_PATHS = ("core::iter::traits", "rayon::iter::", "itertools::Itertools")


class Chain:
    def __init__(self, src, stages):
        self.src, self.stages = src, stages


def lazy(fl, c, m, args, dest, target, b):
    """Record an adaptor without running it."""
    path = strip_generics(c["path"])
    if dest[1] or not args or args[0][0] != "p":
        return False
    ch = fl.chain_of(args[0])
    if m in SAME and ch:
        new = ch
    elif m in LAZY and path.startswith(ITER_PATHS):
        if m not in ("enumerate", "zip", "flatten") and not fl.closure_of(args[1]):
            return False
        f = args[1] if len(args) > 1 else None
        if m == "flatten":
            f = item_kind(fl, ch, c)
            if f is None:
                return False
        elif m == "flat_map" and returns(fl, f).startswith(OPT):
            m = "filter_map"
        new = Chain(ch.src if ch else args[0], (ch.stages if ch else []) + [(m, f)])
    else:
        return False
    fl.chain[dest[0]] = new
    fl.blocks[b][0].append((dest, ("use", args[0])))
    fl.blocks[b][1] = ("goto", target)
    return True


def returns(fl, f):
    """Type returned by a callable operand."""
    k = fl.closure_of(f)
    body = fl.prog.fns.get(k[1] if k[0] == "clos" else k[1][1] or k[1][0]) if k else None
    return body.locals[0] if body else ""


def branching(fl, f):
    """Whether a closure makes a choice."""
    k = fl.closure_of(f)
    body = fl.prog.fns.get(k[1]) if k and k[0] == "clos" else None
    return bool(body) and any(bb and bb[1] and bb[1][0] == "switch" for bb in body.bbs)


def item_kind(fl, ch, c):
    """Whether the items being flattened are options or results."""
    t = ""
    if ch and ch.stages:
        if ch.stages[-1][0] == "map":
            t = returns(fl, ch.stages[-1][1])
        elif ch.stages[-1][0] in ("filter", "inspect") and len(ch.stages) == 1:
            t = fl.types[ch.src[1][0]] if not ch.src[1][1] else ""
            t = (targs(t) or [""])[-1]
    elif c["self"]:
        t = (targs(c["self"]) or [""])[-1]
    t = t.lstrip("&").strip()
    return RES if t.startswith(RES) else OPT if t.startswith(OPT) else None


def force(fl, b, op, line, fnpath, stack):
    """Collect a recorded chain into a new local; (block to go on in, operand)."""
    A = Asm(fl, line, fnpath, stack)
    m, after = A.local(), A.block()
    fl.blocks[b][0].append(((m, ()), ("empty",)))
    head, body, exit_, x = drive(A, b, op)
    fl.blocks[body][0].append(((m, ()), ("wpush", x)))
    A.goto(body, head)
    A.goto(exit_, after)
    return after, ("p", (m, ()))


def drive(A, b, op, again=None):
    """Loop over the items of op: b -> head; head -> ... -> body | exit_.  Returns (head, body, exit_, item)."""
    fl = A.fl
    head, exit_ = A.block(), A.block()
    x = A.local()
    ch = fl.chain_of(op)
    cur = A.block([((x, ()), ("elem", ch.src if ch else op))])
    fl.blocks[head][1] = ("nd", [cur, exit_])
    A.goto(b, head)
    body, item, head = stages(A, cur, ("p", (x, ())), ch.stages if ch else (), head if again is None else again, exit_)
    return head, body, exit_, item


def stages(A, cur, x, sts, head, exit_):
    """Apply the adaptors to item x in block cur; (block with the resulting item, item, where the next one comes from)."""
    fl = A.fl
    for m, f in sts:
        r = A.local()
        R = ("p", (r, ()))
        if m == "enumerate":
            i = A.local("usize")
            fl.blocks[cur][0].extend([((i, ()), ("idx",)), ((r, ()), ("agg", ("tuple",), [("p", (i, ())), x]))])
            x = R
            continue
        if m == "zip":
            y = A.local()
            fl.blocks[cur][0].extend([((y, ()), ("elem", f)), ((r, ()), ("agg", ("tuple",), [x, ("p", (y, ()))]))])
            x = R
            continue
        if m == "flatten":
            yes = A.block()
            good, bad = ("Ok", "Err") if f == RES else ("Some", "None")
            x = A.switch_discr(cur, x, f, RESV if f == RES else OPTV, {good: yes, bad: head})
            cur, x = yes, payload(x, good)
            continue
        nxt = A.block()
        A.call(cur, f, [x], R[1], nxt)
        if m == "map":
            cur, x = nxt, R
        elif m == "inspect":
            cur = nxt
        elif m in ("filter", "take_while"):
            yes = A.block()
            fl.blocks[nxt][1] = ("switch", R, "bool", [("0", head if m == "filter" else exit_)], yes)
            cur = yes
        elif m in ("filter_map", "map_while"):
            yes = A.block()
            A.switch_discr(nxt, R, OPT, OPTV, {"Some": yes, "None": head if m == "filter_map" else exit_})
            cur, x = yes, payload(R, "Some")
        elif m == "flat_map":
            ch = fl.chain_of(R)
            e = A.local()
            h2 = A.block()
            cur = A.block([((e, ()), ("elem", ch.src if ch else R))])
            A.goto(nxt, h2)
            fl.blocks[h2][1] = ("nd", [cur, head])
            x = ("p", (e, ()))
            if ch:
                cur, x, h2 = stages(A, cur, x, ch.stages, h2, head)
            head = h2
    return cur, x, head


def next_item(fl, b, args, dest, target, line, fnpath, stack):
    """`next` on a recorded chain: the next item passing all of it."""
    A = Asm(fl, line, fnpath, stack)
    # items that do not pass lead back to the block of the call, which is where a loop around it starts
    again = b if all(rv[0] in ("use", "ref") for _, rv in fl.blocks[b][0]) else None
    head, body, exit_, x = drive(A, b, args[0], again)
    fl.blocks[body][0].append((dest, agg_opt("Some", x)))
    A.goto(body, target)
    fl.blocks[exit_][0].append((dest, agg_opt("None")))
    A.goto(exit_, target)


def collect(fl, b, args, dest, target, line, fnpath, stack):
    """Collecting results (or options): stops at the first failure."""
    A = Asm(fl, line, fnpath, stack)
    res = fl.types[dest[0]].startswith(RES)
    good, bad = ("Ok", "Err") if res else ("Some", "None")
    tmp = A.local()
    fl.blocks[b][0].append(((tmp, ()), ("empty",)))
    head, body, exit_, x = drive(A, b, args[0])
    yes = A.block()
    no = A.block([(dest, agg_res("Err", payload(x, "Err")) if res else agg_opt("None"))], ("goto", target))
    A.switch_discr(body, x, RES if res else OPT, RESV if res else OPTV, {good: yes, bad: no})
    fl.blocks[yes][0].append(((tmp, ()), ("wpush", payload(x, good))))
    A.goto(yes, head)
    fl.blocks[exit_][0].append((dest, (agg_res if res else agg_opt)(good, ("p", (tmp, ())))))
    A.goto(exit_, target)


def iterator(A, b, m, args, dest, target):
    fl = A.fl
    D = ("p", dest)

    def loop(prologue):
        """b -> head; head -> body | exit_.  Returns (head, body, exit_, x)."""
        fl.blocks[b][0].extend(prologue)
        return drive(A, b, args[0])

    empty = [(dest, ("empty",))]
    r = A.local()
    R = ("p", (r, ()))
    if m in ("map", "then"):
        head, body, exit_, x = loop(empty)
        after = A.block([(dest, ("wpush", R))], ("goto", head))
        A.call(body, args[1], [x], (r, ()), after)
        A.goto(exit_, target)
        return True
    if m in ("filter", "take_while", "skip_while", "find", "partition", "find_position", "position", "any", "all", "is_partitioned", "filter_ok"):
        pro = [] if m in ("find", "find_position", "position", "any", "all") else empty
        head, body, exit_, x = loop(pro)
        chk = A.block()
        A.call(body, args[1], [x], (r, ()), chk)
        yes, no = A.block(), A.block()
        fl.blocks[chk][1] = ("switch", R, "bool", [("0", no)], yes)
        A.goto(exit_, target)
        if m in ("filter", "filter_ok"):
            fl.blocks[yes][0].append((dest, ("wpush", x)))
            A.goto(yes, head)
            A.goto(no, head)
        elif m == "take_while":
            fl.blocks[yes][0].append((dest, ("wpush", x)))
            A.goto(yes, head)
            A.goto(no, exit_)
        elif m == "skip_while":
            fl.blocks[no][0].append((dest, ("wpush", x)))
            A.goto(yes, head)
            A.goto(no, head)
        elif m == "partition":
            fl.blocks[yes][0].append(((dest[0], dest[1] + (("f", "0", ""),)), ("wpush", x)))
            fl.blocks[no][0].append(((dest[0], dest[1] + (("f", "1", ""),)), ("wpush", x)))
            A.goto(yes, head)
            A.goto(no, head)
        elif m == "find":
            fl.blocks[yes][0].append((dest, agg_opt("Some", x)))
            A.goto(yes, target)
            A.goto(no, head)
            fl.blocks[exit_][0].append((dest, agg_opt("None")))
        elif m in ("position", "find_position"):
            i = A.local("usize")
            fl.blocks[yes][0].append(((i, ()), ("idx",)))
            if m == "position":
                fl.blocks[yes][0].append((dest, agg_opt("Some", ("p", (i, ())))))
            else:
                t = A.local()
                fl.blocks[yes][0].append(((t, ()), ("agg", ("tuple",), [("p", (i, ())), x])))
                fl.blocks[yes][0].append((dest, agg_opt("Some", ("p", (t, ())))))
            A.goto(yes, target)
            A.goto(no, head)
            fl.blocks[exit_][0].append((dest, agg_opt("None")))
        elif m == "any":
            fl.blocks[yes][0].append((dest, ("use", k_bool(True))))
            A.goto(yes, target)
            A.goto(no, head)
            fl.blocks[exit_][0].append((dest, ("use", k_bool(False))))
        elif m == "all":
            fl.blocks[no][0].append((dest, ("use", k_bool(False))))
            A.goto(no, target)
            A.goto(yes, head)
            fl.blocks[exit_][0].append((dest, ("use", k_bool(True))))
        else:
            return False
        return True
    if m in ("filter_map", "find_map", "map_while", "flat_map"):
        head, body, exit_, x = loop([] if m == "find_map" else empty)
        A.goto(exit_, target)
        chk = A.block()
        A.call(body, args[1], [x], (r, ()), chk)
        if m == "flat_map":
            e = A.local()
            fl.blocks[chk][0].append(((e, ()), ("elem", R)))
            fl.blocks[chk][0].append((dest, ("wpush", ("p", (e, ())))))
            A.goto(chk, head)
            return True
        yes, no = A.block(), A.block()
        A.switch_discr(chk, R, OPT, OPTV, {"Some": yes, "None": no})
        if m == "find_map":
            fl.blocks[yes][0].append((dest, agg_opt("Some", payload(R, "Some"))))
            A.goto(yes, target)
            A.goto(no, head)
            fl.blocks[exit_][0].append((dest, agg_opt("None")))
        else:
            fl.blocks[yes][0].append((dest, ("wpush", payload(R, "Some"))))
            A.goto(yes, head)
            A.goto(no, head if m == "filter_map" else exit_)
        return True
    if m in ("for_each", "inspect"):
        head, body, exit_, x = loop(empty if m == "inspect" else [])
        A.goto(exit_, target)
        after = A.block([], ("goto", head))
        if m == "inspect":
            fl.blocks[after][0].append((dest, ("wpush", x)))
        A.call(body, args[1], [x], (r, ()), after)
        return True
    if m == "try_for_each":
        head, body, exit_, x = loop([])
        A.goto(exit_, target)
        fl.blocks[exit_][0].append((dest, agg_res("Ok", ("k", {"ty": "()", "v": None}))))
        chk = A.block()
        A.call(body, args[1], [x], (r, ()), chk)
        bad = A.block([(dest, agg_res("Err", payload(R, "Err")))], ("goto", target))
        A.switch_discr(chk, R, RES, RESV, {"Ok": head, "Err": bad})
        return True
    if m == "fold":
        acc = A.local()
        head, body, exit_, x = loop([((acc, ()), ("use", args[1]))])
        fl.blocks[exit_][0].append((dest, ("use", ("p", (acc, ())))))
        A.goto(exit_, target)
        A.call(body, args[2], [("p", (acc, ())), x], (acc, ()), head)
        return True
    if m == "zip":
        t, a2, b2 = A.local(), A.local(), A.local()
        fl.blocks[b][0].extend([
            ((a2, ()), ("elem", args[0])), ((b2, ()), ("elem", args[1])),
            ((t, ()), ("agg", ("tuple",), [("p", (a2, ())), ("p", (b2, ()))])),
            (dest, ("wpush0", ("p", (t, ()))))])
        A.goto(b, target)
        return True
    if m == "enumerate":
        t, a2, i = A.local(), A.local(), A.local("usize")
        fl.blocks[b][0].extend([
            ((a2, ()), ("elem", args[0])), ((i, ()), ("idx",)),
            ((t, ()), ("agg", ("tuple",), [("p", (i, ())), ("p", (a2, ()))])),
            (dest, ("wpush0", ("p", (t, ()))))])
        A.goto(b, target)
        return True
    if m == "chain":
        fl.blocks[b][0].extend([(dest, ("wpush0", args[0])), (dest, ("wpush", args[1]))])
        A.goto(b, target)
        return True
    if m in ("flatten", "flatten_ok"):
        return False
    if m in ("max_by_key", "min_by_key", "position_max_by_key", "position_min_by_key", "sorted_by_key", "sorted_by", "group_by",
             "chunk_by", "max_by", "min_by", "dedup_by", "unique_by", "into_group_map_by", "sorted_by_cached_key", "sorted_unstable_by_key", "try_fold", "try_reduce", "reduce", "dedup_by_key", "partition_map"):
        x = A.local()
        f = args[-1]
        after = A.block()
        fl.blocks[b][0].append(((x, ()), ("elem", args[0])))
        run, start = A.block(), A.block()
        fl.blocks[b][1] = ("nd", [start, after])
        if m in ("try_fold", "try_reduce", "reduce"):
            xs = [("p", (x, ()))] * 2
            A.goto(start, run)
        else:
            xs = A.operands(start, x, m in ("sorted_by", "max_by", "min_by", "dedup_by"), run)
        A.call(run, f, xs, (r, ()), after)
        from flat import short
        fl.blocks[after][1] = ("call", dict(path="core::iter::" + m, res="core::iter::" + m, self=None, full=""), list(args[:1]) + [R], dest, target)
        return True
    return False
