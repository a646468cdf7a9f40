"""The command line as the user sees it: every subcommand with its options, read off the builder code that
the option declarations expand to.

The builder functions are straight lines of calls on constants; their values are propagated along that line.
"""
import json, re
from flat import strip_generics, last, ty_head
from summary import Summary
from values import konst, short

PROSE = {"help", "long_help", "about", "long_about", "value_name", "value_names", "value_hint", "help_heading", "next_help_heading",
         "display_order", "before_help", "after_help", "author", "version", "long_version", "help_template", "term_width", "max_term_width"}
ROOT = "<git_branchless_opts::Opts as clap_builder::derive::Args>::augment_args"


class Unknown(Exception):
    pass


class Built:
    """An option, group or command under construction."""

    def __init__(self, kind, name, settings=(), parts=()):
        self.kind, self.name, self.settings, self.parts = kind, name, tuple(settings), tuple(parts)

    def having(self, s):
        return Built(self.kind, self.name, self.settings + (s,), self.parts)

    def holding(self, p):
        return Built(self.kind, self.name, self.settings, self.parts + (p,))


def text(t):
    if isinstance(t, Built):
        return "%s %s" % (t.kind, t.name)
    if isinstance(t, tuple):
        return "[%s]" % ", ".join(map(text, t))
    return str(t)


def flatten(t):
    """Names in a constant, a list or an optional."""
    if isinstance(t, tuple):
        return [x for y in t for x in flatten(y)]
    return [str(t)]


class Line:
    def __init__(self, prog):
        self.prog, self.calls, self.steps = prog, 0, 0

    def op(self, env, o, f):
        if isinstance(o, dict):
            if "promoted" in o:
                return self.promoted(f, o)
            return konst(o)
        t = env.get(o[0], "?")
        for p in o[1:]:
            if p == "*":
                continue
            t = "%s.%s" % (text(t), p if isinstance(p, (str, int)) else p[-1])
        return t

    def promoted(self, f, o):
        owner = self.prog.fns.get(o.get("of")) or f
        if o["promoted"] < len(owner.prom):
            return self.follow(owner.prom[o["promoted"]]["bbs"], owner, {})
        return "?"

    def run(self, path, args):
        f = self.prog.fns[path]
        return self.follow(f.bbs, f, {i + 1: a for i, a in enumerate(args)})

    def follow(self, bbs, f, env):
        path = f.path
        b, seen = 0, set()
        while True:
            if b in seen or bbs[b] is None:
                raise Unknown("%s is not a straight line" % path)
            seen.add(b)
            stmts, term = bbs[b][0], bbs[b][1]
            self.steps += 1
            for place, rv in stmts:
                if len(place) > 1:
                    continue
                env[place[0]] = self.rvalue(env, rv, f)
            k = term[0]
            if k == "return":
                return env.get(0)
            if k == "goto":
                b = term[1]
            elif k == "drop":
                b = term[2]
            elif k == "switch":
                v = self.op(env, term[1], f)
                n = {"true": "1", "false": "0"}.get(v, v)
                b = dict((x, y) for x, y in term[3]).get(n, term[4])
            elif k == "call":
                env[term[3][0]] = self.call(env, term, f)
                b = term[4]
            else:
                raise Unknown("%s: %s" % (path, k))

    def rvalue(self, env, rv, f):
        k = rv[0]
        if k == "use":
            return self.op(env, rv[1], f)
        if k == "ref":
            return self.op(env, rv[1], f)
        if k == "cast":
            return self.op(env, rv[2] if len(rv) > 2 and isinstance(rv[2], (list, dict)) else rv[1], f)
        if k == "agg":
            xs = tuple(self.op(env, o, f) for o in rv[2])
            if rv[1][0] in ("array", "tuple"):
                return xs
            nm = rv[1][2] if rv[1][0] == "adt" else rv[1][0]
            if nm in ("Some",):
                return xs
            return nm + (text(xs) if xs else "")
        return k

    def call(self, env, term, f):
        fn = term[1].get("fn") if isinstance(term[1], dict) else None
        if not fn:
            return "?"
        args = [self.op(env, a, f) for a in term[2]]
        path, res = fn[0], fn[1] or fn[0]
        m = last(strip_generics(path))
        self.calls += 1
        if m in ("augment_args", "augment_subcommands") and res in self.prog.fns:
            return self.run(res, args)
        if m in ("augment_args", "augment_subcommands") and args and isinstance(args[0], Built):
            return args[0].having(("options of", (short(fn[2] or res),)))
        owner = last(strip_generics(path).rsplit("::", 1)[0])
        if m == "new" and owner in ("Arg", "ArgGroup", "Command"):
            return Built(owner, args[0])
        if args and isinstance(args[0], Built) and args[0].kind == owner:
            if m in PROSE:
                return args[0]
            if m in ("arg", "group", "subcommand"):
                return args[0].holding(args[1])
            return args[0].having((m, tuple(args[1:])))
        if m == "takes_values":
            return "true" if re.match(r".*(Set|Append)$", text(args[0])) else "false" if re.search(r"SetTrue|SetFalse|Count|Help|Version", text(args[0])) else "?"
        if m in ("from", "into") and len(args) == 1:
            return args[0]
        if m == "new" and not args:
            return "new"
        if m == "value_parser":
            return ty_of(fn[2] or "") or short(fn[3] if len(fn) > 3 else res)
        return "%s(%s)" % (short(strip_generics(path)), ", ".join(map(text, args)))


def ty_of(t):
    m = re.search(r"_infer_ValueParser_for<(.*)>$", t)
    return short(m.group(1)) if m else None


def lines(cmd, prefix=""):
    """{what the user types: settings}"""
    out = {}
    keys, pos = {}, 0
    for a in cmd.parts:
        if a.kind == "Arg":
            names = [("--" if m == "long" else "-") + str(x[0]).strip("'") for m, x in a.settings if m in ("long", "short")]
            if not names:
                names = ["<%d>" % pos]
                pos += 1
            keys[a.name] = sorted(names, key=lambda x: (-len(x.split("-", 2)[0]), x.count("-") != 2, x))[0]
    own = prefix or "git-branchless"
    out[own] = sorted(str((m, text(x))) for m, x in cmd.settings)
    for a in cmd.parts:
        if a.kind == "Arg":
            ss = []
            for m, x in a.settings:
                if m == "default_value_if":
                    x = (keys.get(x[0], x[0]),) + x[1:]
                if m in ("conflicts_with", "conflicts_with_all", "requires", "overrides_with", "overrides_with_all", "required_unless_present",
                         "required_if_eq", "requires_all", "group"):
                    ss.append("%s %s" % (m, " ".join(sorted(keys.get(y, y) for y in flatten(x)))))
                else:
                    ss.append("%s %s" % (m, " ".join(map(text, x))))
            out["%s %s" % (own, keys[a.name])] = sorted(ss) + ["stored as " + str(a.name).strip("'")]
        elif a.kind == "Command":
            for k, v in lines(a, "%s %s" % (own, str(a.name).strip("'"))).items():
                out[k] = v
    used = " ".join(y for v in out.values() for y in v)
    for a in cmd.parts:
        if a.kind == "ArgGroup" and str(a.name) in used:
            out["%s group %s" % (own, a.name)] = sorted("%s %s" % (m, " ".join(sorted(keys.get(y, y) for z in x for y in flatten(z)))) for m, x in a.settings)
    return out


def describe(prog):
    if ROOT not in prog.fns:
        return dict(lines={}, values={}, problem="no command line found")
    ln = Line(prog)
    try:
        got = lines(ln.run(ROOT, [Built("Command", "git-branchless")]))
    except Unknown as e:
        return dict(lines={}, values={}, problem=str(e))
    values = {}
    for p in sorted(prog.fns):
        if p.endswith("::ValueEnum>::to_possible_value"):
            c = Summary(prog, p).contract()
            values[ty_head(p[1:].split(" as ")[0])] = sorted(json.dumps([r["sink"], sorted(map(sorted, r["guard"])), a], sort_keys=True)
                                                             for r in c["records"] for a in [{k: [y for y in v if "PossibleValue::help" not in y] for k, v in r["args"].items()}])
    return dict(lines=got, values=values, calls=ln.calls)


def ids(lines):
    return {y for v in lines.values() for y in v if y.startswith("stored as ")}


def compare(gold, cur):
    """[(command or option, expected, found)]"""
    a, b = gold["lines"], cur["lines"]
    ia, ib = ids(a), ids(b)
    out = []
    for k in sorted(a):
        x, y = set(a[k]), set(b.get(k, ["absent"]))
        gone, new = x - y, y - x
        # a field renamed throughout
        if len(gone) == len(new) == 1 and gone <= ia - ib and new <= ib - ia:
            continue
        if gone or new:
            out.append((k, sorted(gone), sorted(new)))
    for k in sorted(set(gold["values"]) & set(cur["values"])):
        if gold["values"][k] != cur["values"][k]:
            x, y = set(gold["values"][k]), set(cur["values"][k])
            out.append(("values of " + k, sorted(x - y), sorted(y - x)))
    return out
