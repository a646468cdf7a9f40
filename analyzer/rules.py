"""Whole-program rules, decided on the current tree alone (no stored contract, except for the grammar).

Each rule says which effects can never be reached from an entry point in the call graph,
or what no literal of the program may say.
"""
import json, os, re
import cli, grammar
from callgraph import reach, path_to

RULES = {}   # property -> [(name, function(ctx) -> (instances, [violation]), floor)]


def rule(*pids, floor=1):
    def deco(f):
        for p in pids:
            RULES.setdefault(p, []).append((f.__name__, f, floor))
        return f
    return deco


def bad(pid, name, fn, where, construct, expected, found):
    return dict(key="%s rule %s %s %s" % (pid, name, fn, construct), function=fn, where=where if isinstance(where, list) else [where],
                rule=name, construct=construct, expected=expected, found=found)


class Ctx:
    def __init__(self, data):
        self.g, self.grammar, self.cli = data["graph"], data["grammar"], data["cli"]

    def at(self, fn):
        return "%s:%d" % tuple(self.g[fn]["at"])


def run(pid, data):
    ctx = Ctx(data)
    out = dict(violations=[], evaluated={})
    for name, f, floor in RULES.get(pid, ()):
        n, vs = f(ctx)
        out["evaluated"][name] = n
        for fn, where, construct, expected, found in vs:
            out["violations"].append(bad(pid, name, fn, where, construct, expected, found))
        if n < floor:
            out["violations"].append(bad(pid, name, "-", [], "instances", ">= %d" % floor, n))
    return out


# ---------------------------------------------------------------- effects
G2 = r"^git2::(\w+::)*"
EFFECTS = {
    "delete or rename a reference": G2 + r"(Reference|Branch)::(delete|rename)$|" + G2 + r"Branch::delete$",
    "create or move a reference": G2 + r"(Repository::(reference|reference_symbolic|reference_matching|reference_symbolic_matching|branch|branch_from_annotated_commit|tag\w*)"
                                  r"|Reference::(set_target|symbolic_set_target))$",
    "move the checked-out position": G2 + r"Repository::(set_head\w*|reset\w*)$",
    "write the index": G2 + r"Index::(write|add\w*|remove\w*|clear|update_all)$",
    "write the working copy": G2 + r"Repository::(checkout_\w+|cherrypick|merge|revert|apply\w*|stash\w*)$",
    "start a process": r"^(std|async_process|tokio)::(\w+::)*Command::(spawn|output|status)$|::CommandExt::exec$",
    "remove a file": r"^std::fs::(remove_\w+|rename)$",
}
RECORD = r"(?i)\binsert\s+into\s+event_log\b"
EFFECTS = {k: re.compile(v) for k, v in EFFECTS.items()}
ALL = sorted(EFFECTS) + ["record an event"]


def never(ctx, entries, effects):
    """None of the effects can be reached from the entry points."""
    rx = re.compile(entries)
    roots = [p for p in ctx.g if rx.search(re.sub(r"::<[^<>]*>", "", p)) and "{closure" not in p]
    seen = reach(ctx.g, roots)
    out = []
    for p in sorted(seen):
        for k in effects:
            if k == "record an event":
                hits = [s.split("(")[0].strip() for s in ctx.g[p]["strs"] if re.search(RECORD, s)]
            else:
                hits = [e for e in ctx.g[p]["ext"] if EFFECTS[k].search(e)]
            for h in hits:
                out.append((p, [ctx.at(p)], "%s: %s" % (k, h), "never reached from " + ", ".join(roots[:3]), " > ".join(path_to(seen, p))))
    return len(seen), out


def but(*allowed):
    return [k for k in ALL if k not in allowed]


@rule("P02")
def sql_append_only(ctx):
    """No statement of the program changes or removes what was recorded."""
    n, out = 0, []
    for p, x in ctx.g.items():
        for s in x["strs"]:
            if not re.search(r"(?i)\bevent_(log|transactions)\b", s):
                continue
            n += 1
            if re.search(r"(?i)\b(delete\s+from|update\s+event_|drop\s+table|alter\s+table|replace\s+into|insert\s+or\s+(replace|ignore|rollback)|truncate|create\s+trigger)\b", s):
                out.append((p, [ctx.at(p)], "statement " + " ".join(s.split())[:120], "only appends", " ".join(s.split())[:200]))
    return n, out


@rule("P35", floor=0)
def read_only_reach(ctx):
    n1, o1 = never(ctx, r"^git_branchless_(smartlog::smartlog|query::query|test::subcommand_show)$", but("create or move a reference", "remove a file"))
    n2, o2 = never(ctx, r"^<?git_branchless::commands::bug_report::", but("create or move a reference", "start a process"))
    return n1 + n2, o1 + o2


@rule("P07", floor=0)
def gc_reach(ctx):
    return never(ctx, r"^branchless::core::gc::gc$", but("delete or rename a reference"))


@rule("P11", floor=0)
def in_memory_reach(ctx):
    """Applying the commands of a plan in memory touches nothing."""
    return never(ctx, r"^branchless::core::rewrite::execute::in_memory::rebase_in_memory$", ALL)


@rule("P10", floor=0)
def planning_reach(ctx):
    return never(ctx, r"^branchless::core::rewrite::plan::RebasePlanBuilder::build$", ALL)


@rule("P23", floor=0)
def hook_reach(ctx):
    """Hooks that only record do nothing else to the repository."""
    n1, o1 = never(ctx, r"^git_branchless_hook::hook_(post_checkout|reference_transaction)$", but("record an event"))
    n2, o2 = never(ctx, r"^git_branchless_hook::hook_post_(commit|merge|applypatch)$", but("record an event", "create or move a reference"))
    return n1 + n2, o1 + o2


@rule("P25", "P26", floor=0)
def revset_reach(ctx):
    """Resolving a selection has no effect."""
    return never(ctx, r"^git_branchless_revset::resolve::(resolve_commits|check_revset_syntax|resolve_default_smartlog_commits)$", ALL)


@rule("P27", floor=0)
def navigation_reach(ctx):
    return never(ctx, r"^git_branchless_navigation::advance$", ALL)


@rule("P31", floor=0)
def bisect_reach(ctx):
    return never(ctx, r"^(<?scm_bisect::|<.* as scm_bisect::)", ALL)


@rule("P37", floor=0)
def repair_reach(ctx):
    return never(ctx, r"^git_branchless::commands::repair::repair$", but("record an event"))


@rule("P34", floor=0)
def status_reach(ctx):
    return never(ctx, r"branch_forge::.*::query_status$", but("start a process"))


@rule("P19", floor=0)
def snapshot_reach(ctx):
    """Taking a snapshot writes objects only."""
    return never(ctx, r"^branchless::git::snapshot::WorkingCopySnapshot::(create|try_from_base_commit)$", ALL)


@rule("P19", floor=0)
def staged_renames(ctx):
    """What is stored of the index covers the former path of a renamed file, which is gone from the index."""
    n, out = 0, []
    for fn in sorted(ctx.g):
        if re.search(r"^branchless::git::snapshot::.*create_commit_for_stage$", fn):
            n += 1
            near = reach(ctx.g, [x for x in ctx.g if x == fn or x.startswith(fn + "::{closure")])
            if not any(ctx.g[x]["former"] for x in near):
                out.append(("snapshot of the index", ctx.at(fn), "former path", "the former path of a renamed file is looked up and stored as deleted", "only the new path is looked up"))
    return n, out


@rule("P43", floor=0)
def parsing_ends(ctx):
    """A loop that looks at the next byte of the status output moves on before it looks again."""
    n, out = 0, []
    for fn in sorted(ctx.g):
        k, stuck = ctx.g[fn]["peeks"]
        if fn.startswith("branchless::git::"):
            n += k
            out += [(fn, "%s:%d" % (ctx.g[fn]["at"][0], line), "peek", "the iterator is moved on before it is peeked at again", "a way round the loop leaves it where it is") for line in stuck]
    return n, out


# ---------------------------------------------------------------- the command line
CLI = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "cli.json")


@rule("P47", floor=0)
def command_line(ctx):
    """Every subcommand has the options documented for it, stored where the operation expects them."""
    with open(CLI) as fh:
        gold = json.load(fh)
    if ctx.cli.get("problem"):
        return 0, []
    return len(ctx.cli["lines"]), [("command line", ["git-branchless-opts/src/lib.rs"], k, str(w), str(g)) for k, w, g in cli.compare(gold, ctx.cli)]


# ---------------------------------------------------------------- the revset grammar
GRAMMAR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "contracts", "grammar.json")


@rule("P25", "P26", floor=20)
def grammar_productions(ctx):
    """Every production of the revset grammar builds what is documented, at its level of precedence."""
    with open(GRAMMAR) as fh:
        gold = json.load(fh)
    return len(ctx.grammar["productions"]), [("grammar", [grammar.FILE], k, str(w), str(g)) for k, w, g in grammar.compare(gold, ctx.grammar)]


@rule("P26")
def escapes_end(ctx):
    """A flag that marks the next character as escaped does not outlive that character."""
    n, out = 0, []
    for k, flags in grammar.lines(ctx.grammar, part="flags").items():
        n += len(flags)
        if "only set" in flags:
            out.append(("grammar", [grammar.FILE], k, "the escape ends after one character", "the flag is set in the loop and never cleared"))
    return n, out
