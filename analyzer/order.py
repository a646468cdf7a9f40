"""Order of effects: which conflicting effects of a function always follow each other.

Every call is given the parts of the outside world it may read and write.  Two calls conflict when
one writes what the other reads or writes.  A function's order is the set of pairs of conflicting
calls (a, b) such that b can follow a and a can never follow b (loops taken as one iteration).
"""
import re
from flat import strip_generics, last
from values import call_label

WORLD = frozenset("head refs index work db fs".split())
NONE = (frozenset(), frozenset())


def rw(r="", w=""):
    return frozenset(r.split()), frozenset(w.split())


G2 = r"git2::(\w+::)*"
EXTERNAL = [
    (G2 + r"Repository::set_head\w*$", rw("refs keep ask saved", "head")),
    (G2 + r"Repository::(reference|reference_matching|reference_symbolic|branch)$|" + G2 + r"Reference::(delete|rename|set_target|symbolic_set_target)$|"
     + G2 + r"Branch::(delete|rename)$", rw("keep ask", "refs")),
    (G2 + r"Repository::(head|head_detached|is_head\w*)$", rw("head")),
    (G2 + r"Repository::(find_reference|references\w*|branches|find_branch|refname_to_id|resolve_reference\w*|revparse\w*)$", rw("refs")),
    (G2 + r"Repository::index$", rw("index")),
    (G2 + r"Index::(write|add\w*|remove\w*|clear|update_all)$", rw("ask", "index")),
    (G2 + r"Repository::(state|statuses\w*)$", rw("fs index work")),
    (r"std::fs::(write|set_permissions)$|std::fs::File::create$|std::fs::OpenOptions::open$|serde_json::ser::to_writer\w*$", rw("ask lock", "fs")),
    (r"std::fs::(remove_\w+|create_dir\w*|rename|copy|hard_link)$", rw("ask lock", "fs tree")),
    (r"std::fs::(read\w*|metadata|canonicalize|exists)$|std::fs::File::open$|std::path::Path::(exists|is_file|is_dir)$", rw("fs")),
    (r"rusqlite::(\w+::)*(execute\w*|commit|unchecked_transaction|last_insert_rowid|rollback|finish)$", rw("keep", "db")),
    (r"rusqlite::(\w+::)*(prepare\w*|query\w*)$", rw("db")),
    (r"std::process::Command::(spawn|status|output)$", rw("head refs index work fs lock ask cwd", "proc")),
    (r"std::process::Child::(wait\w*|kill)$", rw("", "proc")),
    (r"std::env::(set_current_dir|set_var|remove_var)$", rw("", "cwd")),
    (r"scm_record::ui::Recorder::run$|skim::Skim::run_with$|alloc::io::buf_read::BufRead::read_line$|cursive\w*::.*::run$", rw("", "ask")),
    (r"fslock::LockFile::(lock\w*|try_lock\w*)$", rw("", "lock")),
]
EXTERNAL = [(re.compile(a), b) for a, b in EXTERNAL]
OWN = [
    (r"GitRunInfo::(run|run_inner|run_direct_no_wrapping)$", rw("head refs index work db keep ask lock saved", "head refs index work db proc")),
    (r"GitRunInfo::run_silent(_inner)?$", rw("head refs index work keep lock ask", "proc")),
    (r"GitRunInfo::run_hook(_inner)?$", rw("head refs keep", "db proc")),
    (r"Repo::(get_status|has_changed_files)$|WorkingCopySnapshot::create$", rw("head index work")),
    (r"core::config::|git::config::|Repo::(get_db_conn|from_\w+|open_\w+|create_commit|find_commit\w*|find_blob|find_tree|create_blob\w*|try_clone|get_\w*config\w*)$"
     r"|Commit::amend_commit$|EventLogDb::(new|make_transaction_id\w*)$|core::dag::|core::task::|core::effects::|core::formatting::|core::node_descriptors::|testing::", NONE),
    (r"index::update_index$", rw("index lock", "index")),
    (r"rewrite_hooks::save_original_head_info$", rw("fs", "fs saved")),
    (r"gc::mark_commit_reachable$", rw("", "keep")),
    (r"EventLogDb::add_events$", rw("keep ask", "db")),
    (r"EventLogDb::get_events$", rw("db")),
]
OWN = [(re.compile(a), b) for a, b in OWN]


def _external(path):
    q = strip_generics(path)
    for rx, x in EXTERNAL:
        if rx.match(q):
            return x
    return None


def _own(path):
    q = re.sub(r"::<[^<>]*>", "", path)
    for rx, x in OWN:
        if rx.search(q):
            return x
    return None


def world_of(prog):
    """{workspace function: (reads, writes)}"""
    if getattr(prog, "_world", None) is not None:
        return prog._world
    base, callers, fixed = {}, {}, set()
    for p, fn in prog.fns.items():
        o = _own(p)
        if o is not None:
            base[p] = o
            fixed.add(p)
            continue
        base[p] = NONE
        for bb in fn.bbs:
            if not bb:
                continue
            for pl, rv in bb[0]:
                if rv[0] == "agg" and rv[1][0] == "closure":
                    callers.setdefault(rv[1][1], set()).add(p)
                for o in (rv[1:] if rv[0] in ("use", "cast") else (rv[2] if rv[0] == "agg" else ())):
                    if isinstance(o, dict) and "fn" in o:
                        callers.setdefault(o["fn"][1] or o["fn"][0], set()).add(p)
            t = bb[1]
            if t[0] == "call":
                c = t[1]
                if isinstance(c, dict) and "fn" in c:
                    r = c["fn"][1] or c["fn"][0]
                    if r in prog.fns:
                        callers.setdefault(r, set()).add(p)
                    else:
                        x = _external(r) or _external(c["fn"][0])
                        if x:
                            base[p] = (base[p][0] | x[0], base[p][1] | x[1])
                for a in t[2]:
                    if isinstance(a, dict) and "fn" in a:
                        callers.setdefault(a["fn"][1] or a["fn"][0], set()).add(p)
    work = [p for p, x in base.items() if x[0] or x[1]]
    while work:
        x = work.pop()
        for c in callers.get(x, ()):
            if c in fixed:
                continue
            n = (base[c][0] | base[x][0], base[c][1] | base[x][1])
            if n != base[c]:
                base[c] = n
                work.append(c)
    prog._world = base
    return base


FIRST = frozenset("keep ask lock saved".split())   # matters only that it was done before


def conflict(a, b):
    """Does it matter that a comes before b?"""
    ww = (a[1] & b[1]) - FIRST
    if ww == {"fs"} and "tree" not in a[1] | b[1]:
        ww = frozenset()
    return bool(ww or a[1] & b[0] or (b[1] & a[0]) - FIRST)


def order(s, labels):
    """Pairs of labels that are strictly ordered.  labels: {block: label} of the sinks of summary s."""
    world = world_of(s.prog)
    at, use = {}, {}
    for n, c, args, dest in s.calls():
        if n in s.g.errnodes:
            continue
        x = world.get(c["res"]) if c["res"] in world else (_external(c["res"]) or _external(c["path"]))
        if not x or not (x[0] or x[1]):
            continue
        l = labels.get(s.g.nodes[n][0]) or call_label(c)
        at.setdefault(l, set()).add(n)
        a, b = use.get(l, NONE)
        use[l] = (a | x[0], b | x[1])
    names = sorted(at)
    if len(names) < 2 or not any(use[l][1] for l in names):
        return []
    follows = {}
    for l in names:
        seen, work = set(), list(at[l])
        while work:
            n = work.pop()
            for t, _ in s.g.dsucc[n]:
                if t not in seen and t in s.g.good:
                    seen.add(t)
                    work.append(t)
        follows[l] = seen
    out = []
    for a in names:
        for b in names:
            if a == b or not (follows[a] & at[b]) or follows[b] & at[a]:
                continue
            forth, back = conflict(use[a], use[b]), conflict(use[b], use[a])
            if forth or back:
                out.append([a, b] if forth else [a, b, "free"])   # free: swapping them is harmless
    return out
