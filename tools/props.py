#!/usr/bin/env python3
"""Source of /verif/properties.jsonl.  Run to regenerate it."""
import json, os
L = "git-branchless-lib/src/"
P = []


def p(id, title, statement, over, quant, why, files, mech, observe, state=None):
    d = dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=False))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)


EV = L + "core/eventlog.rs"
# ---------------------------------------------------------------- event log
p("P01", "Every recorded event reads back unchanged and in recording order",
  "Every event recorded in the event log, of every kind (commit rewrite, reference update, commit, hide, unhide, working-copy snapshot), is later read back as the same kind with the same timestamp, transaction and object/reference fields, none swapped, dropped or defaulted. Events are read back in the order in which they were recorded, and an absent old or new side of a rewrite or reference update reads back as absent.",
  ["inputs", "histories"], "all event kinds, all field values (including absent sides and symbolic reference targets), all sequences of recordings",
  "Tests store a handful of concrete events; a swapped column or a lost field only shows for the kind/field combination that is not stored by any test.",
  [EV], [("event to row conversion", EV + " Row::from(Event)"), ("row to event conversion", EV + " try_from_row_helper"), ("INSERT / SELECT statements", EV + " EventLogDb")],
  ["rows of the event_log table", "events returned by the reader"])
p("P02", "The event log is append-only and each batch is stored all-or-nothing",
  "No operation ever deletes or edits an event that has been recorded; recording only appends. The events passed in one recording call become visible together in a single database transaction or, if any of them fails, not at all, and events of a suppressed transaction are never stored. A command started on behalf of another git-branchless command records under its parent's transaction, otherwise a fresh, never reused transaction number is allocated.",
  ["histories", "crash_points", "configurations"], "all batches, all crash points during recording, all commands that open the log, with and without an inherited transaction",
  "A crash between two inserts and a stray DELETE/UPDATE in a rarely used path are not exercised by any unit test.",
  [EV], [("batch insert", EV + " EventLogDb::add_events"), ("transaction allocation", EV + " make_transaction_id"), ("table creation", EV + " init_tables")],
  ["SQL statements executed against the log", "transaction column"])
p("P03", "A commit's activity status follows its latest event",
  "Replaying the log classifies a commit by the last event that mentions it: a commit event, an unhide, or being the new side of a rewrite makes it active; a hide or being the old side of a rewrite makes it obsolete; a commit that is never mentioned is inactive. Reference updates and snapshots never change a commit's status, and every event that mentions a commit is kept in that commit's history.",
  ["histories"], "all event histories, including commits that are rewritten, hidden and unhidden repeatedly, or rewritten to themselves",
  "The classification is a fold over arbitrary histories; tests replay a few fixed ones.",
  [EV], [("event classification", EV + " EventReplayer::process_event"), ("status lookup", EV + " EventReplayer::get_cursor_commit_activity_status"), ("last event lookup", EV + " get_cursor_commit_history")],
  ["activity status for a commit at a cursor", "set of obsolete/active commits"])
p("P04", "State at a past point in the log depends only on earlier events",
  "The reference positions, the checked-out commit, the main branch position and the commit statuses reported for a point in the log are computed from exactly the events that precede that point, latest one winning, with deleted references absent. Moving the point by a number of events or by whole transactions clamps at both ends of the log and stops at transaction boundaries, and the events reported since a point are exactly those from that point on.",
  ["histories"], "all histories and all positions in them, including the empty log and both ends",
  "Off-by-one errors at the ends and at transaction boundaries appear only for particular histories.",
  [EV], [("replay to a cursor", EV + " EventReplayer::get_cursor_*"), ("cursor arithmetic", EV + " make_cursor, advance_cursor, advance_cursor_by_transaction"), ("reference snapshots", EV + " get_references_snapshot")],
  ["reference snapshot at a cursor", "events since a cursor"])
p("P05", "Internal and transient references are never treated as user actions",
  "Updates of the tool's own bookkeeping references and of Git's transient pseudo-references (such as those used while rebasing, cherry-picking, merging or fetching) are never recorded or replayed as movements the user made. Every other reference update, including branch, tag, remote-tracking and checked-out position updates, is.",
  ["inputs", "histories"], "all reference names",
  "There are unboundedly many reference names; tests use a few.",
  [EV, "git-branchless-hook/src/lib.rs"], [("ignored reference list", EV + " should_ignore_ref_updates, is_gc_ref"), ("hook filter", "git-branchless-hook/src/lib.rs hook_reference_transaction"), ("replay filter", EV + " process_event")],
  ["events recorded by the reference-transaction hook", "replayed reference locations"])
# ---------------------------------------------------------------- dag / gc
p("P06", "Visible, obsolete, public and draft commit sets have fixed meanings",
  "The public commits are exactly the ancestors of the main branch; the obsolete commits are exactly those whose latest status is obsolete, and the observed commits also include the active ones. The visible commits are the ancestors of the visible heads (non-obsolete observed commits plus the checked-out commit, main branch and branch tips), and the draft commits are the visible commits that are not public.",
  ["inputs", "histories"], "all commit graphs and all event histories",
  "The definitions quantify over every graph and history; tests draw a few graphs.",
  [L + "core/dag.rs"], [("commit set queries", L + "core/dag.rs Dag::query_*"), ("graph synchronisation", L + "core/dag.rs Dag::open_and_sync, sync")],
  ["results of commit set queries"])
GC = L + "core/gc.rs"
p("P07", "Garbage collection only drops bookkeeping refs of obsolete commits",
  "Garbage collection deletes only the tool's own internal keep-alive references and never a branch, tag, remote-tracking or other user reference. It deletes such a reference only when the commit it keeps alive is known to be obsolete (not active) by the log, or can no longer be found, and it keeps every reference whose commit is still active.",
  ["inputs", "histories"], "all repositories, all sets of references, all histories",
  "A wrong filter destroys user data only in repositories holding the reference shape that the tests lack.",
  [GC, L + "git/reference.rs"], [("dangling reference search", GC + " find_dangling_references"), ("deletion", GC + " gc")],
  ["references deleted by gc"])
p("P08", "Commits the tool creates or shows are protected from Git's own gc",
  "Every commit that the tool creates, rewrites to, is told about by a hook, or displays in the smartlog is given a keep-alive reference before (or together with) being recorded in the log, and before any branch or the checked-out position is moved to it. The keep-alive reference points at that very commit.",
  ["histories", "crash_points"], "all commands that create commits, all crash points between creation and recording",
  "Losing the protection is invisible until Git prunes objects weeks later.",
  [GC, L + "core/rewrite/execute.rs", "git-branchless-hook/src/lib.rs"], [("keep-alive reference creation", GC + " mark_commit_reachable"), ("callers", "execute.rs post_rebase_in_memory, hook lib.rs, amend.rs, record lib.rs, smartlog")],
  ["refs under the internal namespace", "order of keep-alive creation and branch moves"])
# ---------------------------------------------------------------- rewriting
PL = L + "core/rewrite/plan.rs"
EX = L + "core/rewrite/execute.rs"
p("P09", "Public commits are never rewritten unless explicitly forced",
  "No command that rewrites commits (move, sync, restack, amend, reword, record, split-like and fix operations) rewrites a commit that is an ancestor of the main branch unless the user passed the option forcing rewriting of public commits; instead it stops with a failure before anything has changed. The check covers the named commits and every descendant that would be rewritten with them.",
  ["inputs", "histories"], "all commands, all selections of commits, all graphs",
  "Each command guards itself; a missed guard needs the particular command and a public commit in its rewritten set.",
  [PL, "git-branchless-move/src/lib.rs", "git-branchless-reword/src/lib.rs", "git-branchless-record/src/lib.rs", "git-branchless/src/commands/amend.rs", "git-branchless/src/commands/sync.rs", "git-branchless/src/commands/restack.rs", "git-branchless-test/src/lib.rs"],
  [("permission check", PL + " RebasePlanPermissions::verify_rewrite_set"), ("plan builder", PL + " RebasePlanBuilder::build")],
  ["rebase plans built", "refusal before side effects"])
p("P10", "Rebase plans contain each moved commit once, on its right parents",
  "A rebase plan applies every requested move together with all visible descendants of the moved commits, each commit once and after its new parents, keeping descendants attached to their (rewritten) parents. Requests that would form a cycle are refused, as is a plan whose rewritten commits are not permitted; commits that need no move are left alone, and merge commits are recreated with all parents.",
  ["inputs"], "all commit graphs and all sets of move/replace requests",
  "Plan construction is a graph algorithm whose mistakes need specific shapes (merges, stacked moves, moved ancestors).",
  [PL], [("plan construction", PL + " RebasePlanBuilder::build"), ("cycle check", PL + " check_for_cycles"), ("descendant constraints", PL + " add_descendant_constraints, collect_descendants"), ("command emission", PL + " make_rebase_plan_for_current_commit")],
  ["sequence of plan commands"])
p("P11", "A failed in-memory rewrite leaves the repository as it was",
  "When an in-memory rewrite meets a merge conflict, a commit it cannot apply, or any error, no branch, checked-out position, working-copy file or event-log entry is changed by it; references are only touched after every commit of the plan has been applied. Conflicts are reported together with the commits that conflict, and resolution is only started on disk when the user asked for it and did not demand in-memory operation.",
  ["inputs", "fault_sequences"], "all plans, all conflict positions, all option combinations",
  "Tests cover conflicts on one commit; the guarantee is about every position and option combination.",
  [EX], [("in-memory application", EX + " in_memory::rebase_in_memory"), ("mode selection", EX + " execute_rebase_plan"), ("post-processing", EX + " in_memory::post_rebase_in_memory")],
  ["references after a failed rebase", "result kind returned"])
p("P12", "Rewriting a commit keeps its author, message and content",
  "A rewritten commit keeps the original author (name, email and author date) and message unless the user asked to change them, has the rewritten parents in the original order, and its committer is the original one with the date refreshed unless timestamps are to be preserved. Its content is the original change applied to the new parent (or the explicitly supplied replacement), and commits that become empty or are already upstream are skipped rather than silently altered.",
  ["inputs", "configurations"], "all commits, all plans, with and without timestamp preservation",
  "Swapping author and committer or dropping a parent needs inputs whose fields differ; test commits use identical identities.",
  [EX, L + "git/repo.rs"], [("commit re-creation", EX + " in_memory::rebase_in_memory"), ("commit creation", L + "git/repo.rs Repo::create_commit"), ("amend", L + "git/object.rs Commit::amend_commit")],
  ["author/committer/message/parents/tree of rewritten commits"])
p("P13", "Branches follow their commit when it is rewritten, and main is kept",
  "After commits are rewritten, every local branch that pointed at a rewritten commit points at its replacement, and no other branch moves. A branch whose commit was dropped is deleted, except that the main branch is moved to the dropped commit's parent instead of being deleted; every move or deletion made is recorded and announced even if a later one fails.",
  ["inputs", "fault_sequences"], "all mappings from old to new commits, all sets of branches, any failing branch update",
  "The failure path and the main-branch exception need special set-ups.",
  [EX], [("branch moves", EX + " move_branches")],
  ["branch positions after a rewrite", "reference-transaction announcement"])
RH = L + "core/rewrite/rewrite_hooks.rs"
p("P14", "Every rewrite is recorded with the right old and new commit",
  "Every commit replaced during a rewrite is recorded as a rewrite from the old commit to its replacement, a dropped or skipped commit is recorded as a rewrite to nothing, and no other pair is recorded. During an on-disk rebase commit events are held back and recorded when it finishes, amend-style rewrites inside it are ignored, and the pairs registered for commits dropped or skipped on the way are not lost.",
  ["histories", "crash_points"], "all rewrites in memory and on disk, including skipped and emptied commits",
  "The mapping is assembled across processes and files; unit tests look at single hook runs.",
  [RH, EX], [("post-rewrite hook", RH + " hook_post_rewrite"), ("mapping files", RH + " add_rewritten_list_entries, write_rewritten_list"), ("dropped commits", RH + " hook_drop_commit_if_empty, hook_skip_upstream_applied_commit"), ("in-memory mapping", EX + " rewritten_oids")],
  ["rewrite events", "rewritten-list file"])
p("P15", "On-disk rebases start only from a safe state and restore HEAD after",
  "An on-disk rebase is started only when no other operation is in progress and the working copy has no uncommitted changes to tracked files; otherwise it fails before writing any rebase state. When it starts, the user's original branch and commit are saved first, and when it ends the checked-out position is put on the rewritten version of what was checked out, on the same branch if it was on one.",
  ["histories", "fault_sequences"], "all repository states in which a rebase can be requested",
  "Interrupted states and dirty working copies combine in ways tests do not enumerate.",
  [EX, RH], [("on-disk start", EX + " on_disk::write_rebase_state, rebase_on_disk"), ("original head info", RH + " save_original_head_info, load_original_head_info"), ("final checkout", EX + " check_out_updated_head")],
  ["rebase state directory", "HEAD after the rebase"])
EVO = L + "core/rewrite/evolve.rs"
p("P16", "Restack moves exactly the abandoned commits onto the latest rewrite",
  "The latest version of a rewritten commit is found by following rewrites to the end, reporting no version when the last rewrite dropped the commit and stopping on cycles. The abandoned children of a rewritten commit are exactly its visible, non-obsolete direct children, and restack moves each of them onto the latest version (never onto an obsolete one), and moves branches left on a rewritten commit to its latest version, deleting only branches of dropped commits.",
  ["histories", "inputs"], "all rewrite chains (including cycles and drops) and graphs",
  "Chains with cycles, drops and re-rewrites are unbounded.",
  [EVO, "git-branchless/src/commands/restack.rs"], [("latest version", EVO + " find_rewrite_target"), ("abandoned children", EVO + " find_abandoned_children"), ("restack loops", "git-branchless/src/commands/restack.rs")],
  ["constraints requested by restack", "branch updates"])
# ---------------------------------------------------------------- undo
UN = "git-branchless-undo/src/lib.rs"
p("P17", "Undo applies the exact inverse of the recorded events, newest first",
  "Undoing computes, for the events after the chosen point taken from newest to oldest, the inverse of each: reference moves are swapped back (creation becomes deletion and vice versa), a rewrite is reversed, a commit becomes a hide, a hide becomes an unhide and vice versa, and snapshots are ignored. The references and checked-out position are then set to their recorded former values, with creations and deletions applied as such.",
  ["histories"], "all event histories and all points to undo to",
  "Event kinds and absent sides combine; tests undo a few simple commands.",
  [UN], [("inverse computation", UN + " inverse_event, optimize_inverse_events"), ("application", UN + " undo_events")],
  ["references and events after undo"])
p("P18", "Undo changes nothing without confirmation and keeps branches attached",
  "Undo changes nothing unless there is something to undo and the user confirmed with yes (or asked to skip confirmation); any other answer or end of input leaves everything untouched and fails. Before references are changed the checked-out branch is detached, references that no longer match are handled by forced update, deletion of a missing reference is tolerated, and failures are reflected in the exit code.",
  ["inputs", "fault_sequences"], "all answers, all histories, any failing step",
  "Negative answers, end of input and partial failures are not all tested.",
  [UN], [("confirmation", UN + " undo_events"), ("entry point", UN + " undo")],
  ["state after declined undo", "exit code"])
# ---------------------------------------------------------------- snapshot / checkout
SN = L + "git/snapshot.rs"
p("P19", "A working-copy snapshot captures and restores the exact state",
  "A working-copy snapshot stores the checked-out commit and branch, the staged entries of every conflict stage and the unstaged contents of every changed tracked file, with deletions and file modes. Reading a snapshot back yields the same data, and a commit is treated as a snapshot only if it carries the snapshot markers.",
  ["inputs"], "all working-copy states, including conflicts, deletions, mode changes and an unborn HEAD",
  "The state space of index stages, modes and conflicts is unbounded.",
  [SN, L + "git/index.rs"], [("snapshot creation", SN + " WorkingCopySnapshot::create"), ("snapshot reading", SN + " try_from_base_commit, load_*"), ("stage commits", SN + " create_commit_for_*")],
  ["snapshot commits and their trailers", "restored index and files"])
CO = L + "core/check_out.rs"
p("P20", "Checkouts snapshot first and land exactly on the requested target",
  "Before the tool checks out another commit on the user's behalf it first records a snapshot of the working copy (when undo snapshots are enabled), so that no uncommitted change is lost. It then checks out exactly the requested branch or commit, never silently another one, reports failure if Git fails, and restoring a snapshot resets files, checked-out commit, index and branch in an order that reproduces the recorded state.",
  ["inputs", "fault_sequences", "configurations"], "all targets, all working-copy states, enabled and disabled snapshots, failing git commands",
  "Order and failure handling across several git subprocesses are not enumerable in unit tests.",
  [CO], [("checkout", CO + " check_out_commit"), ("snapshot creation", CO + " create_snapshot"), ("restore", CO + " restore_snapshot")],
  ["git commands issued and their order", "snapshot events"])
# ---------------------------------------------------------------- processes
RU = L + "git/run.rs"
p("P21", "Every git process runs for this repository under the same transaction",
  "Every git process the tool starts runs in this repository's working directory with the configured git executable, and every one started while a transaction is open is handed that transaction's number, so that its hooks record under the same transaction. Hooks invoked directly receive the same transaction, the given arguments and the given standard input.",
  ["inputs", "configurations"], "all git invocations made by any command",
  "A missing environment variable breaks grouping only for undo of that particular command.",
  [RU], [("process start", RU + " GitRunInfo::run, run_silent, spawn_writer_threads, working_directory"), ("hook start", RU + " run_hook"), ("transaction variable", L + "core/eventlog.rs BRANCHLESS_TRANSACTION_ID_ENV_VAR")],
  ["environment, directory and arguments of child processes"])
p("P22", "A failing git process or step makes the command fail",
  "When a git process started by a command exits unsuccessfully or is killed by a signal, or a sub-step reports failure, the command stops that line of work and exits with a failure status, passing on the process's own exit code where there is one. A command exits with success only if its work was done; internal errors exit with failure.",
  ["fault_sequences"], "all commands and every subprocess or sub-step in them failing",
  "Each individual failure must be injected; the tests inject few.",
  [RU, "git-branchless-invoke/src/lib.rs", L + "util.rs"], [("exit code conversion", L + "util.rs ExitCode, RU run"), ("main wrapper", "git-branchless-invoke/src/lib.rs do_main_and_drop_locals"), ("commands", "git-branchless*/src")],
  ["process exit codes"])
# ---------------------------------------------------------------- hooks / init
HK = "git-branchless-hook/src/lib.rs"
p("P23", "Hooks record exactly what Git reports",
  "Each hook records exactly what Git reports, with the current time and its transaction: a new commit event for the commit now checked out after a commit, merge or applied patch (deferred while a rebase is in progress), and for each committed reference transaction one reference update per changed reference with its name, old and new value. Aborted or merely prepared transactions record nothing, and a missing or all-zero value is recorded as absent.",
  ["inputs", "histories"], "all hook invocations and inputs",
  "Hook inputs come from Git in every possible shape; tests parse a few lines.",
  [HK, RH], [("commit hooks", HK + " hook_post_commit_common"), ("reference transaction", HK + " hook_reference_transaction, reference_transaction::*"), ("deferred commits", RH + " get_deferred_commits_path")],
  ["events recorded by each hook"])
IN = "git-branchless-init/src/lib.rs"
p("P24", "Installing and uninstalling preserves the user's hooks and settings",
  "Installing adds the tool's section to a hook script only between its own markers and keeps all other content of the script byte for byte; repeating it changes nothing, and uninstalling removes exactly that section (and the tool's own configuration and aliases) and leaves the rest. A user's existing hook directory, aliases and configuration are never overwritten with something else or deleted.",
  ["inputs", "histories"], "all existing hook scripts and configurations, any number of installs and uninstalls",
  "User hook scripts are arbitrary text; tests use two or three.",
  [IN], [("section update", IN + " update_between_lines, update_hook_contents"), ("install/uninstall", IN + " install_hooks, uninstall_hooks, command_install, command_uninstall"), ("configuration", IN + " install_alias, uninstall_*, set_configs, unset_configs")],
  ["hook files and config after init/uninstall"])
# ---------------------------------------------------------------- revset
RB = "git-branchless-revset/src/builtins.rs"
p("P25", "Revset functions and operators compute their documented sets",
  "Every revset operator and built-in function denotes its documented set of commits over the current graph (union, intersection, difference, range, only, ancestors, descendants, parents and children with optional generation, roots, heads, main, public, draft, stack, branches, author/committer/message/date/path filters, current, merges, test results), with arguments in their documented order. A function applied to the wrong number or kind of arguments is an error rather than a wrong set.",
  ["inputs", "programs"], "all revset expressions and all graphs",
  "Expressions and graphs are unbounded; tests evaluate a few on small graphs.",
  [RB, "git-branchless-revset/src/eval.rs"], [("function table", RB + " FUNCTIONS, fn_*"), ("argument evaluation", "git-branchless-revset/src/eval.rs eval*")],
  ["commit set computed for an expression"])
p("P26", "Revset syntax has one meaning; errors stop a command before it acts",
  "The revset grammar gives operators their documented meaning, precedence and associativity, quoted strings and escapes denote their literal text, and text patterns match as their prefix says (exact, substring, glob, regular expression, before, after; substring by default). User aliases are substituted with their arguments, names resolve to commits the way Git resolves them, hidden commits are excluded from function results unless requested, and an expression that cannot be parsed or resolved makes the command fail before it changes anything.",
  ["inputs", "programs"], "all revset strings, aliases and patterns",
  "The language is infinite; each operator/escape/pattern interaction is its own case.",
  ["git-branchless-revset/src/grammar.lalrpop", "git-branchless-revset/src/eval.rs", "git-branchless-revset/src/pattern.rs", "git-branchless-revset/src/resolve.rs"],
  [("grammar", "git-branchless-revset/src/grammar.lalrpop"), ("evaluation", "git-branchless-revset/src/eval.rs"), ("patterns", "git-branchless-revset/src/pattern.rs"), ("resolution", "git-branchless-revset/src/resolve.rs")],
  ["parsed expression", "commit set or error"])
# ---------------------------------------------------------------- navigation
NA = "git-branchless-navigation/src/lib.rs"
p("P27", "Next/previous navigation stops at ambiguity and never goes astray",
  "Moving to next or previous commits advances exactly the requested amount (or as far as possible, or until a branch when asked) along direct visible child or parent links. When several commits qualify it takes the oldest, newest or interactively chosen one only if the user asked for that, otherwise it stops without moving any further and reports failure; on reaching the end it stays on the last commit reached.",
  ["inputs", "histories"], "all graphs, distances and option combinations",
  "Ambiguity arises on particular graph shapes only.",
  [NA], [("advance", NA + " advance"), ("traversal entry", NA + " traverse_commits, switch")],
  ["checked-out target", "exit code"])
# ---------------------------------------------------------------- test
TE = "git-branchless-test/src/lib.rs"
p("P28", "Test verdicts follow the exit code and cached verdicts match",
  "The verdict for a commit follows the test command's exit code: zero passes, the skip code is indeterminate, the abort code aborts the run, anything else fails, and a command that could not be started or was killed by a signal is never recorded as a verdict. A cached verdict is reused only for the same command and the same tree contents, classifies exactly like a fresh run, and is ignored when caching is off or when an interactive run is requested.",
  ["inputs", "histories"], "all exit codes and signals, all commands and trees, cached and fresh runs",
  "Exit-code classes and cache state combine into cases the tests do not enumerate.",
  [TE, L + "git/test.rs"], [("running and classifying", TE + " test_commit, run_test"), ("cache", TE + " make_test_files"), ("exit code constants", L + "git/test.rs")],
  ["reported test status", "stored result files"])
p("P29", "Test runs are isolated and leave the repository where it was",
  "No two test runs ever execute at the same time in the same working copy or worktree or for the same cached result: each holds the corresponding lock while it runs and gives up if it cannot get it. Running tests in the user's working copy is only begun when it is clean, is guarded so that an interrupted run can be aborted back to the original position, records no events for its temporary checkouts, and returns to the original position afterwards even when the tests fail.",
  ["schedules", "crash_points", "fault_sequences"], "all interleavings of concurrent runs, interruption at any time, failing tests",
  "Races and interruptions are not reproducible in unit tests.",
  [TE], [("locks", TE + " prepare_working_directory, make_test_files"), ("abort trap", TE + " set_abort_trap, clear_abort_trap"), ("run loop", TE + " run_tests, do_event_loop")],
  ["lock files", "HEAD and rebase state after a run"])
WK = "git-branchless-test/src/worker.rs"
p("P30", "Every requested commit is tested once and reported under its own name",
  "With any number of workers, each scheduled commit is handed to exactly one worker, every result is attributed to the commit and options it was produced for, and the run ends only when all scheduled work is done, the search needs no more, or it was aborted. Results are reported in the order of the requested commits, and a worker that dies or fails is reported rather than silently losing its commit.",
  ["schedules"], "all numbers of workers and interleavings",
  "Interleavings of workers and queue operations are not controllable in tests.",
  [TE, WK], [("work queue", WK + " WorkQueue"), ("worker loop", WK + " worker, run loop"), ("event loop", TE + " event_loop")],
  ["set of tested commits", "reported results"])
p("P31", "Bisection never contradicts the results it was given",
  "A search never proposes a commit whose outcome already follows from the results so far, keeps the success and failure bounds consistent with every reported result, and reports a contradictory result (success after a failing ancestor, failure before a succeeding descendant, or a changed verdict) as an error. The reported bounds are the latest known successes and earliest known failures, and a linear, reverse or binary strategy visits candidates in its documented order.",
  ["inputs", "schedules"], "all graphs, result sequences and strategies, including speculative parallel probing",
  "Result sequences over graphs are unbounded; property-based tests sample linear ones.",
  ["scm-bisect/src/search.rs", "scm-bisect/src/basic.rs"], [("search", "scm-bisect/src/search.rs Search::notify, search, bounds"), ("strategy", "scm-bisect/src/basic.rs BasicStrategy::midpoint"), ("graph queries", "scm-bisect/src/basic.rs BasicSourceControlGraph")],
  ["next commits proposed", "bounds", "errors"])
p("P32", "Automatic fixes are applied only where the command passed",
  "Running a fix command replaces a commit's contents only with the tree its command produced when it passed with unstaged tracked changes for that very commit, keeps its descendants attached, and keeps messages and authors. A failed, indeterminate or aborted commit keeps its contents, a dry run changes nothing, public commits are refused unless forced, and nothing is rewritten when no tree changed.",
  ["inputs", "fault_sequences"], "all stacks and all combinations of per-commit outcomes",
  "Outcome combinations along a stack are exponential.",
  [TE], [("tree capture", TE + " test_commit fix snapshot"), ("apply fixes", TE + " apply_fixes")],
  ["trees and parents of rewritten commits"])
# ---------------------------------------------------------------- submit
SU = "git-branchless-submit/src/lib.rs"
BF = "git-branchless-submit/src/branch_forge.rs"
p("P33", "Submit never pushes what was not asked for and never clobbers",
  "Submitting pushes only branches of the selected draft commits; it never pushes the main branch, creates remote branches only when creation was requested, and pushes nothing in a dry run. Existing remote branches are only overwritten with a lease protecting unseen remote work, remote state is fetched first, and a failing fetch or push makes the command fail.",
  ["inputs", "configurations", "fault_sequences"], "all selections, branch set-ups, options and failing pushes",
  "Remote states and option combinations are unbounded.",
  [SU, BF], [("submit flow", SU + " submit"), ("push/fetch", BF + " BranchForge::query_status, create, update")],
  ["git push/fetch command lines"])
p("P34", "Submit classifies each commit's remote state correctly",
  "A selected commit is local when it has no branch or no upstream, up to date when its remote branch is at the same commit, and in need of update when they differ; a commit with several branches is reported as of unknown state and left alone. Each commit is listed in exactly the report category of its state, and updated or created counts reflect what was (or, in a dry run, would be) done.",
  ["inputs"], "all branch/upstream combinations",
  "The combinations of branches, upstreams and options are not enumerated by tests.",
  [SU, BF], [("status query", BF + " query_status"), ("partition and report", SU + " submit")],
  ["submit report", "set of pushed branches"])
# ---------------------------------------------------------------- commands
p("P35", "Read-only commands and previews change nothing the user owns",
  "Commands that only show information (smartlog, query, bug report, showing test results, difftool-like displays) and previews or dry runs (submit, test fix, repair, sync/move planning) never move a branch or the checked-out position, never write working-copy files or the index, and never record hide, unhide or rewrite events.",
  ["inputs", "programs"], "all inputs to these commands",
  "Absence of an effect on every path cannot be shown by running some paths.",
  ["git-branchless-smartlog/src/lib.rs", "git-branchless-query/src/lib.rs", "git-branchless/src/commands/bug_report.rs", "git-branchless/src/commands/repair.rs"],
  [("effect reachability", "call graph from each command's entry point")],
  ["effects reachable from the command"])
p("P36", "Hide and unhide affect exactly the selected commits",
  "Hiding records a hide for exactly the selected commits, plus their visible descendants when recursion was asked for, and deletes the branches on them only when branch deletion was requested; unhiding records an unhide for exactly the selected commits, plus their hidden descendants when recursive. Already hidden or already visible commits are reported, and a selection that cannot be resolved changes nothing and fails.",
  ["inputs", "histories"], "all selections, graphs and option combinations",
  "Graph shapes and option combinations are unbounded.",
  ["git-branchless/src/commands/hide.rs"], [("hide", "git-branchless/src/commands/hide.rs hide"), ("unhide", "git-branchless/src/commands/hide.rs unhide")],
  ["hide/unhide events recorded", "branches deleted"])
p("P37", "Repair only removes records of objects that are really gone",
  "Repair hides only commits that the log considers visible but that no longer exist in the repository, and removes only branch records whose branch really no longer exists, leaving everything else alone. Without confirmation by the dry-run-off option it only reports what it found.",
  ["inputs", "histories"], "all repositories with missing commits or branches",
  "Corrupt repositories come in unbounded shapes.",
  ["git-branchless/src/commands/repair.rs"], [("repair", "git-branchless/src/commands/repair.rs repair")],
  ["events recorded by repair"])
RW = "git-branchless-reword/src/lib.rs"
p("P38", "Reword changes only messages, and only when a real edit was made",
  "Rewording changes only the messages of the selected commits and keeps their contents, authors and order, with descendants carried along. If the edited message is empty or unchanged, or the edited text has missing, duplicate or unexpected commits, nothing is rewritten, a failure or notice is reported and the edited text is kept for reuse.",
  ["inputs"], "all selections and all edited texts",
  "Edited text is arbitrary.",
  [RW], [("reword flow", RW + " reword"), ("message parsing", RW + " prepare_messages, parse_bulk_edit_message"), ("unchanged check", RW)],
  ["rebase plan built by reword", "exit code"])
RC = "git-branchless-record/src/lib.rs"
p("P39", "Record commits exactly the chosen changes on the intended parent",
  "Recording creates a commit from exactly the chosen changes (all changes, the staged ones, or the interactively selected ones) on the checked-out commit, leaving unchosen changes in the working copy. Detaching, creating a branch, inserting before existing children and stashing behave as requested, an aborted selection changes nothing, and conflicts or failing git commands stop it with failure.",
  ["inputs"], "all working-copy states and options",
  "Working-copy states and selections are unbounded.",
  [RC], [("record flow", RC + " record"), ("interactive", RC + " record_interactive"), ("insert", RC + " insert_before_siblings")],
  ["git commands issued", "rebase plan for insert"])
AM = "git-branchless/src/commands/amend.rs"
p("P40", "Amend folds changes into HEAD and carries everything along",
  "Amending replaces the checked-out commit by one with the staged changes if there are any, otherwise all changes to tracked files, keeping its message, author and parents; with nothing to amend it changes nothing, and with unresolved conflicts or a forbidden public commit it fails before changing anything. The branch on the commit, the checked-out position and the descendants follow the amended commit, and a reparent request keeps descendants' contents unchanged.",
  ["inputs", "histories"], "all working-copy states, stacks and options",
  "Index, working copy and stack shapes are unbounded.",
  [AM, L + "git/repo.rs"], [("amend flow", AM + " amend"), ("tree construction", L + "git/repo.rs amend_fast")],
  ["amended commit", "events and branches"])
SY = "git-branchless/src/commands/sync.rs"
p("P41", "Sync moves stacks onto main without touching anything else",
  "Sync moves only the selected draft stacks (by default all of them) onto the main branch, skips a stack that is already based on it, and reports stacks that conflict without changing them. Pulling fetches first and stops if fetching fails, and the local main branch is only fast-forwarded, or rebased when it has commits of its own, onto its upstream.",
  ["inputs", "fault_sequences"], "all stacks, upstream configurations and conflicts",
  "Upstream/stack/conflict combinations are unbounded.",
  [SY], [("sync flow", SY + " sync"), ("main branch", SY + " execute_main_branch_sync_plan"), ("stacks", SY + " execute_sync_plans")],
  ["rebase plans executed", "main branch position"])
MV = "git-branchless-move/src/lib.rs"
p("P42", "Move applies the selection exactly as requested",
  "Moving with a source moves that commit and its descendants, with a base the whole stack branch point containing it, and with exact only the given commits while reattaching their other descendants to the nearest unmoved ancestor; without any it uses the checked-out commit. The destination defaults to the checked-out commit, inserting puts the destination's former children on top of the moved commits, fixing up folds the commits into the destination, and ambiguous or contradictory requests fail without changes.",
  ["inputs"], "all graphs and selections",
  "Graph shapes and selections are unbounded.",
  [MV], [("move flow", MV + " move")],
  ["requests made to the plan builder"])
# ---------------------------------------------------------------- repository layer
RE = L + "git/repo.rs"
p("P43", "Working-copy status and index entries are read without distortion",
  "Every entry Git reports in its machine-readable status is read with its own path (including renames), staged and unstaged states, file mode and kind (changed, renamed, unmerged, untracked), and none is skipped, duplicated or misread; an unreadable line is an error. File modes convert to and from Git's values without loss.",
  ["inputs"], "all status lines, paths and modes",
  "Paths and status combinations are unbounded.",
  [L + "git/status.rs", L + "git/index.rs", RE], [("status parsing", L + "git/status.rs"), ("status reading", RE + " get_status"), ("file modes", L + "git/status.rs FileMode")],
  ["status entries"])
p("P44", "Fast tree operations give the same tree as the full operation",
  "Cherry-picking, amending and updating trees by touching only changed paths yields the same tree as doing it on the whole tree: additions, deletions, mode changes, nested directories and directories that become empty are all honoured, and paths not touched are kept. Conflicting content is reported as a conflict listing the conflicting paths and is never resolved silently.",
  ["inputs"], "all trees and all sets of changed paths",
  "Tree shapes are unbounded.",
  [L + "git/tree.rs", RE], [("tree update", L + "git/tree.rs hydrate_tree, dehydrate_tree, process_children"), ("changed paths", L + "git/tree.rs get_changed_paths_between_trees"), ("cherry-pick", RE + " cherry_pick_fast, amend_fast")],
  ["resulting tree"])
CF = L + "core/config.rs"
p("P45", "Settings are read under their documented names with documented defaults",
  "Each user setting (main branch, restack and switch behaviour, commit template and editor, undo snapshots, timestamp preservation, test jobs and strategy, hints, smartlog defaults) is read under its documented name and falls back to its documented default when unset. A main branch setting resolves to the local branch it names, hints can be disabled individually, and settings written by the tool are the ones it reads.",
  ["configurations"], "all combinations of set and unset settings",
  "Default/override combinations are exponential.",
  [CF, L + "git/config.rs"], [("configuration readers", CF + " get_*"), ("value conversion", L + "git/config.rs")],
  ["effective setting values"])
p("P46", "Shared resources and task results are handed out safely",
  "A pooled resource is used by at most one thread at a time and goes back to the pool when its user is done, even if that user fails, and a new one is created only if none is free. Caches shared between threads return what was stored for exactly that key.",
  ["schedules"], "all interleavings of concurrent users",
  "Interleavings cannot be enumerated by tests.",
  [L + "core/task.rs", L + "core/rewrite/plan.rs"], [("resource pool", L + "core/task.rs ResourcePool, ResourceHandle"), ("caches", "dashmap uses in plan.rs and repo.rs")],
  ["pool contents"])
p("P47", "Command-line options reach the operation they name",
  "Each subcommand runs its own operation, and each option given on the command line (in-memory/on-disk, force rewriting public commits, dumping plans, resolving conflicts, duplicate detection, timestamp and test options, hidden commits, dry run and the like) reaches that operation with its own meaning, neither swapped with another, inverted nor ignored.",
  ["inputs", "programs"], "all subcommands and option combinations",
  "Option combinations are exponential; most are never combined in tests.",
  ["git-branchless/src/commands/mod.rs", "git-branchless-opts/src/lib.rs"], [("dispatch", "git-branchless/src/commands/mod.rs command_main"), ("option plumbing", "commands' construction of build/execute options")],
  ["arguments passed from dispatch to operations"])
SM = "git-branchless-smartlog/src/lib.rs"
p("P48", "The smartlog shows every selected commit in its place",
  "The smartlog graph contains every selected commit, plus the checked-out commit and the main branch position unless exact output was asked for, each connected to its nearest shown ancestor with omitted commits marked as such, and each flagged correctly as main, obsolete or checked out. Every commit is shown once, children are ordered consistently, and roots are ordered from oldest to newest (or reversed on request).",
  ["inputs", "histories"], "all graphs, selections and options",
  "Graph shapes are unbounded.",
  [SM], [("graph construction", SM + " graph::make_smartlog_graph, walk_from_commits, sort_children"), ("rendering", SM + " render::*")],
  ["nodes and edges of the smartlog graph"])
p("P49", "Bug reports reveal repository content only with redaction",
  "A bug report replaces branch, reference and other names, commit messages and paths by redacted placeholders consistently, so that the same name always maps to the same placeholder and different names to different ones, while well-known names needed for diagnosis are kept. Every piece of user content written to the report passes through the redactor.",
  ["inputs", "histories"], "all repositories and histories",
  "Leaks need the particular event or descriptor kind that a test omits.",
  ["git-branchless/src/commands/bug_report.rs", L + "core/node_descriptors.rs"], [("redactor", L + "core/node_descriptors.rs Redactor"), ("report", "git-branchless/src/commands/bug_report.rs")],
  ["text of the bug report"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    print(len(P))
