"""Which functions decide which property.

ROOTS lists patterns over function paths (generic arguments removed): functions
every difference of which bears on the property.  SECONDARY lists functions in
which only some differences do, with the part that does: an effect, value or
condition the property speaks about.
"""
import re

EV = r"core::eventlog::"
RP = r"EventReplayer::"
DAG = r"branchless::core::dag::"
REF = r"branchless::git::reference::"
OID = r"branchless::git::oid::(?!.*(NameSet|VertexName))"
REPO = r"branchless::git::repo::"
RX = r"branchless::git::repo::Repo as branchless::core::repo_ext::RepoExt>::"
RW = r"branchless::core::rewrite::"
PLAN = RW + r"plan::"
EXE = RW + r"execute::"
MEM = EXE + r"in_memory::"
HOOKS = RW + r"rewrite_hooks::"
GB = r"git_branchless::commands::"
MAIN = GB + r"command_main$"
RUN = r"branchless::git::run::"
CFG = r"branchless::core::config::"
GCFG = r"(branchless::git::config::|git::config::GetConfigValue|git::config::Config)"
RS = r"git_branchless_revset::"
TEST = r"git_branchless_test::"
SUBMIT = r"git_branchless_submit::"
HOOK = r"git_branchless_hook::"
UNDO = r"git_branchless_undo::"
REWRITERS = [GB + r"(amend|restack|sync)::", r"git_branchless_move::", r"git_branchless_reword::reword$",
             r"git_branchless_record::(record|insert_before_siblings)$", TEST + r"(apply_fixes|subcommand_run)$"]
UTIL = r"branchless::util::"
CHECKOUT = r"branchless::core::check_out::"
SNAP = r"branchless::git::snapshot::"
COMMITOBJ = r"branchless::git::object::Commit::"
TREE = r"branchless::git::tree::"
INDEX = r"branchless::git::index::"
QUERY = DAG + r"(Dag::(query_(descendants|children|parent|heads|roots|range|gca|is_ancestor|only|ancestors|obsolete|draft|public|visible)|filter_visible|set_(contains|count|first|is_empty)|commit_set_to_vec|get_only_parent|is_public|sort$)|union_all|sorted_commit_set)"

ROOTS = {
    "P01": [EV + r"(Event as .*Row>>::try_from|Row as .*Event>>::try_from)", EV + r".*(Event as|Row as)", EV + r"EventLogDb::(add_events|get_events|new)",
            EV + r"(try_from_row_helper|init_tables)", EV + r"Event::", EV + r"EventTransactionId", r"(branchless::git::)oid::.*(MaybeZeroOid|NonZeroOid|Oid)(?!.*(NameSet|VertexName))",
            REF + r"ReferenceName", EV + RP + r"(from_event_log_db|process_event|fix_event)", REPO + r"Repo::get_db_conn"],
    "P02": [EV + r"EventLogDb::", EV + r"init_tables", EV + r"EventTransactionId", GB + r"wrap::make_event_tx_id", REPO + r"Repo::get_db_conn"],
    "P03": [EV + RP + r"(process_event|from_event_log_db|get_cursor_commit|get_cursor_oids|fix_event)", EV + r"should_ignore_ref_updates", EV + r"is_gc_ref",
            DAG + r"Dag::(query_obsolete_commits|set_cursor)"],
    "P04": [EV + RP, EV + r"should_ignore_ref_updates", EV + r"is_gc_ref", RX + r"(get_main|get_branch|get_ref)", EV + r"Event::get_event_tx_id"],
    "P05": [HOOK + r"reference_transaction::(parse_reference|fix_packed|ReferenceTarget)", EV + r"(is_gc_ref|should_ignore_ref_updates)", EV + RP + r"(process_event|from_event_log_db|fix_event)", HOOK + r"hook_reference_transaction"],
    "P06": [DAG + r"Dag::(query_(obsolete|public|draft|visible|heads_ancestors|ancestors|only)|filter_visible|is_public|open_|set_cursor|clear_obsolete|sync)", RX + r"get_(main_branch_oid|references|branch_oid)",
            EV + RP + r"(get_cursor_oids|get_cursor_commit|process_event)", REPO + r"Repo::(get_head_info|resolve_reference|get_all_local_branches)", DAG + r"GitParents", DAG + r"<impl .*(NameSet|VertexName)"],
    "P07": [r"branchless::core::gc::", REF + r"Reference::", EV + r"is_gc_ref", EV + RP + r"(get_cursor_commit|process_event)", REPO + r"Repo::get_all_references"],
    "P08": [r"branchless::core::gc::mark", REPO + r"Repo::create_reference"],
    "P09": [QUERY, PLAN + r"(RebasePlanPermissions|ConstraintGraph::check_permissions)", DAG + r"Dag::(is_public_commit|query_public_commits_slow)"],
    "P10": [QUERY, PLAN + r"(?!BuildRebasePlanError)", r"rewrite::plan::OidOrLabel", COMMITOBJ + r"get_(parent|only_parent)", REPO + r"Repo::get_patch_id"],
    "P11": [MEM, EXE + r"execute_rebase_plan", REPO + r"Repo::cherry_pick"],
    "P12": [MEM + r"rebase_in_memory", REPO + r"Repo::(cherry_pick|create_commit|dehydrate_commit|get_patch)", REPO + r"Signature::(update|get)",
            COMMITOBJ + r"(amend_commit|get_author|get_committer|get_message_raw|get_parent|get_tree|is_empty)",
            HOOKS + r"(hook_drop_commit_if_empty|hook_skip_upstream)", PLAN + r"(RebaseCommand|RebasePlanBuilder::(make_rebase_plan|replace))", CFG + r"get_restack_preserve_timestamps"],
    "P13": [REF + r"Reference::delete", REPO + r"Repo::(get_all_local_branches|resolve_reference)", EXE + r"move_branches", REF + r"(Branch::|Categorized)", RX + r"get_(main_branch$|branch_oid)", GB + r"restack::restack_branches",
            REPO + r"Repo::(create_reference|find_reference|create_branch|find_branch)", CFG + r"get_main_branch_name"],
    "P14": [HOOKS, MEM + r"post_rebase", HOOK + r"hook_post_commit_common", EV + r"EventLogDb::add_events", REPO + r"Repo::(is_rebase_underway|get_rebase_state_dir_path)", PLAN + r"RebaseCommand"],
    "P15": [EXE + r"(on_disk|execute_rebase_plan|check_out_updated_head)", HOOKS + r"(save|load|hook_post_rewrite)", REPO + r"Repo::(get_current_operation_type|is_rebase_underway|has_changed_files|get_rebase_state_dir_path|set_head|detach_head)",
            REPO + r"ResolvedReferenceInfo", PLAN + r"RebaseCommand"],
    "P16": [RX + r"get_branch_oid", PLAN + r"RebasePlanBuilder::move_subtree", QUERY, RW + r"evolve::", GB + r"restack::", HOOKS + r"warn_abandoned", EV + RP + r"(get_cursor_commit_latest)"],
    "P17": [REPO + r"Repo::get_head_info", CHECKOUT + r"check_out_commit", UNDO + r"(undo|inverse_event|undo_events|extract_checkout_target|select_past_event)$", EV + RP + r"(advance_cursor|get_events_since_cursor|make_.*cursor|get_event_before|get_tx_events)",
            REPO + r"Repo::(create_reference|find_reference|detach_head|set_head)", REF + r"Reference::delete"],
    "P18": [REPO + r"Repo::(get_head_info|create_reference|find_reference)", UNDO + r"(undo|undo_events|extract_checkout_target)$", REPO + r"Repo::detach_head", REF + r"Reference::delete"],
    "P19": [SNAP, INDEX, CHECKOUT + r"(create_snapshot|restore_snapshot)", r"branchless::git::status::", REPO + r"Repo::(get_status|create_blob|dehydrate_commit|get_index)", TREE + r"(hydrate|make_empty)", GB + r"snapshot::",
            COMMITOBJ + r"get_trailers", REPO + r"Signature::automated"],
    "P20": [REPO + r"(Repo::(get_head_info|find_reference|resolve_reference)|ResolvedReferenceInfo)", CHECKOUT, r"<branchless::core::check_out", SNAP + r"WorkingCopySnapshot::try_from", GB + r"snapshot::", EXE + r"check_out_updated_head", CFG + r"(get_auto_switch|get_undo_create)", REF + r"Categorized"],
    "P21": [RUN, CFG + r"env_vars::get", GB + r"wrap::", EV + r"EventLogDb::make_transaction_id", UTIL + r"get_(sh|from_path)", CFG + r"get_.*hooks_dir", INDEX + r"update_index", EV + r"EventTransactionId"],
    "P22": [RUN, UTIL, r"git_branchless_invoke::", GB + r"(main|wrap::.*)$"],
    "P23": [HOOK, HOOKS + r"hook_post_rewrite", EV + r"(should_ignore_ref_updates|is_gc_ref)", r"oid::MaybeZeroOid as .*FromStr", REPO + r"Repo::(is_rebase_underway|get_packed_refs_path)", REF + r"ReferenceName"],
    "P24": [r"git_branchless_init::", CFG + r"get_.*hooks_dir", GCFG + r".*(set|remove|open)", REPO + r"Repo::(get_config_path|get_branchless_dir|get_man_dir|open_worktree_parent|get_path$)"],
    "P25": [RS + r"(builtins|eval|pattern)::", RS + r".*builtins", DAG + r"(Dag::(query|sort|set_|commit_set|get_|filter)|sorted_commit_set|union_all)",
            COMMITOBJ + r"(get_author|get_committer|get_message|get_summary|get_parent|get_time|contains_touched)", REPO + r"(Repo::get_paths_touched|Time|Signature::get)", r"branchless::git::test::(get_test|make_test|get_latest)"],
    "P26": [RS + r"(parser|resolve|ast|eval|pattern)::", RS + r".*(parser|ast)", r"git_branchless_opts::Revset", REPO + r"Repo::revparse_single_commit"],
    "P27": [QUERY, r"git_branchless_navigation::(advance|traverse_commits|prompt)", r"navigation::prompt", CFG + r"get_next_interactive"],
    "P28": [TEST + r"(make_test_files|test_commit|run_test|shell_escape|resolve_test_command|subcommand_clean)", r"branchless::git::test::", r"git::test::Serialized", r"git::test::TestCommand", RS + r"builtins::(read_|eval_test|fn_tests)"],
    "P29": [TEST + r"(run_test|run_tests|make_test_files|prepare_working_directory|set_abort_trap|clear_abort_trap)$", r"branchless::git::test::get_test_(locks|worktrees)"],
    "P30": [TEST + r"(worker|event_loop|run_tests_inner|SearchGraph)", r"test::worker", r"test::SearchGraph"],
    "P31": [r"scm_bisect::", r"git_branchless_test::SearchGraph"],
    "P32": [TEST + r"apply_fixes"],
    "P33": [SUBMIT + r"(submit|select_forge)$", r"submit::branch_forge::.*::(create|update)", r"submit::github", r"submit::phabricator", RX + r"get_default_push_remote", REF + r"Branch::get_(push|upstream)"],
    "P34": [SUBMIT + r"submit$", r"submit::branch_forge::.*::query_status", r"submit::github.*query", r"submit::phabricator.*(query|get_revision)", REF + r"Branch::get_"],
    "P35": [],
    "P36": [EXE + r"move_branches", EV + RP + r"get_cursor_commit_activity", REPO + r"Repo::detach_head", QUERY, GB + r"hide::"],
    "P37": [EV + RP + r"get_references_snapshot", GB + r"repair::", EV + RP + r"get_cursor_oids"],
    "P38": [r"git_branchless_reword::", r"reword::dialoguer_edit", CFG + r"get_(comment_char|commit_template|editor)", REPO + r"message_prettify"],
    "P39": [r"git_branchless_record::", r"record::record_interactive", r"branchless::git::diff::", r"branchless::git::object::Blob", SNAP + r".*get_working_copy_changes_type"],
    "P40": [EXE + r"move_branches", REPO + r"Repo::(create_blob|get_head_info)", TREE + r"hydrate", PLAN + r"RebasePlanBuilder::(move_subtree|replace)", QUERY, GB + r"amend::", REPO + r"(Repo::amend_fast|AmendFastOptions)", COMMITOBJ + r"amend_commit", INDEX + r"Index::has_conflicts", r"branchless::git::status::(FileStatus::is_changed|StatusEntry::paths)"],
    "P41": [PLAN + r"RebasePlanBuilder::move_subtree", REPO + r"Repo::(find_branch|create_reference|get_all_local_branches)", QUERY, GB + r"sync::", RX + r"get_main_branch", REF + r"Branch::get_(upstream_branch$|oid)"],
    "P42": [QUERY, r"git_branchless_move::", PLAN + r"(RebasePlanBuilder::(move|fixup)|ConstraintGraph::(fixup|commits_to|add))", DAG + r"Dag::(get_connected|query_gca_one)"],
    "P43": [r"branchless::git::status::", INDEX, REPO + r"Repo::(get_status|get_staged_paths|has_changed_files|get_index)", TREE + r"TreeEntry::"],
    "P44": [TREE, REPO + r"Repo::(cherry_pick|amend_fast|dehydrate|get_paths_touched|write_index_to_tree|create_blob)", REPO + r"AmendFastOptions", COMMITOBJ + r"(contains_touched|is_empty)"],
    "P45": [CFG, GCFG, r"git_branchless_init::(set_configs|create_isolated|detect_main)", RX + r"get_(main_branch|default_push)", r"core::node_descriptors::\w+::(new|is_enabled)$", RS + r"resolve::resolve_default"],
    "P46": [r"branchless::core::task::", r"core::task::", RW + r"RepoResource", r"rewrite::RepoResource", REPO + r"Repo::try_clone", DAG + r"Dag::try_clone", PLAN + r"RebasePlanBuilder::(filter_path|get_upstream)"],
    "P47": [MAIN, r"git_branchless_\w+::command_main", r"git_branchless_opts::", r"git_branchless_invoke::", GB + r"wrap::wrap", TEST + r"ResolvedTestOptions", r"git_branchless_test::Verbosity"],
    "P48": [COMMITOBJ + r"get_time", RW + r"evolve::find_rewrite_target", QUERY, r"git_branchless_smartlog::", COMMITOBJ + r"(friendly|get_oid|get_short)", r"core::node_descriptors::(?!Redactor)", r"<branchless::core::node_descriptors", DAG + r"sorted_commit_set"],
    "P49": [r"commands::bug_report", r"core::node_descriptors::Redactor", r"<branchless::core::node_descriptors::(Branches|CommitMessage|Differential)", REF + r"Categorized"],
}
# Formatting of diagnostics only; never part of a contract.
NEVER = re.compile(r"core::fmt::(Debug)>::fmt$|core::effects::|core::formatting::|_for_testing$|STYLE_|MockGithubClient|MockState|LazyStatic>::initialize$|::CHECKMARK|install_libgit2_tracing|install_tracing")


def plain(p):
    return re.sub(r"::<[^<>]*>", "", p)


def _atoms(x):
    if isinstance(x, (list, tuple, set)):
        out = set()
        for y in x:
            out |= _atoms(y)
        return out
    if isinstance(x, dict):
        return _atoms([x.get("args"), x.get("guard")] if "guard" in x else [*x.keys(), *x.values()])
    return {str(x)}


def touches(d, rx):
    """Does the difference concern what rx names: its effect or argument, or a value or condition that changed?"""
    if rx.search(d["sink"] + " " + d.get("arg", "")):
        return True
    if d["kind"] == "error-handling":
        return False
    a, b = _atoms(d["want"]), _atoms(d["got"])
    return any(rx.search(x) for x in (a ^ b or a))


def about(text):
    rx = re.compile(text)
    return lambda d: d["kind"] == "missing-function" or touches(d, rx)


def _errors(d):
    """Differences that bear on failing: error handling, and which results are returned when."""
    return d["kind"] in ("error-handling", "missing-function") or d["sink"].startswith(("return", "raise", "call process::exit", "call GitRunInfo"))


def _handling(d):
    return d["kind"] in ("error-handling", "missing-function")


WRITES = (r"create_reference|set_head|detach_head|Reference::delete|Branch::(delete|rename)|create_branch|add_events|GitRunInfo::run|check_out_commit|move_branches|execute_rebase_plan|"
          r"fs::|File|\bopen\b|update_index|restore_snapshot|create_snapshot|apply_fixes|Forge::(create|update)|create_commit|Config.*(set|remove)|dry_run")
COMMANDS = [r"git_branchless_(hook|init|invoke|move|navigation|query|record|reword|smartlog|submit|test|undo)::", GB, r"as git_branchless_submit::Forge>::"]
PERMIT = r"verify_rewrite_set|Permissions|force_rewrite|public|BuildRebasePlanOptions|RebasePlanBuilder::(build|new)|execute_rebase_plan|amend_commit|move_branches"
RESOLVE = r"resolve_commits|check_revset_syntax|ResolveError|Revset|resolve_default"
TX = r"EventTransactionId|make_transaction_id|event_tx_id|TRANSACTION"
PLANOPTS = r"(Build|Execute)RebasePlanOptions|MoveOptions|CheckOutCommitOptions|ResolveRevsetOptions|RawTestOptions|ResolvedTestOptions|SubmitOptions|TraverseCommitsOptions|force_|dry_run|hidden|preserve_timestamps"
SECONDARY = {
    "P02": [([RUN + r"GitRunInfo::", GB + r"wrap::"], about(TX + r"|env"))],
    "P05": [([HOOK + r"hook_post_checkout", EV + RP + r"get_references_snapshot"], about(r"ref_name|HEAD|should_ignore|is_gc_ref"))],
    "P07": [([MAIN, HOOK + r"command_main"], about(r"\bgc\b")), ([REPO + r"Repo::(find_commit|reference_name_to_oid)"], None)],
    "P08": [([MEM, EXE + r"(execute_rebase_plan|move_branches)", HOOK + r"hook_post", r"git_branchless_smartlog::graph", GB + r"amend::", HOOKS + r"hook_post_rewrite"],
             about(r"mark_commit_reachable|add_events|move_branches|set_head|check_out|states|Dag::(head_commit|main_branch)|union"))],
    "P09": [(REWRITERS, about(PERMIT)), ([MAIN, r"git_branchless_\w+::command_main"], about(r"force_rewrite")), ([PLAN + r"RebasePlanBuilder::(build|new)"], about(r"permission|Permission|public|raise|return"))],
    "P11": [(REWRITERS + [r"git_branchless_record::"], about(r"execute_rebase_plan|FailedMergeInfo|Declined|force_in_memory|force_on_disk|resolve_merge|ExecuteRebasePlanOptions|MergeConflict")),
            ([EXE + r"(check_out_updated_head|move_branches|on_disk)"], about(WRITES))],
    "P12": [([GB + r"amend::", TEST + r"apply_fixes", r"git_branchless_reword::reword$"], about(r"amend_commit|create_commit|Signature|timestamp|replace_commit|message")),
            ([EXE + r"on_disk::write_rebase_state"], about(r"timestamp|preserve|cdate|date")), ([EXE + r"on_disk"], about(r"preserve|committer|date"))],
    "P13": [([MEM + r"post_rebase", HOOKS + r"hook_post_rewrite", GB + r"amend::", EXE + r"execute_rebase_plan"], about(r"move_branches|rewritten|update-ref|HashMap<NonZeroOid, MaybeZeroOid>"))],
    "P14": [([MEM + r"rebase_in_memory", EXE + r"on_disk"], about(r"rewritten|run_hook|add_events|return|HashMap|states|deferred|fs::|File")), ([HOOK + r"command_main"], about(r"post_rewrite|hook_|rewrit")),
            ([GB + r"amend::"], about(r"add_events|RewriteEvent"))],
    "P15": [([HOOK + r"command_main"], about(r"register|skip|drop|rewrite")), ([MEM + r"post_rebase"], about(r"check_out|set_head|detach"))],
    "P16": [([MAIN], about(r"restack")), ([EXE + r"move_branches"], None)],
    "P17": [([MAIN], about(r"undo"))],
    "P18": [([MAIN], about(r"undo")), ([UNDO + r"(inverse_event|select_past_event)$"], about(r"return|raise"))],
    "P20": [([r"git_branchless_navigation::(switch|traverse_commits)", UNDO + r"undo_events", r"git_branchless_record::record$", MEM + r"post_rebase", GB + r"amend::", EXE + r"execute_rebase_plan"],
             about(r"check_out|CheckoutTarget|create_snapshot|CheckOutCommitOptions")), ([INDEX + r"update_index"], None)],
    "P21": [(COMMANDS + [EXE, CHECKOUT, REPO + r"Repo::(has_changed_files|get_status)", HOOKS], about(TX + r"|GitRunInfo::run.*(EventTransactionId|working_directory)"))],
    "P22": [(COMMANDS + [EXE, CHECKOUT], _errors), ([RW, SNAP, INDEX, r"branchless::git::repo", HOOKS], _handling)],
    "P25": [([RX + r"get_(main_branch_oid|references)"], None)],
    "P26": [([GB + r"(hide|restack|sync)::(hide|unhide|restack|sync|execute_sync_plans)$", r"git_branchless_(move|query|record|reword|smartlog|submit|test|navigation)::(r#move|query|reword|smartlog|submit|subcommand_\w+|switch|command_main)$"],
             about(RESOLVE))],
    "P27": [([MAIN], about(r"traverse_commits|next|prev|switch")), ([r"git_branchless_navigation::switch"], about(r"check_out|prompt|return|raise"))],
    "P28": [([TEST + r"(event_loop|run_tests_inner|subcommand_run|print_summary)"], about(r"TestStatus|Passed|Failed|Abort|Indeterminate|exit_code|ExitCode")), ([TEST + r"ResolvedTestOptions"], about(r"cache|command|interactive"))],
    "P29": [([TEST + r"(subcommand_run|event_loop|run_tests_inner|test_commit|command_main)$"], about(r"lock|Lock|abort|has_changed|working|Worktree|WorkingCopy|GitRunInfo::run|add_events|trap|check_out|Strategy|num_jobs")),
            ([TEST + r"ResolvedTestOptions"], about(r"strategy|Strategy|jobs|working|Worktree")), ([EV + r"EventLogDb::add_events"], about(r"."))],
    "P30": [([TEST + r"(run_tests|run_test|subcommand_run|print_summary)$"], about(r"test_outputs|results|HashMap|IndexMap|Vec|run_tests_inner|TestOutput|NonZeroOid|sorted"))],
    "P31": [([TEST + r"(event_loop|run_tests_inner|run_tests|print_summary|subcommand_run)$"], about(r"bisect|[Ss]earch|notify|Bounds|bounds|Strategy"))],
    "P32": [([TEST + r"(test_commit|make_test_files)$"], about(r"FixInfo|fix_info|snapshot|tree|Passed")), ([TEST + r"(run_tests|subcommand_run|event_loop|run_tests_inner|print_summary|command_main)$"], about(r"apply_fixes|[Ff]ix|dry_run|Permissions|verify_rewrite")),
            ([TEST + r"ResolvedTestOptions"], about(r"[Ff]ix|dry")), ([PLAN + r"RebasePlanBuilder::replace_commit"], None), ([REPO + r"Repo::create_commit"], None)],
    "P33": [([SUBMIT + r"command_main"], about(r"submit|dry|create|draft|Options")), ([MAIN], about(r"submit")), ([r"submit::branch_forge::.*query_status"], about(r"GitRunInfo::run|fetch|main"))],
    "P34": [([SUBMIT + r"command_main"], about(r"submit")), ([r"submit::(branch_forge|github|phabricator).*::(create|update)"], about(r"return|LocalStatus|Status|HashMap"))],
    "P35": [([r"git_branchless_smartlog::", r"git_branchless_query::", r"commands::bug_report", GB + r"repair::", SUBMIT + r"(submit|command_main)$", r"branch_forge::", TEST + r"(subcommand_\w+|command_main|apply_fixes|run_tests|run_tests_inner)$"], about(WRITES))],
    "P36": [([MAIN], about(r"hide"))],
    "P37": [([MAIN], about(r"repair")), ([REPO + r"Repo::(find_commit|find_reference)$"], None)],
    "P38": [([MAIN], about(r"reword")), ([PLAN + r"RebasePlanBuilder::replace_commit", COMMITOBJ + r"(amend_commit|get_message)"], None)],
    "P39": [([MAIN], about(r"record")), ([r"git_branchless_reword::edit_message"], None), ([INDEX + r"update_index"], None)],
    "P40": [([MAIN], about(r"amend")), ([REPO + r"Repo::(get_status|get_index)"], None)],
    "P41": [([MAIN], about(r"sync"))],
    "P42": [([MAIN], about(r"r?#?move"))],
    "P45": [([TEST + r"(ResolvedTestOptions|resolve_test_command)"], about(r"onfig|branchless|get_or|default|jobs|strategy|str")), ([r"git_branchless_smartlog::smartlog"], about(r"default|config|revset")),
            ([r"git_branchless_reword::(edit_message|reword)$"], about(r"config|get_(editor|comment|commit_template)|preserve"))],
    "P46": [([TEST + r"(worker|run_tests_inner)", r"test::worker"], about(r"lock|Mutex|Condvar|pool|Queue|recv|send|spawn|join")), ([GB + r"sync::execute_sync_plans"], about(r"pool"))],
    "P47": [([r"git_branchless_(move|reword|record|navigation|query|smartlog|submit|undo)::", TEST + r"subcommand", GB + r"(restack|sync|hide|repair|amend|snapshot)::"], about(PLANOPTS))],
    "P48": [([MAIN], about(r"smartlog")), ([RX + r"get_references_snapshot", REPO + r"Repo::get_head_info"], None)],
    "P49": [([UNDO + r"describe_event$"], about(r"[Rr]edact"))],
}
FLOOR = {}


def roots_of(pid, names):
    """{function: None or a filter on its differences}"""
    out = {}
    res = [re.compile(x) for x in ROOTS[pid]]
    sec = [([re.compile(x) for x in pats], keep) for pats, keep in SECONDARY.get(pid, ())]
    for p in sorted(names):
        if NEVER.search(p):
            continue
        q = plain(p)
        if any(r.search(q) for r in res):
            out[p] = None
            continue
        keeps = [keep for pats, keep in sec if any(r.search(q) for r in pats)]
        if keeps:
            out[p] = None if None in keeps else (lambda d, ks=tuple(keeps): any(k(d) for k in ks))
    return out


if __name__ == "__main__":
    import contracts
    g = contracts.load_contracts()
    used = set()
    for pid in sorted(ROOTS):
        rs = roots_of(pid, g)
        used |= set(rs)
        pats = ROOTS[pid] + [x for ps, _ in SECONDARY.get(pid, ()) for x in ps]
        dead = [x for x in pats if not any(re.search(x, plain(p)) for p in g)]
        print(pid, len(rs), sum(1 for k in rs.values() if k is None), "DEAD" if dead else "", dead)
    left = sorted(p for p in g if p not in used and not NEVER.search(p))
    print(len(used), "used;", len(left), "unused")
    for p in left:
        print("  ", p)
