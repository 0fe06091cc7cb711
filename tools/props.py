"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = "capture/noworkflow/now/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), technique=None, level="exploration", note=None, hook=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  over=over, text=" ".join(text.split()), why=" ".join(why.split()),
                  files=[os.path.normpath(N + f) for f in files],
                  mech=[dict(name=a, where=os.path.normpath(N + b)) for a, b in mech],
                  observe=list(observe), state=[dict(name=a, meaning=b, where=N + c) for a, b, c in state],
                  technique=technique, level=level, note=note, hook=hook))


CP = "collection/prov_execution/"
CD = "collection/prov_definition/"
PC = "persistence/content/"
PM = "persistence/models/"
PL = "persistence/lightweight/"

prop("C01", "Capturing does not change what the script does",
     """Running a script with provenance capture has the same observable effects as running it with plain Python: the
     same standard output, the same standard error written by the script, the same files written, the same standard
     input consumed and the same exception ending the run. This holds whatever the capture depth, the definition and
     execution contexts, the content engine and the save options.""",
     ["programs", "inputs", "configurations"],
     "every Python script built from the statements and expressions the capture instruments, with any arguments and standard input, under any depth/context/engine/save options",
     """tests run a few dozen snippets through the collector and look at the provenance, hardly ever at the output, and
     each construct alone; nesting, control flow out of nested constructs, generators, exceptions in the middle of an
     expression and option combinations are not reached""",
     [CP + "collector.py", CP + "execution.py", CD + "transformer_stmt.py", CD + "transformer_expr.py", CP + "structures.py", "cmd/cmd_run.py"],
     [("AST rewriting that wraps every expression and statement", CD + "transformer_stmt.py"), ("wrappers evaluated at run time", CP + "collector.py")],
     ["stdout, stderr and files of `now run` against `python`"],
     technique="differential runtime monitoring of generated programs against the plain interpreter")

prop("C02", "Recorded activations are exactly the calls that ran",
     """Every call of a function defined in a captured script, and every call the captured code makes, is recorded
     exactly once as an activation, with the name of what was called, under the activation that really made the call, and
     in the order the calls started; nothing that did not run is recorded. Each activation's interval lies within its
     caller's, and only the main script has no caller.""",
     ["programs", "inputs", "histories"],
     "every call history a captured script can produce: nested, recursive, repeated in loops, through callbacks, decorators, methods and generators, left by return or by exception",
     """tests check the activations of single small snippets; agreement with the real call tree must hold for every
     interleaving of calls, returns, exceptions and generator switches""",
     [CP + "collector.py", PL + "activation.py", PM + "activation.py"],
     [("start/close of activations around calls and definitions", CP + "collector.py")],
     ["activation and evaluation tables", "now show -a"],
     technique="trace-specification monitor: recorded call tree vs an independent call trace of the same run")

prop("C03", "Recorded values are the values the program computed",
     """For every variable assignment, parameter, returned value and captured expression, the recorded sequence of values is
     exactly the sequence of values the program computed there, in order and with one record per evaluation. Each record is attached to the
     activation in which the evaluation really happened.""",
     ["programs", "inputs"],
     "every captured script and input; every evaluation of every captured name, including shadowed, reassigned, loop, comprehension, unpacked, augmented and nested-function variables",
     """tests sample values of single assignments; repetition (loops, recursion, generators), multiple targets and
     mixtures of scopes are not covered""",
     [CP + "collector.py", CD + "transformer_stmt.py", CD + "transformer_expr.py", PL + "evaluation.py"],
     [("evaluation records created by the collector", CP + "collector.py")],
     ["evaluation x code_component tables"],
     technique="differential trace monitor: recorded values vs an independently instrumented run")

prop("C04", "Recorded dependencies capture the real data flow",
     """When a value was computed from another recorded value (through assignments, operators, calls and their arguments, returns,
     subscripts, attributes, collections, loops or comprehensions), the recorded dependencies connect the result to that source. Values that were
     computed independently, in straight-line arithmetic code and calls to captured functions that do not touch them, are not connected.""",
     ["programs", "inputs"],
     "every captured script: all chains of assignments, calls and containers, any repetition and scope nesting",
     """tests compare the direct dependencies of small snippets with a fixed expected list; soundness of the transitive
     relation over arbitrary programs is a statement about all of them""",
     [CP + "collector.py", CP + "structures.py", CD + "transformer_expr.py", CD + "transformer_stmt.py", PL + "dependency.py"],
     [("dependency-aware stacks propagated by the wrappers", CP + "collector.py")],
     ["dependency table reachability"],
     technique="taint-oracle monitoring: recorded reachability vs dynamic data flow of generated programs")

prop("C05", "Stored provenance is referentially and temporally consistent",
     """In the stored provenance every reference made by a record (activation, caller, evaluation, code component, code block,
     container member, dependency, file access, module, argument, tag) resolves to an existing record of the same trial, identifiers are
     unique within a trial, and record order agrees with time: nothing depends on a record made later unless it is a loop or mutation, and a
     called activation starts and ends within its caller.""",
     ["programs", "histories", "configurations"],
     "every trial stored by any sequence of runs with any options, including failed runs",
     """tests look at in-memory stores of single snippets, not at the database produced by complete runs with periodic
     saving, several trials and failures""",
     ["persistence/lightweight/base.py", CP + "collector.py", "collection/metadata.py", PM + "trial.py"],
     [("object stores with periodic save", "persistence/lightweight/base.py")],
     ["raw SQLite rows of every table"],
     technique="offline invariant monitor over the recorded database after every run")

prop("C06", "File accesses are recorded faithfully",
     """Every file the captured script opens with the built-in open is recorded once, in order, with its name, its mode, the activation
     that opened it, and the digests of its content before the access and after it (at the end of the activation in which it was closed). The content under each recorded digest can be
     retrieved later byte for byte, however the file was changed or removed afterwards, and a file that did not exist has no digest before.""",
     ["programs", "inputs", "histories", "configurations"],
     "every sequence of opens, reads, writes, appends and closes of text and binary files, in nested activations and loops, with any working directory and content engine",
     """tests check a couple of open calls with fixed content; modes, repeated access to one file, file handles outliving a
     function and changes of directory are not reached""",
     [CP + "collector.py", PL + "file_access.py", PM + "file_access.py", PC + "safeopen.py"],
     [("wrapped open and close-time hashing", CP + "collector.py")],
     ["file_access table and the content store"],
     technique="trace monitor: recorded accesses and contents vs an independent log of the same I/O")

prop("C07", "Stored content always reads back unchanged",
     """Whatever bytes are stored in the content database, the identifier returned reads back exactly those bytes, in the same process or a later one,
     for every content engine; equal content gets an equal identifier and different content a different one. Storing or collecting garbage never
     makes previously stored content that a trial references unreadable, and the listing and abbreviated lookup agree with what is stored.""",
     ["inputs", "histories", "schedules", "configurations"],
     "all byte strings (empty, binary, large, repeated), all orders of store/read/list/collect operations, all engines, concurrent writers",
     "tests store one or two short strings sequentially, some engines only when their library is present",
     [PC + "plain_engine.py", PC + "gitbase.py", PC + "pygit_engine.py", PC + "dulwich_engine.py", PC + "puregit_engine.py", PC + "git_system.py", PC + "gitdb_engine.py", PC + "parallel.py", PC + "base.py", "persistence/content_database.py"],
     [("content-addressed engines", PC + "base.py"), ("worker pools", PC + "parallel.py")],
     ["put/get/listall/find_subhash/gc of each engine; git's own view of the object store"],
     technique="model-based history monitor (map oracle) over every engine with concurrent and multi-process workloads")

prop("C08", "Interrupted or failing runs never damage stored provenance",
     """If a run is killed at any moment, or storing its provenance fails midway, the trials already stored stay complete and
     unchanged, the store stays readable by every command, and a new run succeeds. What was stored of the interrupted trial is marked as not finished, and
     any content it names is readable or absent, never truncated or corrupt.""",
     ["crash_points", "fault_sequences", "histories"],
     "every point at which the process can be killed between the start of a run and its end, in particular around each database transaction and each content write",
     "no test kills a run or injects a write failure",
     ["persistence/relational_database.py", "persistence/lightweight/base.py", "collection/metadata.py", CP + "execution.py", PC + "plain_engine.py", "cmd/cmd_run.py"],
     [("one transaction per store and periodic partial saves", "collection/metadata.py"), ("create-then-finish of trials", PM + "trial.py")],
     ["store after SIGKILL at enumerated database/content operations"],
     technique="fault-injection monitoring: kill/IO-error at each enumerated persistence step, then invariant monitors", level="fault_enumeration")

prop("C09", "Restoring a trial brings its files back exactly",
     """Restoring a trial gives back the script, the local modules and, as asked, the files it read, byte for byte as they were when that trial ran,
     whatever happened in the working directory since; restoring one file gives back the requested version of it. Options that
     exclude the script, the modules or the inputs leave those files alone, and nothing unrelated is changed.""",
     ["histories", "inputs", "configurations"],
     "every history of runs, edits, deletions and restores, with any file contents and every combination of restore options",
     "tests only cover path normalisation of restore",
     ["cmd/cmd_restore.py", PM + "trial.py", PM + "head.py", "persistence/content_database.py"],
     [("restore from content digests", "cmd/cmd_restore.py")],
     ["working directory after `now restore`"],
     technique="model-based history monitor: working directory vs a version model over random histories")

prop("C10", "Restore and run never lose work that was not recorded",
     """When restoring would overwrite or discard a script or module content that differs from what is recorded for the current trial, a backup trial holding
     that content is recorded first, so that restoring the backup brings it back; when no script, module or accessed file among those to restore differs from the state recorded for the current trial (and nothing else is overwritten) no backup is made. Removing files as part of a
     restore only ever removes content that remains retrievable.""",
     ["histories", "inputs"],
     "every history of edits, runs and restores over scripts and local modules",
     "no test runs restore on a changed working directory",
     ["cmd/cmd_restore.py", PM + "trial.py", PM + "head.py"],
     [("backup trial before restore", "cmd/cmd_restore.py")],
     ["content store and trials after restore; files before vs after"],
     technique="history monitor over random edit/run/restore sequences: every byte string ever present remains retrievable")

prop("C11", "Trial numbering and lineage follow the history of runs",
     """Trials get strictly increasing sequence numbers, each run's parent is the trial the working directory was at (the last run, or the trial last restored, of that script),
     and the automatic version tag follows from what changed: the code and command line of an earlier trial give its highest version plus one in the last part, the code of an earlier trial with another command line
     one in the middle part, and code that no earlier trial had (or a backup) a new first part, restarting the lower parts. No two trials share the same version.""",
     ["histories"],
     "every sequence of runs and restores over edited scripts, changed arguments and several scripts in one directory",
     "tests create trials directly in the database with fixed tags; histories of real runs and restores are not executed",
     [PM + "tag.py", PM + "trial.py", PM + "head.py", PM + "../lightweight/trial.py", "cmd/cmd_run.py", "collection/metadata.py"],
     [("automatic tags and heads", PM + "tag.py")],
     ["trial, tag and head tables"],
     technique="model-based history monitor: reference version model stepped along random histories")

prop("C12", "Each trial records how the run really went",
     """A trial is marked finished exactly when the script ran to its end or left with a successful exit, and unfinished when it ended with an uncaught exception or a failing exit; in every case
     it records the script and its content, the command line and arguments in effect, the working path, and a start not later than its finish. The command terminates normally and leaves no
     trial marked as still running. (Runs whose process is killed or leaves with os._exit belong to C08; scripts that install trace functions or replace the internals of noWorkflow are outside.)""",
     ["programs", "configurations", "fault_sequences"],
     "every way a script can end (fall through, sys.exit with any argument, uncaught exceptions of any type at any depth, syntax errors, failing imports), with any options and engine",
     "no test runs the command to completion on failing scripts",
     ["cmd/cmd_run.py", CP + "execution.py", "collection/metadata.py", PM + "trial.py"],
     [("finish of execution collection", CP + "execution.py")],
     ["trial table after real `now run`"],
     technique="runtime monitor over enumerated ways of ending a run x options")

prop("C13", "Sharing provenance is lossless and idempotent",
     """Trials pushed to, pulled from or bundled for another repository arrive with the same provenance and the same retrievable content as in the source, the source is unchanged, and
     trials already there stay as they were. Repeating the transfer changes nothing and never duplicates a record, and a transfer that was
     interrupted is completed by repeating it. (The experiment and the sequence number of a trial belong to each repository.)""",
     ["histories", "inputs", "configurations"],
     "every set of trials on either side, any order and repetition of transfers and any recorded data",
     "there is no test of the transfer of trials",
     ["utils/collab.py", PL + "bundle.py", "cmd/cmd_push.py", "cmd/cmd_pull.py", "cmd/cmd_import.py", "cmd/cmd_export.py", "vis/views.py"],
     [("bundle export/import", "utils/collab.py")],
     ["row-by-row comparison of both databases and content"],
     technique="round-trip monitor: row multiset and content comparison across random transfer histories")

prop("C14", "Exported Prolog facts state exactly what is stored",
     """The exported facts contain exactly one fact per stored record of the exported trial with the stored values in the documented argument order; every line is syntactically valid
     Prolog whatever characters names, values and file contents contain; and decoding the facts gives back the stored values (text that
     already is a quoted Python string is written without its outer quotes; modules bypassed with -b are those of the trial they come from).""",
     ["inputs", "programs"],
     "every stored trial, including names and values with quotes, backslashes, newlines and non-ASCII text",
     "tests compare facts of a few hand-built records with plain ASCII values",
     ["models/trial_prolog.py", "utils/prolog.py", PM + "activation.py", PM + "evaluation.py", "cmd/cmd_export.py"],
     [("fact formatting", "utils/prolog.py")],
     ["`now export` output parsed by an independent reader vs raw rows"],
     technique="offline monitor: independent Prolog term reader over exported facts vs raw database rows")

prop("C15", "Diffs report exactly what differs between two trials",
     """Comparing two trials lists an attribute, module, environment attribute or file access as added, removed or replaced if and only if the stored records of the two trials really differ in that way; what
     is equal in both is not listed. Comparing a trial with itself reports no difference, and swapping the two trials swaps added and removed.""",
     ["inputs", "histories"],
     "every pair of stored trials with overlapping, disjoint and duplicate modules, environments and file accesses",
     "tests use one hand-made pair of trials",
     ["models/diff.py", "cmd/cmd_diff.py", PM + "trial.py", "models/graphs/diff_graph.py", "utils/data.py"],
     [("set-based diff of records", "models/diff.py")],
     ["`now diff` output and API results"],
     technique="oracle monitor: recomputed multiset differences from raw rows over mutated trial pairs")

prop("C16", "Activation graphs account for every activation",
     """In each summarised activation graph every activation of the trial is represented exactly once, in a node with its name under the node of its caller, and the duration of a node is the sum of the durations of its activations.
     Activations are joined exactly when the mode says so (never; equal lines, names and sub-calls; equal line and name), and the call, sequence and return edges with their counts are those of the calls.
     A graph answered from the cache is the same as one computed afresh, and the graph that compares two trials keeps every node and edge of both.""",
     ["programs", "histories"],
     "every call tree of a finished or unfinished trial, each summarisation mode, cached or not",
     "tests compare a few hand-built call trees with fixed expected graphs",
     ["models/graphs/trial_graph.py", "models/graphs/structures.py", "models/graphs/diff_graph.py", PM + "graph_cache.py"],
     [("summarisation of activation trees", "models/graphs/trial_graph.py")],
     ["graph JSON of each mode vs raw activations"],
     technique="conservation monitor over graphs of random call trees, cached and fresh")

prop("C17", "Dataflow graphs show exactly the recorded derivations",
     """The dataflow graph of a trial connects two shown nodes only if the recorded dependencies connect them, and whenever recorded dependencies connect
     two shown values, a path connects them in the graph. Filters and grouping options drop or merge nodes but never invent a derivation or lose one between what they keep.""",
     ["programs", "configurations"],
     "every recorded trial, every combination of the graph mode, grouping, accesses and evaluation options",
     "tests compare dot output for fixed snippets",
     ["models/dependency_graph/clusterizer.py", "models/dependency_graph/filters.py", "models/dependency_graph/synonymers.py", "models/dependency_graph/dot_visitor.py", "cmd/cmd_dataflow.py"],
     [("clustering and filtering of dependencies", "models/dependency_graph/clusterizer.py")],
     ["DOT output of `now dataflow` vs dependency table"],
     technique="oracle monitor: reachability in the produced DOT vs reachability in raw dependency rows")

prop("C18", "Recorded code structure matches the source",
     """Every recorded code component carries the position and the text it really has in the script, lies inside its recorded container, and every function, class, parameter, assignment, call and control structure of
     the script is recorded once with its type. The source stored for a script, function or class is its exact text and the code regenerated from the records is equivalent to the original.""",
     ["programs"],
     "every script text: any layout, nesting, decorators, multi-line expressions, comments, strings with line breaks and non-ASCII text",
     "tests check the definitions of snippets in a fixed layout",
     [CD + "definition.py", CD + "ast_helpers.py", CD + "transformer_stmt.py", CD + "transformer_expr.py", "models/ast/trial_ast.py"],
     [("code components created while rewriting", CD + "definition.py")],
     ["code_component and code_block tables vs ast/tokenize of the source"],
     technique="oracle monitor: recorded positions/texts vs an independent ast + source extraction")

prop("C19", "Saving strategy does not change what is recorded",
     """The provenance stored at the end of a run does not depend on how often and when it was saved while running: with periodic saving (-s) of any period or saving only at the end, the same records with the same relations are stored,
     each exactly once.""",
     ["programs", "schedules", "configurations"],
     "every captured program and every schedule of partial saves during it",
     "no test executes a run with periodic saving",
     ["persistence/lightweight/base.py", "collection/metadata.py", CP + "collector.py", "cmd/cmd_run.py"],
     [("partial save of completed objects", "persistence/lightweight/base.py")],
     ["database rows of the same program under different save schedules"],
     technique="metamorphic monitor: injected save schedules vs save-at-end, row-level comparison")

prop("C20", "Modules, environment and arguments in effect are recorded",
     """Each trial records once every execution of a module loaded from a file by the run (modules that noWorkflow had already loaded are not loaded again), with its declared
     version and the content that was executed retrievable, the environment variables and platform facts in effect, and the value of every option, whatever characters they have
     and whatever the name of the project directory. Imports that fail are not recorded. Bypassing modules changes only which modules are recorded: such a trial has the modules of the last trial that did not bypass them.""",
     ["programs", "configurations", "histories"],
     "every import structure (packages, relative imports, repeated, conditional, failing), environment and command line",
     "tests do not run the module collection on real import structures",
     ["collection/prov_deployment/deployment.py", "collection/prov_deployment/py3module.py", "collection/metadata.py", PL + "module.py"],
     [("import hooks", "collection/prov_deployment/py3module.py")],
     ["module, environment_attr and argument tables, content store"],
     technique="trace monitor: recorded modules/environment/arguments vs sys.modules and os.environ observed in the run")

prop("C21", "Depth and context limits bound capture, not correctness",
     """With a depth limit exactly the calls made by activations above the limit are recorded, without what happens inside the calls at the limit; with the contexts main, package and all
     the script alone, also the imported files inside the directory of the trial, or every imported file are captured. What is recorded within the limits
     (calls, values and the dependencies that do not pass through what is cut) is the same as without them, the script behaves the same, and code captured as an imported module leaves the same records as when it is the script.""",
     ["programs", "configurations"],
     "every call tree and import structure, each depth and each combination of contexts",
     "tests never vary depth or contexts on real runs",
     ["cmd/cmd_run.py", CP + "collector.py", "collection/prov_deployment/py3module.py", "collection/metadata.py"],
     [("depth and context tests in the collector and the finder", CP + "collector.py")],
     ["activations per depth and per file"],
     technique="metamorphic monitor: limited capture vs projection of the full capture")

prop("C22", "History views list exactly the stored trials",
     """Listing and history views show every stored trial that matches the filters exactly once, with its own data, in order, and connect trials exactly by their recorded parents.
     Trials added, changed or removed since an earlier view are reflected in the next one.""",
     ["histories", "configurations"],
     "every set of trials from runs, restores and imports, all filters and summaries",
     "tests use fixed sets of trials and a fresh cache",
     ["models/history.py", "models/graphs/history_graph.py", "cmd/cmd_list.py", "cmd/cmd_history.py", "cmd/cmd_show.py"],
     [("history graph and its cache", "models/graphs/history_graph.py")],
     ["history JSON/text vs trial rows"],
     technique="oracle monitor over random trial histories: view vs raw rows")

prop("C23", "Provenance queries answer from the recorded facts",
     """Looking up evaluations by line, column, name, value, type or position returns exactly the recorded evaluations satisfying the filter, in
     order, and asking what a value was derived from returns exactly what is reachable through the recorded dependencies. Rephrasing a query (negation, composition, reversed direction) never yields a contradictory answer.""",
     ["inputs", "programs"],
     "every stored trial and every combination of query filters",
     "tests query a fixed trial with a handful of filters",
     ["cmd/cmd_evaluation.py", "models/dependency_querier/querier.py", "models/dependency_querier/node_context.py", "models/dependency_querier/querier_options.py", "patterns/machinery.py"],
     [("query filters", "cmd/cmd_evaluation.py")],
     ["query results vs SQL over raw rows"],
     technique="oracle monitor: query answers vs independent evaluation over raw rows")

prop("C24", "The web interface reports the stored provenance",
     """Each view of the web interface answers with the stored data of the trial asked for, for every stored trial, and a request changes nothing in the store beyond what it is meant to change.""",
     ["inputs", "histories"],
     "every stored trial and every documented route and option",
     "tests do not request the web interface",
     ["vis/views.py"], [("REST routes", "vis/views.py")],
     ["HTTP answers vs raw rows"],
     technique="oracle monitor: responses of every route vs raw rows")

prop("C25", "Container contents are recorded as they were",
     """For every list, tuple, dictionary and set built or changed by captured code, the recorded members are the ones it had: each literal's elements under their keys, and each later item assignment as a change at that
     key, linked to the value put there. Reading an item links the value read to the member it came from.""",
     ["programs", "inputs"],
     "every sequence of container constructions, item assignments and reads through any aliases",
     "tests check single literals and single item assignments",
     [CP + "collector.py", PL + "member.py", PL + "composition.py"],
     [("members and compositions", CP + "collector.py")],
     ["member table vs the real containers"],
     technique="trace monitor: recorded members vs an independent log of container operations")

prop("C26", "PROV export describes the stored trial",
     """The PROV document exported for a trial is well formed and contains one entity, activity or relation for each exported record of the trial with its stored values; every relation refers to elements that the document declares.""",
     ["programs", "inputs"],
     "every stored trial and every option of the export",
     "tests do not validate exported documents",
     ["models/prov/export.py", "cmd/cmd_prov.py"], [("document construction", "models/prov/export.py")],
     ["exported document vs raw rows"],
     technique="offline monitor: parsed document vs raw rows")

prop("C27", "Notebook and history merging keeps every cell in order",
     """Merging a history of cells with a previous notebook keeps every cell of the history, every cell of the previous notebook that is not code and, if asked, its code cells that the history
     does not have, exactly once, unchanged and in an order consistent with both, for a longest common subsequence of their code cells. The notebook that cleaning
     creates has executed cells once each, in order of execution, with their code and results, and running it again gives the value that was asked for.""",
     ["inputs"],
     "every pair of cell sequences and every execution history",
     "tests merge fixed lists",
     ["models/cleaning/merge.py", "models/cleaning/history.py", "models/cleaning/ipython.py", "cmd/cmd_clean.py"],
     [("longest common subsequence merge", "models/cleaning/merge.py"), ("cells reached by a query", "models/cleaning/history.py")],
     ["merged sequences", "clean notebooks and their execution in IPython"],
     technique="oracle monitor over random cell sequences; replay of the clean notebook in IPython without noWorkflow")

prop("C28", "Notebook cells behave as without capture and are recorded",
     """Running cells in the noWorkflow kernel gives the results, outputs, exceptions, input and output history and variables that IPython gives. Each cell that is run with history and is valid code is recorded once, in order of
     execution, with the code that ran and its result, in the trial of the session, and what the session recorded can be read after each cell, whatever cells failed before.""",
     ["programs", "histories"],
     "every sequence of cells: failing cells, cells run again, magics, references to earlier inputs and outputs, cells without history",
     "tests do not run cells in a shell",
     ["../kernel/shell.py", CP + "collector.py", "collection/metadata.py", "collection/prov_definition/definition.py"],
     [("overridden shell", "../kernel/shell.py")],
     ["results of cells vs IPython; code_block, evaluation and activation tables after the session"],
     technique="differential monitor: kernel shell vs IPython shell; recorded cells vs executed cells")


def emit():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fil:
        for p in P:
            anchors = {"files": p["files"], "mechanism": p["mech"], "observe_at": p["observe"], "hook_needed": p["hook"]}
            if p["state"]:
                anchors["state"] = p["state"]
            fil.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                  "quantifier": {"over": p["over"], "text": p["text"]},
                                  "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    checks, na = [], []
    for p in P:
        path = "checks/%s.py" % p["id"].lower()
        if os.path.exists(os.path.join(HERE, path)):
            checks.append({"property": p["id"], "quick_cmd": "python3 %s quick" % path,
                           "thorough_cmd": "python3 %s thorough" % path,
                           "technique": p["technique"], "level": p["level"],
                           "level_note": " ".join((p["note"] or "Holds on the executions generated in this run; oracle and workload are described in DESIGN.md. Trusts CPython, sqlite3 and the harness in lib/.").split())})
        else:
            na.append({"property": p["id"], "reason": "no check built (yet); see DESIGN.md"})
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "Checks import /repo/capture through /opt/venv/bin/python (forked per case from a preloaded interpreter); see DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fil:
        json.dump(man, fil, indent=1)
        fil.write("\n")


if __name__ == "__main__":
    emit()
