"""The properties, as data.  gen.py turns this into properties.jsonl and MANIFEST.json."""

PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, observe, level_note, technique, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mechanism=mechanism, observe=observe, level_note=level_note,
                      technique=technique, state=state or []))


RB = "internal/runbook/"

# --------------------------------------------------------------------------- runbook execution
P("R01", "Tasks never start before their dependencies have finished",
  "In every runbook run, a task starts only after every task named in its `after` list has ended without an error. This holds whatever the shape of the graph, the task and target names, the assignment of tasks to targets, the concurrency limits, and the order and timing in which tasks complete.",
  ["schedules", "programs"], "every acyclic task graph, target layout and completion order",
  "The tests run three fixed runbooks whose tasks finish immediately in one order; ordering bugs need particular graphs plus particular completion orders.",
  [RB+"runner.go", RB+"scheduler/scheduler.go", "internal/dag/dependency.go"],
  [("dependency bookkeeping", "internal/dag/dependency.go"), ("done channel feeding the scheduler", RB+"runner.go")],
  ["target Start/Handle/Stop calls", "SQL arriving at a PostgreSQL server", "runbook run's result"],
  "Random graphs x random schedules; the in-process half runs the real runner inside a synctest bubble, so the harness owns every completion order and deadlock is detected exactly; the end-to-end half runs runbook files against a fake PostgreSQL server. Exploration, not proof.",
  "property-based testing with rapid, harness-owned schedules (testing/synctest), model of the task graph as oracle")
P("R02", "Every task of a valid runbook runs exactly once and the run ends",
  "If a runbook's task graph is acyclic and no task fails, running it executes every task exactly once, on the target it names and with the settings written for it, and then returns without an error. Runbooks with no tasks, no targets, unused targets or arbitrary names are included, and the run never deadlocks or leaves work running behind.",
  ["schedules", "programs"], "every valid runbook and completion order, including the empty ones",
  "Only small non-empty runbooks are run; lost wake-ups, double dispatch and deadlocks depend on graph, capacity and completion order.",
  [RB+"runner.go", RB+"scheduler/scheduler.go", "internal/dag/dependency.go"],
  [("router, scheduler and target goroutines", RB+"runner.go"), ("pending lists", RB+"scheduler/scheduler.go")],
  ["target Handle calls", "return of runbook run"],
  "As R01; termination is decided exactly (synctest reports a deadlock instead of a timeout) for the generated cases.",
  "property-based testing with rapid, synctest deadlock detection, exactly-once oracle")
P("R03", "A failing task fails the run, stops its dependents and never hangs it",
  "When one or more tasks fail, running the runbook still terminates and returns the error of a task that really failed. No task that depends, directly or transitively, on a failed task is ever started, no task is started twice, and nothing is still executing when the run returns.",
  ["schedules", "fault_sequences"], "every set of failing tasks, graph, target layout and completion order",
  "One test runs one runbook with one failing task on a target of concurrency one.",
  [RB+"runner.go", RB+"scheduler/scheduler.go"],
  [("error drain loop", RB+"runner.go"), ("target goroutine exit", RB+"runner.go")],
  ["target Handle calls", "error returned by runbook run"],
  "As R01 with generated failure sets.",
  "property-based testing with rapid, injected task failures under harness-owned schedules")
P("R04", "Cyclic or dangling dependencies are refused before anything runs",
  "A runbook whose `after` lists contain a cycle (including a task after itself) or name a task that does not exist is rejected with an error when run, and no task of it is executed. The error identifies a real cycle of the graph, or a real task together with the missing name it refers to.",
  ["programs", "inputs"], "every task graph that has a cycle or a dangling reference",
  "Unit tests cover a two-node cycle and one dangling edge inside the graph package, and never look at what a run does with the error.",
  [RB+"runner.go", RB+"scheduler/scheduler.go", "internal/dag/tsort.go", "internal/dag/dependency.go", "internal/dag/directed.go"],
  [("cycle detection", "internal/dag/tsort.go"), ("edge validation", "internal/dag/directed.go")],
  ["error returned by runbook run", "target Handle calls"],
  "Generated graphs with injected cycles and dangling references; an independent SCC computation is the oracle.",
  "property-based testing with rapid against an independent graph oracle")
P("R05", "A target never works on more tasks than its concurrency limit",
  "At no moment does a target have more of its tasks handed out and unfinished than its concurrency limit allows, and it never executes more than that many at once.",
  ["schedules", "configurations"], "every graph, concurrency limit and completion order",
  "One scripted sequence of completions is checked against expected output; the bound must hold after every history.",
  [RB+"scheduler/scheduler.go", RB+"runner.go"],
  [("per-target in-flight counters", RB+"scheduler/scheduler.go")],
  ["tasks issued by the scheduler", "concurrent target Handle calls"],
  "Stateful model-based test of the scheduler plus the runner's observed concurrency.",
  "stateful property-based testing against a reference scheduler model")
P("R06", "A ready task is never held back while its target has free capacity",
  "As soon as all dependencies of a task have finished and its target has spare capacity, the task is handed to the target: after every completion the set of running tasks is maximal. A target that is idle always starts a ready task, however busy or slow the other targets are, unless a task has failed.",
  ["schedules", "configurations"], "every graph, concurrency limit and completion order",
  "The existing expected outputs pin one history; missed hand-outs only delay work in that history and nothing notices.",
  [RB+"scheduler/scheduler.go", "internal/dag/dependency.go", RB+"runner.go"],
  [("ready list construction", "internal/dag/dependency.go"), ("router", RB+"runner.go")],
  ["tasks issued by the scheduler", "target Handle calls at quiescence"],
  "Stateful model test of the scheduler, and exact quiescence (synctest.Wait) for the runner.",
  "stateful property-based testing against a reference model; quiescence checks in a synctest bubble")
P("R07", "Targets are started once before and stopped once after their tasks",
  "Each target of a runbook is started at most once, before any of its tasks is executed, and every target that was started is stopped exactly once, after the last of its tasks, before the run returns, whether the run succeeds, fails or is refused. If a target cannot be started, the run returns that error and executes no task at all.",
  ["fault_sequences", "schedules"], "every runbook, set of failing targets, set of failing tasks and completion order",
  "The tests' targets never fail to start and never record their lifecycle.",
  [RB+"runner.go", RB+"pg/pg.go"],
  [("startTargets and target goroutines", RB+"runner.go")],
  ["target Start/Handle/Stop calls", "connections opened and terminated at a PostgreSQL server"],
  "Lifecycle monitored with fake targets under generated start and task failures; leaked goroutines are detected exactly.",
  "property-based testing with rapid, injected start failures, lifecycle automaton as oracle")
P("R08", "A task's message is announced exactly once, when the task starts",
  "Every executed task with a non-empty message has that message logged exactly once, verbatim, at informational level, after its dependencies have finished and before its own work starts; tasks without a message, and tasks that are never executed, announce nothing.",
  ["programs", "schedules"], "every runbook, message text and completion order",
  "No test looks at the log.",
  [RB+"runner.go", "internal/logger/logger.go"],
  [("message logging in the target goroutine", RB+"runner.go")],
  ["informational log entries"],
  "Log entries observed through a zap core shared with the lifecycle events.",
  "property-based testing with rapid, event-history oracle")
P("R09", "Topological sort and graph operations agree with the mathematical definition",
  "For every directed graph the topological sort returns either an order containing each node exactly once with every node after all nodes it points to, or a real cycle, and never both; the answer depends only on the graph. Node and edge insertion, removal, membership and out-degree behave like operations on a set of nodes and a set of edges.",
  ["inputs", "histories"], "every directed graph and operation sequence",
  "A handful of fixed graphs are checked.",
  ["internal/dag/tsort.go", "internal/dag/directed.go", "internal/dag/nodeset.go"],
  [("depth-first visitor", "internal/dag/tsort.go"), ("adjacency map", "internal/dag/directed.go")],
  ["exported graph API"],
  "Model-based operation sequences and random graphs against an independent SCC/order checker.",
  "stateful model-based testing with rapid")
P("R10", "The dependency tracker releases each node exactly when it becomes ready",
  "For every acyclic graph and every valid order of completions, each step releases exactly the nodes whose dependencies have all completed and which were not released before, so every node is released exactly once, and the tracker reports pending nodes exactly while some remain unreleased.",
  ["histories", "inputs"], "every acyclic graph and completion order",
  "One five-node graph in one completion order.",
  ["internal/dag/dependency.go"],
  [("pending list", "internal/dag/dependency.go")],
  ["exported dependency graph API"],
  "Stateful comparison with a set-based reference model.",
  "stateful model-based testing with rapid")

# --------------------------------------------------------------------------- runbook files
P("R11", "Parsing a runbook yields exactly what the file says",
  "For every well-formed runbook (JSON or any Jsonnet that evaluates to it) parsing yields exactly its targets and tasks, each task with its target, its task kind, its `after` list, its message and its settings, with documented defaults where a setting is omitted. Equivalent spellings of the same document (Jsonnet locals, imports, comprehensions, key order, whitespace) give the same result.",
  ["inputs", "programs"], "every well-formed runbook document",
  "Two fixture files are parsed.",
  [RB+"parser/parser.go", RB+"types/types.go", RB+"sh/sh.go", RB+"pg/pg.go", RB+"demo/demo.go"],
  [("loadTargets and loadTasks", RB+"parser/parser.go")],
  ["parsed runbook", "list, run and dot output"],
  "Random runbook models rendered in several equivalent ways.",
  "property-based testing with rapid: render/parse round trip and metamorphic rewrites")
P("R12", "A malformed runbook is refused with an error, never a crash or a partial run",
  "Any runbook that is not valid Jsonnet, has an unknown field, an unknown target class, an unknown target or task kind, an ill-typed or missing mandatory setting, or an empty definition is refused with an error by list, dot and run, which then execute nothing and print nothing to their output. No input makes the program panic, and it comes back whenever evaluating the Jsonnet program does.",
  ["inputs"], "every mutation of a valid runbook and every byte string",
  "Seven fixture files with one mistake each.",
  [RB+"parser/parser.go", RB+"sh/exec.go", RB+"pg/exec.go", RB+"demo/tasks.go"],
  [("strict decoding", RB+"parser/parser.go"), ("Check and Analyze", RB+"sh/exec.go")],
  ["errors from list, dot and run"],
  "Structured single-fault mutations of generated runbooks, plus random bytes.",
  "property-based testing with rapid: fault-injecting mutation of generated documents, robustness fuzzing")
P("R13", "`runbook eval` prints the evaluated document faithfully",
  "For every runbook file that evaluates, `eval` without colour writes a JSON document that parses back to exactly the evaluated value: same keys, strings, numbers, booleans, nulls, arrays and nesting; with colour, removing the colour codes gives the same document.",
  ["inputs"], "every evaluable document, with any keys and strings",
  "One fixture is evaluated and only non-emptiness is asserted.",
  [RB+"runbook.go", "internal/commands/runbook_eval.go"],
  [("Eval", RB+"runbook.go")],
  ["eval output"],
  "Random JSON values round-tripped through eval.",
  "property-based testing with rapid: round trip through the JSON parser")
P("R14", "`runbook dot` describes exactly the runbook's graph",
  "For every valid runbook the dot output is valid GraphViz whose clusters are exactly the targets, whose nodes are exactly the tasks each inside the cluster of its target, and whose edges are exactly the `after` relations directed from the earlier to the later task; the splines option appears as given. Names with arbitrary characters are preserved. If an `after` list names a task that does not exist, or the output cannot be written, an error is reported.",
  ["inputs"], "every valid runbook, including unusual names",
  "One fixture, only non-emptiness is asserted.",
  [RB+"runbook.go", "internal/commands/runbook_dot.go"],
  [("Dot", RB+"runbook.go")],
  ["dot output"],
  "An independent DOT reader written for the harness decides equality with the runbook model.",
  "property-based testing with rapid: output parsed back and compared with the model")
P("R15", "`runbook list` shows every task with its target, sorted",
  "For every valid runbook `list` prints the heading and then exactly one line per task, in ascending order of task name, showing the task's name and the target it runs on, with the target column aligned; nothing else is printed and no task is executed.",
  ["inputs"], "every valid runbook",
  "One fixture with equally long names.",
  ["internal/commands/runbook_list.go", RB+"runbook.go"],
  [("List", RB+"runbook.go"), ("sort and padding", "internal/commands/runbook_list.go")],
  ["list output"],
  "Compared with output computed from the generated model.",
  "property-based testing with rapid against a reference rendering")
P("R16", "Environment filtering follows allow, deny and set",
  "Filtering an environment keeps, in order, exactly the variables the filter permits: those on the allow list when there is one, otherwise those not on the deny list; variables in `set` always appear with the set value, exactly once per existing occurrence or once if absent. Values are never altered otherwise, even when they contain `=` or are empty.",
  ["inputs"], "every environment and filter",
  "Six fixed filters over a two-variable environment.",
  [RB+"sh/env.go"],
  [("Apply", RB+"sh/env.go")],
  ["filtered environment", "environment seen by child processes"],
  "Compared with a reference filter; end to end through real child processes.",
  "property-based testing with rapid against a reference implementation")
P("R17", "Shell tasks run exactly the given command in the given environment",
  "A shell task executes exactly the command and arguments written in the runbook, unaltered and without shell interpretation, in the directory of the runbook file, with the environment obtained by applying the target's and then the task's filter, with empty standard input; its standard output and error reach the program's, byte for byte. The task fails exactly when the command cannot be started or exits with a non-zero status.",
  ["inputs"], "every argument list, environment, output and exit status",
  "Three fixed commands.",
  [RB+"sh/exec.go", RB+"sh/sh.go", RB+"sh/env.go"],
  [("exec", RB+"sh/exec.go")],
  ["child process argv, cwd, environment, stdin; forwarded output; task result"],
  "A recording helper program stands in for the command.",
  "property-based testing with rapid using a recording child process")
P("R18", "Task and target settings are validated before anything runs",
  "A shell task is accepted exactly if it has at least one argument and its command is a bare name or a path starting with `/`, `./` or `../`; an SQL task exactly if its SQL is non-empty; a shell or PostgreSQL target exactly if its concurrency is at least one. A sleep task of less than one second is treated as one second, and an omitted concurrency means one.",
  ["inputs"], "every command word, argument list, SQL text and concurrency value",
  "Five command words and a few settings.",
  [RB+"sh/exec.go", RB+"pg/exec.go", RB+"sh/sh.go", RB+"pg/pg.go", RB+"demo/tasks.go"],
  [("validateArg0, Check, Analyze", RB+"sh/exec.go")],
  ["Check and Analyze results", "runbook list/run errors"],
  "Reference predicates over generated settings.",
  "property-based testing with rapid against reference predicates")
P("R19", "Demo tasks transform the target's string as documented",
  "Reversing reverses the string's characters and ROT-13 rotates exactly the ASCII letters by 13, so each is its own inverse and the two commute; echo prints the current string and a newline and changes nothing; fail always fails and changes nothing. This holds for any text, for any sequence of tasks, in runbooks and in task sets alike.",
  ["inputs", "histories"], "every string and task sequence",
  "One message is decoded.",
  [RB+"demo/tasks.go", RB+"demo/demo.go", "internal/taskset/demo/rev.go", "internal/taskset/demo/rot13.go", "internal/taskset/demo/echo.go"],
  [("munge", RB+"demo/tasks.go"), ("exec", "internal/taskset/demo/rot13.go")],
  ["target string and standard output"],
  "Reference model over generated task sequences.",
  "stateful property-based testing against a reference model")
P("R20", "SQL tasks send their SQL verbatim to the configured server",
  "Running a runbook with PostgreSQL targets opens exactly one connection per target, with the host, port, user, password and database given in the target's settings, sends each task's SQL unmodified and exactly once on its own target's connection, and closes the connection at the end. A task fails exactly when the server reports an error for it or the connection breaks.",
  ["inputs", "fault_sequences"], "every SQL text, target configuration and server response",
  "The tests that would exercise it need a live server and use three statements.",
  [RB+"pg/pg.go", RB+"pg/exec.go", "internal/pg/pg.go"],
  [("Start, Handle, Stop", RB+"pg/pg.go")],
  ["traffic at a PostgreSQL server"],
  "A fake PostgreSQL server speaks the wire protocol to the real driver.",
  "property-based testing with rapid against a protocol-level fake server")

# --------------------------------------------------------------------------- task sets
P("R21", "A failure stops the run from going any further",
  "Once a task has failed, the target that executed it starts no further task, not even one it had already been handed. No other target is handed anything new: it at most works off tasks that were ready when the failure was noticed, and no more of them than its concurrency limit.",
  ["schedules", "fault_sequences"], "every graph, target layout, set of failing tasks and completion order",
  "The tests' only failing task runs alone on a target of concurrency one, so nothing is ever queued behind it.",
  [RB+"runner.go", RB+"scheduler/scheduler.go"],
  [("target goroutine exit", RB+"runner.go"), ("done channel closed at a failure", RB+"runner.go")],
  ["target Handle calls after a failure", "statements arriving at the server after a failure"],
  "The real runner in a synctest bubble under generated completion schedules: at the first moment nothing moves after a failure the set of ready tasks and the free room of every target is computed, and everything started later is judged against it.",
  "property-based testing with rapid, injected task failures under harness-owned schedules")
P("R22", "Targets working side by side never influence one another",
  "The targets of a run work at the same time without influencing one another. Whatever the others do meanwhile, each target's string, statements, environment and output are exactly those its own tasks produce in dependency order on their own; printed lines are never torn or mixed; the process's own environment and working directory are left alone; and nothing that is shared between targets is accessed without synchronization.",
  ["schedules", "programs"], "every combination of targets and tasks that work at the same time",
  "The tests run one target, one task at a time; what two targets do to each other depends on which of their steps overlap, and an unsynchronized access rarely shows in what a single run prints.",
  [RB+"runner.go", RB+"demo/tasks.go", RB+"sh/exec.go", RB+"sh/env.go", RB+"pg/pg.go", "internal/pg/pg.go"],
  [("one goroutine per target", RB+"runner.go"), ("state kept per target", RB+"demo/demo.go")],
  ["output of runbook run", "environment of shell tasks", "SQL arriving at a PostgreSQL server", "reports of the race detector"],
  "Runbooks with several demo, shell and PostgreSQL targets run for real, in a harness built with Go's race detector: every unsynchronized access the run contains is reported, even if it had no effect this time. Real scheduling is not owned by the harness. Exploration, not proof.",
  "property-based testing with rapid, each target's own behaviour as oracle, with the race detector as a monitor")
P("R23", "A run takes exactly as long as its tasks make it take",
  "A sleep task occupies its target for exactly the number of seconds it says (one if it says none, or less than one), and nothing else takes time: a task begins at the very moment when the tasks it is after have ended and its target is free, whatever the other targets are doing, its message is announced and its line printed at that moment, and the run ends when its last task does. After a failure the run ends as soon as the tasks that were already at work have ended.",
  ["schedules", "configurations"], "every run book of tasks of any duration, with and without a failing task",
  "The tests sleep once for a second and don't look at the clock; that no time is lost, and none is skipped, depends on the lengths and the order of all tasks.",
  [RB+"runner.go", RB+"scheduler/scheduler.go", RB+"demo/tasks.go"],
  [("munge of Sleep", RB+"demo/tasks.go"), ("Next", RB+"scheduler/scheduler.go")],
  ["moments at which messages are announced, lines printed and the run ends"],
  "`runbook run` with the real parser, targets and runner on synctest's virtual clock, on which every moment is exact; judged by a schedule-free rule (a ready task waits only while its target is busy), so any order among ready tasks is accepted. Demo targets only: shells and servers can't be put on a virtual clock.",
  "property-based testing with rapid on a virtual clock, work-conservation invariant over the observed history")
P("T01", "Parsing a task set yields exactly what the file says",
  "For every well-formed HCL task set parsing yields exactly its targets, plus one default target per registered type, and its tasks with their type, settings and dependencies, each created by the target it names; an unknown target type, unknown target, unknown task type or ill-typed setting is refused with an error. No input makes it panic.",
  ["inputs"], "every task set document",
  "One fixture is parsed and only the absence of an error is asserted.",
  ["internal/taskset/parser/parser.go", "internal/taskset/demo/demo.go"],
  [("loadExplicitTargets and loadTasks", "internal/taskset/parser/parser.go")],
  ["parsed task set"],
  "Random task-set models rendered as HCL.",
  "property-based testing with rapid: render/parse round trip and fault-injecting mutation")
P("T02", "Every queued task-set task yields exactly one result",
  "Every task put on a target's queue is executed exactly once and yields exactly one result carrying its own name and its own error, whatever the batching, concurrency and completion order. After the queue is closed all outstanding results are still delivered and then the result channel is closed and no work is left behind.",
  ["schedules", "histories"], "every sequence of batches, completion order and closing point",
  "A few tasks are queued one at a time; the closing path is not observed.",
  ["internal/taskset/base/base.go", "internal/taskset/demo/demo.go"],
  [("RunTasks", "internal/taskset/base/base.go")],
  ["results channel"],
  "Harness-owned schedules in a synctest bubble; deadlocks and leaks detected exactly.",
  "stateful property-based testing in a synctest bubble against a multiset oracle")
P("T03", "Tasks a target works on at once act as if one after the other",
  "When a demo target works on several tasks at once, queued in batches or run by several callers, the outcome is one that executing them one after the other in some order could have had: every echo task prints one whole line, the lines are explained by some order of the rev and rot13 tasks, and afterwards the string is what all of them together make of it. Each task's outcome is its own, other targets are not affected, and the target's state is never accessed without synchronization.",
  ["schedules", "histories"], "every set of tasks begun together, rounds of them, and every interleaving",
  "The test runs one task after the other, where the target's lock is never contended; lost updates need two tasks at the same moment.",
  ["internal/taskset/demo/demo.go", "internal/taskset/demo/echo.go", "internal/taskset/demo/rev.go", "internal/taskset/demo/rot13.go", "internal/taskset/base/base.go"],
  [("the target's mutex", "internal/taskset/demo/demo.go")],
  ["echoed lines", "the target's string", "results channel", "reports of the race detector"],
  "Rounds of tasks with real concurrency, a search for an order that explains what was printed (linearizability), and Go's race detector as a monitor. Real scheduling is not owned by the harness.",
  "property-based testing with rapid, linearizability oracle, with the race detector as a monitor")
P("T04", "A task-set target executes as many tasks at once as its limit allows",
  "At no moment does a target execute more of the tasks on its queue than its max_concurrency setting (one if it is omitted), whatever the batches they were queued in. While tasks are waiting it executes as many as it may: as soon as one ends, and its result has been taken, another is begun, and a task put on the queue of a target with room begins at once. Each target has a limit of its own.",
  ["schedules", "configurations"], "every limit, sequence of batches and duration of the tasks",
  "The only tasks tested take no time, so that no two of them are ever executed at once.",
  ["internal/taskset/base/base.go", "internal/taskset/demo/demo.go", "internal/taskset/demo/sleep.go"],
  [("RunTasks", "internal/taskset/base/base.go")],
  ["times at which results come, in fake time"],
  "Sleep tasks in fake time: when a result comes and how long its task takes tell exactly what was executed when. Limits below one are not judged; with a reader that is slow only T02 applies.",
  "property-based testing with rapid in testing/synctest, with an invariant over the history")

# --------------------------------------------------------------------------- ddl
P("D01", "Writing a database description and reading it back loses nothing",
  "For every database description, writing it as HCL and parsing the result yields an equal description: all schemas, functions, sequences, tables, columns, checks, foreign keys, storage parameters, indexes and triggers, in order, with every name, Unicode text, number and flag unchanged and each attribute written under its own name. The text written is stable: writing the re-read description gives the same bytes.",
  ["inputs"], "every database description with arbitrary text in names, comments, expressions and bodies",
  "One fixture file is read and one written.",
  ["internal/ddl/ddl.go", "internal/ddl/database.go", "internal/ddl/table.go", "internal/ddl/index.go", "internal/ddl/trigger.go", "internal/ddl/function.go", "internal/ddl/sequence.go", "internal/ddl/table_storage_parameters.go"],
  [("HCL struct tags", "internal/ddl/table.go"), ("Write, ParseBytes", "internal/ddl/ddl.go")],
  ["written HCL and parsed structures"],
  "Deep structural generation including template characters, control characters, unicode and integer extremes.",
  "property-based testing with rapid: round trip and idempotence")
P("D02", "Reading a description never crashes and is the same from a file or memory",
  "Reading any byte string as a database description either yields a description or an error, never both or neither, and never panics; reading it from a file gives the same outcome as from memory. Each block, label and attribute of a valid document, however it is laid out, ends up in its own field of the description. Unknown blocks or attributes, missing mandatory attributes and ill-typed values are refused.",
  ["inputs"], "every byte string and every single-fault mutation of a valid description",
  "One valid file.",
  ["internal/ddl/ddl.go"],
  [("ParseBytes and ParseFile", "internal/ddl/ddl.go")],
  ["return values"],
  "Structured mutations and random text.",
  "robustness fuzzing and differential property-based testing with rapid")
P("D03", "Check constraint definitions are parsed faithfully",
  "For every check constraint definition in the form PostgreSQL prints, parsing yields exactly the text between the outer parentheses (trimmed) as the expression and the stated deferrability; keyword case and the amount of white space between keywords do not matter. Text that is not of the form CHECK (...), followed at most by such a clause, is refused with an error.",
  ["inputs"], "every expression text, spacing, keyword case and deferrability clause",
  "Four definitions.",
  ["internal/ddl/check_parser.rl", "internal/ddl/check_parser.go", "internal/ddl/check.go"],
  [("generated state machine", "internal/ddl/check_parser.go")],
  ["parse results"],
  "Reference grammar and renderer; known grammar defects are listed as findings.",
  "property-based testing with rapid: render/parse round trip and differential against a reference recogniser")
P("D04", "Foreign key definitions are parsed faithfully",
  "For every foreign key definition with plain identifiers, parsing yields exactly the columns, the referenced table and columns in order, the match type, the delete and update actions (upper case, single spaced) and deferrability that were written; keyword case and spacing do not matter. Text that is not such a definition is refused with an error.",
  ["inputs"], "every column list, table, action combination, spacing and keyword case",
  "Three definitions.",
  ["internal/ddl/foreign_key_parser.rl", "internal/ddl/foreign_key_parser.go", "internal/ddl/foreign_key.go"],
  [("generated state machine", "internal/ddl/foreign_key_parser.go")],
  ["parse results"],
  "Reference grammar and renderer; known grammar defects are listed as findings.",
  "property-based testing with rapid: render/parse round trip and differential against a reference recogniser")
P("D05", "Index definitions are parsed faithfully",
  "For every index definition with plain identifiers, parsing yields exactly the index name, table, uniqueness, access method, keys (columns or expressions with operator class and descending order, in order) and the predicate text that were written; keyword case and spacing between tokens do not matter. Text that is not such a definition is refused with an error.",
  ["inputs"], "every name, key list, predicate, spacing and keyword case",
  "Seven definitions.",
  ["internal/ddl/index_parser.rl", "internal/ddl/index_parser.go", "internal/ddl/index.go"],
  [("generated state machine", "internal/ddl/index_parser.go"), ("setWhere, setOpClass", "internal/ddl/index.go")],
  ["parse results"],
  "Reference grammar and renderer; known grammar defects are listed as findings.",
  "property-based testing with rapid: render/parse round trip and differential against a reference recogniser")
P("D06", "Trigger definitions are parsed faithfully",
  "For every trigger definition with plain identifiers and no condition or arguments, parsing yields exactly the name, table, timing (upper case, single spaced), events, update columns, constraint and deferrability flags, level and function that were written; keyword case and spacing do not matter. Text that is not such a definition is refused with an error.",
  ["inputs"], "every combination of clauses, names, spacing and keyword case",
  "Six definitions.",
  ["internal/ddl/trigger_parser.rl", "internal/ddl/trigger_parser.go", "internal/ddl/trigger.go"],
  [("generated state machine", "internal/ddl/trigger_parser.go"), ("setWhen", "internal/ddl/trigger.go")],
  ["parse results"],
  "Reference grammar and renderer; known grammar defects are listed as findings.",
  "property-based testing with rapid: render/parse round trip and differential against a reference recogniser")
P("D07", "A rejected definition is reported with the position of the mistake",
  "When a definition is refused, the error shows the line on which the first character that cannot continue any valid definition occurs, with a caret under that character, or says that the text ended too early when no character is wrong. Definitions of any length and number of lines are reported without crashing.",
  ["inputs"], "every definition with an injected mistake, on any line and column",
  "Three positions in one fixed string, fed directly to the formatter.",
  ["internal/ddl/parser_utils.go", "internal/ddl/check_parser.rl", "internal/ddl/foreign_key_parser.rl", "internal/ddl/index_parser.rl", "internal/ddl/trigger_parser.rl"],
  [("parseError.Error", "internal/ddl/parser_utils.go")],
  ["error text"],
  "The first offending position is derived independently by probing which prefixes can be extended.",
  "property-based testing with rapid: mistakes injected at known positions of generated definitions")
P("D08", "Generated CREATE TABLE statements describe the table exactly",
  "The SQL generated for a table is one CREATE TABLE statement that names exactly that table and lists exactly its columns in order, each with its quoted name, its type, NOT NULL exactly when required and its default when present, followed by its check expressions in order. Any name is quoted so that it reads back as the same identifier.",
  ["inputs"], "every table with any names, columns and checks",
  "One table.",
  ["internal/ddl/table.go", "internal/ddl/util.go"],
  [("ToSQL", "internal/ddl/table.go"), ("quoteName", "internal/ddl/util.go")],
  ["generated SQL"],
  "A small independent SQL reader parses the statement back.",
  "property-based testing with rapid: generated SQL parsed back and compared")
P("D09", "Generated primary key, trigger and function statements are faithful",
  "The SQL generated for a primary key names exactly its table, constraint and key columns in order; for a trigger exactly its name, timing, every event it fires on with its update columns, table, constraint and deferrability flags, level and function; for a function exactly its name, return type, language and body. Names read back as the same identifiers and a function body reads back unchanged, apart from a line break before it.",
  ["inputs"], "every primary key, trigger and function description",
  "One of each.",
  ["internal/ddl/index.go", "internal/ddl/trigger.go", "internal/ddl/function.go", "internal/ddl/util.go"],
  [("ToSQL", "internal/ddl/trigger.go")],
  ["generated SQL"],
  "A small independent SQL reader parses the statements back.",
  "property-based testing with rapid: generated SQL parsed back and compared")
P("D10", "Storage parameters are recorded under their own name with their own value",
  "Setting any supported storage parameter to a valid value records exactly that value for exactly that parameter and disturbs no other; booleans accept every spelling PostgreSQL stores. A value that is not valid for a known parameter is refused with an error, and neither a refused value nor a parameter that is not supported changes the recorded settings.",
  ["inputs", "histories"], "every sequence of parameter settings",
  "Not tested at all.",
  ["internal/ddl/table_storage_parameters.go"],
  [("Set", "internal/ddl/table_storage_parameters.go")],
  ["recorded parameters"],
  "Model-based sequences of settings.",
  "stateful model-based testing with rapid")

# --------------------------------------------------------------------------- pg
P("P01", "Inspecting a database describes every object the catalog holds",
  "Inspecting a database yields exactly the user-visible schemas, functions, tables, columns, check constraints, foreign keys, storage parameters, indexes and triggers present in its catalogs, each with its own attributes and attached to the right table, in the documented order, and nothing from the system schemas, dropped columns or internal triggers. Objects without comment, default or other optional attribute are described with empty text; a disabled trigger, an unlogged or inherited table, an inherited column or constraint and an invalid index are described as any other.",
  ["inputs"], "every catalog content",
  "The tests that exercise it need a live server and look at one database.",
  ["internal/pg/inspect.go", "internal/pg/schemas.go", "internal/pg/functions.go", "internal/pg/tables.go", "internal/pg/columns.go", "internal/pg/check.go", "internal/pg/foreign_key.go", "internal/pg/index.go", "internal/pg/triggers.go", "internal/pg/table_storage_parameters.go", "internal/pg/parameters.go"],
  [("catalog queries and row scans", "internal/pg/inspect.go")],
  ["inspected description"],
  "A fake server evaluates the program's actual SQL over generated catalogs with a small SQL engine, so the check judges query semantics, not query text.",
  "property-based testing with rapid: generated catalogs served by a fake server with an SQL interpreter")
P("P02", "Sequences are described completely on old and new servers",
  "Listing sequences yields every user-visible sequence exactly once, with its type, start, bounds, increment, cache and cycling, and with its owning column if it has one, on servers with and without the sequence catalog, for any sequence name.",
  ["inputs", "configurations"], "every set of sequences and both server generations",
  "Needs a live server.",
  ["internal/pg/sequence.go"],
  [("listSequences and listSequencesLegacy", "internal/pg/sequence.go")],
  ["listed sequences"],
  "As P01.",
  "property-based testing with rapid against a fake server with an SQL interpreter")
P("P03", "A failure while reading the catalog is reported, never a truncated result",
  "If any query made while inspecting or listing fails, or the connection breaks, or the server reports an error at any point in a result, the operation returns an error and no description; a successful answer is never incomplete. It never panics or hangs, and a connection that is still there afterwards answers later questions as if nothing had happened.",
  ["fault_sequences", "crash_points"], "every position of every result stream at which the server can fail",
  "No test injects a failure.",
  ["internal/pg/inspect.go", "internal/pg/tables.go", "internal/pg/columns.go", "internal/pg/check.go", "internal/pg/foreign_key.go", "internal/pg/functions.go", "internal/pg/index.go", "internal/pg/triggers.go", "internal/pg/schemas.go", "internal/pg/sequence.go", "internal/pg/table_storage_parameters.go"],
  [("error handling of row iteration", "internal/pg/tables.go")],
  ["return values under injected faults"],
  "Faults injected at generated statement and row positions of generated catalogs.",
  "fault-injecting property-based testing with rapid against a fake server")
P("P04", "Sort options change order only, and order as documented",
  "Inspecting with any combination of sort options yields the same objects as without them. With column sorting the columns of each table are in name order, otherwise in physical order; with check sorting each table's checks are ordered by expression, otherwise by name; with index sorting all indexes are in alphanumeric order, otherwise in the default order.",
  ["inputs", "configurations"], "every catalog and combination of options",
  "One database with one combination, needing a live server.",
  ["internal/pg/inspect.go"],
  [("sort.Slice calls", "internal/pg/inspect.go")],
  ["inspected description"],
  "Metamorphic: option on versus off over generated catalogs.",
  "metamorphic property-based testing with rapid")
P("P05", "Connecting retries as often as configured and keeps exactly one connection",
  "Connecting repeats a failed attempt until one succeeds or the configured number of retries is used up, waiting at least 100 ms before each further attempt; a negative number counts as none. It stops at the first success and returns that connection, and fails only if every attempt failed. Exactly one connection stays open after success, and none after failure or after it is closed; a run book's pg target closes its connection when it is stopped, whatever it executed.",
  ["fault_sequences"], "every pattern of failing attempts and number of retries",
  "Needs a live server and never fails.",
  ["internal/pg/pg.go"],
  [("retry loop", "internal/pg/pg.go")],
  ["connection attempts seen by a server", "result"],
  "The fake server scripts the outcome of every attempt.",
  "fault-injecting property-based testing with rapid against a fake server")
P("P06", "The SSL mode decides encryption and verification exactly as documented",
  "disable never uses encryption and prefer falls back to plain text only after an encrypted attempt was refused or failed; require and verify-full never send credentials or queries in plain text, and verify-full additionally never talks to a server whose certificate is not valid for the host; allow uses encryption only after a plain attempt was refused or failed. Without an explicit mode a password is only ever sent over a verified connection; without mode and password PGSSLMODE decides, in the same sense. An unknown mode is refused before any server is contacted.",
  ["configurations", "inputs"], "every mode, server capability, certificate and password setting",
  "Not tested.",
  ["internal/pg/pg.go"],
  [("applySSLMode", "internal/pg/pg.go")],
  ["bytes seen by a server"],
  "The fake server offers or refuses TLS with trusted, untrusted or wrong-host certificates and records what reached it in plain text.",
  "property-based testing with rapid against a fake TLS server")
P("P07", "Identifiers are quoted so that any name is safe in SQL",
  "For any sequence of name parts, the quoted identifier lexes under PostgreSQL's rules as exactly those parts separated by dots, so no name can change the meaning of a statement.",
  ["inputs"], "every list of name parts",
  "Not tested.",
  ["internal/pg/util.go", "internal/ddl/util.go", "internal/pg/sequence.go"],
  [("Identifier", "internal/pg/util.go")],
  ["quoted text"],
  "An independent lexer reads the quoted text back.",
  "property-based testing with rapid: round trip through a reference lexer")
P("P08", "Explicit connection settings win over the environment",
  "Each explicitly given connection setting (host, port, user, password, database) is used for the connection; a setting that is not given comes from the PG* environment variables, and the port is 5432 if it is given nowhere; the settings of a run book's target count as explicitly given. Settings are independent: giving one never changes another. A PG* variable that is needed and has an invalid value is reported as an error, and no connection is made.",
  ["configurations"], "every combination of explicit and environment settings",
  "Not tested without a live server.",
  ["internal/pg/pg.go"],
  [("firstOfString and firstOfUint16", "internal/pg/pg.go")],
  ["startup message and authentication seen by a server"],
  "The fake server records the startup parameters and password.",
  "property-based testing with rapid against a fake server")
P("P09", "Describing one function or trigger finds exactly that object",
  "Describing a function or trigger by schema, table and name returns exactly the description of that object, passes names to the server as data (never as SQL), reports not-found exactly when there is no such object, and reports any other failure as an error.",
  ["inputs", "fault_sequences"], "every catalog, name and server failure",
  "Needs a live server and looks at two names.",
  ["internal/pg/functions.go", "internal/pg/triggers.go"],
  [("DescribeFunction, DescribeTrigger", "internal/pg/functions.go")],
  ["return values"],
  "As P01.",
  "property-based testing with rapid against a fake server with an SQL interpreter")

P("P10", "Executing SQL sends exactly that text and reports exactly the server's failures",
  "Executing SQL on a connection, directly or as a run book's task, sends exactly the given text once; it succeeds if and only if the server completed every statement in it, whatever rows, notices or other messages come along, and otherwise the error carries the server's message. After a failed statement the connection is still usable; after a lost connection every further use fails. The server's version is returned exactly as sent.",
  ["inputs", "fault_sequences", "histories"], "every text, every sequence of executions, and every failure of the server at every point of an answer",
  "Needs a live server; one statement succeeds.",
  ["internal/pg/pg.go", "internal/pg/version.go", "internal/runbook/pg/exec.go", "internal/runbook/pg/pg.go"],
  [("Exec", "internal/pg/pg.go")],
  ["statements received by the server", "returned errors"],
  "Random histories on one connection to a fake server which fails at a chosen point.",
  "stateful property-based testing with rapid and fault injection against a fake server")
P("P11", "Passwords are never shown",
  "The password used for a connection - from an option, the environment or a run book - never appears in log messages at any verbosity, in the debug log, in error messages or in the output of connecting, running, listing or drawing a run book, whether the connection succeeds or fails.",
  ["inputs", "fault_sequences"], "every password, way of giving it, and ending of the connection",
  "Not looked at by any test.",
  ["internal/pg/pg.go", "internal/runbook/pg/pg.go", "internal/cli/ping.go", "internal/logger/logger.go"],
  [("connection options", "internal/pg/pg.go")],
  ["logs", "output", "errors"],
  "Distinctive random passwords are searched for in everything that is shown.",
  "property-based testing with rapid: non-interference by search for a distinctive secret")

# --------------------------------------------------------------------------- cli
P("C01", "Command lines select the right command with exactly the given options",
  "For every valid command line the selected command and each of its options have exactly the values written, in long or short form and in any position the syntax allows, and every option that is not written has its documented default; `runbook FILE` means `runbook run FILE` and `ls` means `list`. Unknown commands or flags, ill-typed or out-of-range values, illegal choices and missing or non-existent files are refused with an error.",
  ["inputs"], "every command line",
  "Eleven command lines.",
  ["internal/cli/cli.go", "internal/cli/register.go", "internal/cli/ping.go", "internal/cli/inspect.go", "internal/cli/runbook.go", "internal/cli/version.go"],
  [("flag registration", "internal/cli/runbook.go")],
  ["selected command and its fields"],
  "Random command models rendered in random equivalent spellings.",
  "property-based testing with rapid: render/parse round trip and single-fault mutation")
P("C02", "Verbosity decides exactly which log messages are shown",
  "With verbosity v (0 shows errors, 1 adds warnings, 2 adds informational, 3 adds debug messages; more is the same as 3 and less is the same as 0) exactly the messages of the enabled levels are written to the default log, in order, once each; the debug log, when there is one, receives every message. Each -v raises and each -q lowers the verbosity by one from the default of 1.",
  ["inputs", "configurations"], "every verbosity, flag combination and message sequence",
  "One verbosity with two messages.",
  ["internal/logger/logger.go", "internal/cli/cli.go"],
  [("level selection", "internal/logger/logger.go"), ("verbosity arithmetic", "internal/cli/cli.go")],
  ["log output"],
  "Generated message sequences and flag combinations against a reference filter.",
  "property-based testing with rapid against a reference filter")
P("C03", "Command output goes to the chosen destination, complete and nowhere else",
  "A command writes its result only to the writer it was given, or to the named output file when one is requested; the file then holds exactly the bytes that would otherwise have gone to standard output, whatever it held before, and nothing reaches the process's own streams. `-` means standard output, and -O derives the file name from the runbook's name by replacing its extension with .dot.",
  ["inputs", "configurations"], "every command, output option, previous file content and file name",
  "Output to an in-memory buffer only.",
  ["internal/commands/inspect.go", "internal/commands/runbook_dot.go", "internal/commands/runbook_eval.go", "internal/commands/version.go", "internal/commands/ping.go"],
  [("output selection", "internal/commands/runbook_dot.go")],
  ["files, writers and process streams"],
  "Differential between the in-memory and the file destination over generated inputs.",
  "differential property-based testing with rapid")
P("C04", "The exit status tells whether the command succeeded",
  "pgutil ends with exit status 0 if and only if the command did what it was asked to: a connection that can't be made, a statement that fails or is cut off, a run book that can't be read or is wrong, a task that fails, and output that can't be written completely each lead to a non-zero exit status and a message.",
  ["inputs", "fault_sequences", "configurations"], "every command, and every failure of a server, run book, task or output",
  "The program itself is never run.",
  ["main.go", "internal/cli/cli.go", "internal/commands/ping.go", "internal/commands/inspect.go", "internal/commands/runbook.go", "internal/commands/runbook_list.go", "internal/commands/runbook_dot.go", "internal/commands/runbook_eval.go", "internal/commands/version.go"],
  [("exit status", "main.go")],
  ["exit status", "output"],
  "The program is run in arranged circumstances whose outcome is known.",
  "property-based testing with rapid and fault injection on the program itself")
P("C05", "`version` shows the program's version and, when asked, its dependencies",
  "`version` prints one line with the program's name and version; with --long it also prints exactly one line for each dependency recorded in the build, in that order, with its path and version, and nothing more when nothing is recorded. Nothing is written to the error stream and no part of a name or version is altered or cut off.",
  ["inputs", "configurations"], "any program name, version and list of dependencies; both spellings of the flag",
  "One example without dependencies.",
  ["internal/commands/version.go", "internal/cli/version.go", "main.go"],
  [("Run", "internal/commands/version.go")],
  ["output"],
  "The output is split into lines and words and compared with what was recorded in the build.",
  "property-based testing with rapid; the program itself against its own build information")
P("C06", "What `inspect` writes can be read back and describes the database",
  "The description the inspect command writes, to standard output or a file and with any sort options, is complete and well-formed: reading it back gives every schema, function, sequence, table, column, check, foreign key, storage parameter, index and trigger the database has, with their comments, owners and settings, in the order asked for, and nothing else. Writing it once more gives the same text.",
  ["inputs", "programs"], "every database content, sort options and destination",
  "The stages are tested one by one with a fixed database; what one stage loses of what another delivers shows only when they are joined over many databases.",
  ["internal/commands/inspect.go", "internal/pg/inspect.go", "internal/ddl/database.go", "internal/ddl/ddl.go", "internal/cli/inspect.go"],
  [("inspect command", "internal/commands/inspect.go"), ("writing and parsing", "internal/ddl/ddl.go")],
  ["the command's output, read by ddl.ParseFile or ParseBytes"],
  "The whole way from the catalog rows of a fake server through the program to the parsed text, compared with the catalog's model. Texts HCL normalizes (finding D01 nfc) are not generated.",
  "property-based testing with rapid, catalog model as oracle, end-to-end round trip")

P("C07", "A command that fails leaves the output file's earlier content alone",
  "If a command that writes to a named output file fails before it has a result - because the run book can't be read or is wrong, or the database can't be reached or described - a file of that name keeps exactly the content it had, and a file that wasn't there isn't left behind with anything in it. The output file may even be the run book itself: it is read before it is replaced.",
  ["fault_sequences", "inputs"], "every command with an output file, every failure before the result, every earlier content",
  "No test writes to a file.",
  ["internal/commands/base.go", "internal/commands/inspect.go", "internal/commands/runbook_dot.go", "internal/commands/runbook_eval.go"],
  [("opening the output", "internal/commands/base.go")],
  ["the file's content after a failure"],
  "Generated failures with generated earlier content; the invariant is that nothing changed.",
  "fault-injecting property-based testing with rapid")
P("C08", "Looking at a database or a run book changes nothing",
  "Only running a run book has effects. Whatever is asked about a database - a ping, a whole inspection or a single list, on old and new servers, also after a statement has failed - sends the server nothing but statements that read: no rows are changed, no sequence value is used up, no row or table is locked. Listing, drawing and evaluating a run book, right or wrong, executes none of its commands, statements or tasks, announces no message, opens no connection and changes no file except the output file that was asked for.",
  ["inputs", "programs", "fault_sequences"], "every database and server version, every run book",
  "The tests look at results, not at what was sent or touched on the way to them.",
  ["internal/pg/inspect.go", "internal/pg/sequence.go", "internal/pg/tables.go", "internal/commands/inspect.go", "internal/commands/ping.go", RB+"runbook.go", RB+"parser/parser.go"],
  [("statements of the inspection", "internal/pg/inspect.go"), ("List, Dot and Eval", RB+"runbook.go")],
  ["statements arriving at the server", "files, connections and output"],
  "Every statement that arrives at a fake server is split into words and classified; functions defined by users can't be judged. Side effects of run books are looked for as files, connections, printed strings and announced messages.",
  "property-based testing with rapid: an invariant over everything sent to a protocol-level fake server, and over the file system")
