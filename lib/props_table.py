GENERATED = "The unit tests compare a few hand-written texts with recorded output; none of them computes the expected result independently or varies the input."
MON = "runtime monitoring: an independent interpreter of the SQL judges every execution of the real code on generated, corpus and mutated schemas"

prop("P01", "The SQL reader always ends with a result or an error",
     "For every byte string given as a schema, in each of the four dialects, reading it ends promptly with either a parsed schema or an error. It never panics, never fails to end, and a schema it did accept can always be rendered back to text without a panic.",
     ["inputs"], "every text: valid schemas, their truncations at every byte, byte- and token-level mutations, deep nesting, random bytes, unterminated quotes and comments",
     "The tests parse a few dozen texts and errors; every text is beyond sampling. Before the repairs here, DEFAULT followed by a type keyword and an unnamed CHECK crashed the tool.",
     PARSE, [("tokeniser loop and end-of-input handling", "pkg/ddl/postgres/lexar.go NextToken"), ("recursive-descent parser, every loop must consume", "pkg/ddl/postgres/parser.go Parse")],
     observe=["Parser.Parse", "DDL.String", "stdout/stderr of ddlctl diff"],
     level_note="Exploration: millions of hostile texts per dialect with a panic monitor and a 60 s watchdog per case; says nothing about texts not generated.",
     technique="runtime monitoring: panic monitor and watchdog over grammar-, mutation- and truncation-generated texts")
prop("P02", "What is parsed is exactly what the schema text declares",
     "Reading a valid CREATE TABLE / CREATE INDEX schema keeps every declared element with its meaning: tables in order, columns with type, length, nullability, default and other attributes, primary, unique, foreign and check constraints with their columns, references and actions, indexes, and table options. Nothing is dropped, invented, merged or attached to another element, and an unnamed constraint gets a name that is unique in its table.",
     ["inputs"], "every valid schema of the supported grammar in each dialect: any combination and order of column and table clauses, quoted, non-ASCII and keyword-like names, literals with quotes, comments and separators inside",
     GENERATED, PARSE + ff("ddl.go"), [("column clauses", "pkg/ddl/*/parser.go parseColumn"), ("table constraints and derived names", "pkg/ddl/*/parser.go parseTableConstraint, parseColumnConstraints"), ("literal and identifier tokens", "pkg/ddl/*/lexar.go")],
     observe=["the parsed schema rendered back to text and read by an independent interpreter"],
     level_note="Exploration over a random schema generator; the oracle is an independent SQL interpreter that reads both the generated source and the tool's rendering, cross-checked by the generator's model.",
     technique=MON)
prop("P03", "Rendering a parsed schema gives text that reads back the same",
     "The text the tool renders for a schema it has read is accepted by the tool again, describes the same schema, and rendering it once more gives the identical text.",
     ["inputs"], "every schema text the tool accepts", GENERATED, PARSE + ff("ddl.go", "ddl_table_create.go", "ddl_index_create.go"),
     [("rendering of statements, columns and constraints", "pkg/ddl/*/ddl*.go String"), ("parser", "pkg/ddl/*/parser.go")],
     observe=["DDL.String", "Parser.Parse"], level_note="Exploration: generated schemas plus the corpus of the repository's own examples, judged by a fixpoint and equality check.", technique=MON)
prop("P04", "Formatting, comments and spelling variants do not change the schema",
     "Two texts of one schema that differ only in white space, line breaks, comments, letter case of keywords, optional keywords, optional quoting of names, or synonymous type and action spellings are read as the same schema: no difference is reported between them. In postgres and cockroachdb this includes the letter case of unquoted names.",
     ["inputs"], "every valid schema and every meaning-preserving respelling of it in each dialect",
     "The tests cover single spellings; a difference caused by spelling makes the tool alter a live database for nothing, or forever.",
     PARSE + DIFF, [("comment and white space skipping", "pkg/ddl/*/lexar.go"), ("normalised comparison of names, types and expressions", "pkg/ddl/*/ddl.go StringForDiff")],
     observe=["Diff returns no difference"], level_note="Exploration: each generated schema is rendered in several random styles and every pair of readings compared, with the interpreter confirming that the texts mean the same.", technique=MON)
prop("P05", "Damaged schema text is rejected, never silently read in part",
     "When a schema text is malformed - a token missing, repeated, misplaced or unknown, or the text cut off - the tool either rejects it, or everything meaningful in the text is in what it understood. It never accepts a text while silently ignoring part of it, be it a column, a clause, a statement or the rest of the file.",
     ["inputs"], "every text obtained by removing, doubling, swapping, moving, replacing or inserting tokens of a valid schema, or cutting it off",
     "The tests list some hand-written malformed texts and their errors; a part lost in silence makes diff and apply drop live objects.",
     PARSE, [("checks of the current and the next token", "pkg/ddl/*/parser.go checkCurrentToken, checkPeekToken"), ("end of a statement", "pkg/ddl/*/parser.go parseCreateTableStmt, parseCreateIndexStmt")],
     observe=["error or the parsed schema rendered back"], level_note="Exploration of ~140k damaged texts per quick run; the oracle is a conservation law over names, literals and meaning-bearing keywords, so a loss of pure punctuation is not seen.",
     technique="runtime monitoring: conservation check of every meaningful token over damaged texts")
prop("D01", "A difference is reported exactly when the schemas differ",
     "Comparing two schemas reports no difference if and only if they mean the same. Every change of a column attribute, constraint, foreign key action, index (including uniqueness, method and sort order) or table, and the addition or removal of any of them, is reported.",
     ["inputs"], "every pair of schemas: random edits of a schema, unrelated schemas, equal ones, in each dialect; schema-level elements that one side leaves out by design (mysql table options, AUTO_INCREMENT counters) excepted",
     GENERATED, DIFF, [("comparison of statements", "pkg/ddl/*/diff.go Diff"), ("comparison of columns, constraints, options", "pkg/ddl/*/diff_create_table.go")],
     observe=["Diff result: statements or the no-difference error"], level_note="Exploration over schemas and edits; equality is decided by the independent interpreter, not by the tool.", technique=MON)
prop("D02", "Executing the diff brings the old schema to the new one",
     "Executing the statements of the diff from one schema to another, on a database holding the first, yields exactly the second: a further diff reports no difference.",
     ["inputs"], "every pair of schemas the tool can diff, in each dialect", GENERATED, DIFF, [("derivation of ALTER/CREATE/DROP statements", "pkg/ddl/*/diff_create_table.go DiffCreateTable"), ("rendering of ALTER statements", "pkg/ddl/*/ddl_table_alter.go")],
     observe=["the statements of Diff executed by the model database"], level_note="Exploration; the statements are executed by an independent model of the DDL of each dialect, which is trusted.", technique=MON)
prop("D03", "The diff touches nothing but what differs",
     "The statements of a diff only name objects that are different between the two schemas or that must be rebuilt because they depend on one: tables, columns, constraints and indexes that are equal on both sides are left alone, and no column or table holding data is dropped and recreated where an alteration exists.",
     ["inputs"], "every pair of schemas, in each dialect (spanner recreates a table whose primary key, interleaving or options change)",
     GENERATED, DIFF, [("pairing of columns and constraints by name", "pkg/ddl/*/diff_create_table.go")], observe=["the objects named by each statement of the diff"],
     level_note="Exploration; the touched objects of every statement are compared with the objects that the interpreter finds to differ.", technique=MON)
prop("D04", "The statements of a diff can be executed in the given order",
     "Every statement of a diff is valid when its turn comes: it never adds what exists, drops or alters what does not exist, references a table, column or key that is not there yet, or drops what something still depends on.",
     ["inputs"], "every pair of schemas of which the first is a valid database state, in each dialect, foreign key cycles between tables excepted",
     GENERATED, DIFF, [("order of the statements of a diff", "pkg/ddl/*/diff.go"), ("order within a table", "pkg/ddl/*/diff_create_table.go")], observe=["each statement checked against the model database before it is executed"],
     level_note="Exploration; the model database enforces existence, uniqueness of names and dependencies as the real engines do.", technique=MON)
prop("D05", "From nothing creates everything, to nothing drops everything",
     "The diff from an empty schema to a schema creates exactly that schema, and the diff from a schema to an empty one drops every object in it, in an order that can be executed.",
     ["inputs"], "every schema in each dialect", GENERATED, ff("diff.go"), [("empty before or after", "pkg/ddl/*/diff.go Diff")], observe=["the statements of Diff executed by the model database"],
     level_note="Exploration over generated schemas and the repository's own examples.", technique=MON)
prop("D06", "Comparing schemas is pure, repeatable and safe to run in parallel",
     "Comparing two schemas changes neither of them, gives the identical statements every time, and any number of readings and comparisons, also of shared schemas, can run at the same time without a data race or a different result.",
     ["inputs", "schedules"], "every pair of schemas; every interleaving of concurrent readings and comparisons", "The tests compare each pair once, sequentially, and never look at the operands afterwards.",
     DIFF + PARSE, [("copying of the operands", "pkg/ddl/*/diff_create_table.go"), ("no package-level mutable state", "pkg/ddl/*/")],
     observe=["deep dump of both operands before and after", "Go race detector"], level_note="Exploration: race detector and deep snapshots over thousands of pairs and goroutine schedules; happens-before races are found irrespective of the interleaving taken, on executed paths only.",
     technique="Go race detector, deep snapshots of the operands and result comparison across repetitions and goroutines")
prop("D07", "Comments in a diff never carry or hide a statement",
     "Explanatory comments that the tool writes into a diff are inert: with all comment lines removed the statements are the same, and no text of a schema, whatever quotes, line breaks or comment signs its literals and names contain, can make a comment swallow a statement or a statement escape from a comment.",
     ["inputs"], "every pair of schemas, with hostile literals and names", GENERATED, DIFF + ["pkg/internal/diff.go"] if False else DIFF, [("comments showing the difference", "pkg/ddl/*/ddl*.go Comment"), ("line prefixing", "github.com/kunitsucom/util.go/diff/simplediff output")],
     observe=["rendered diff with and without comments, tokenised independently"], level_note="Exploration with hostile literals; compares the executed token stream with the one of a comment-free rendering.", technique=MON)

prop("D08", "Two tables compared on their own: the difference makes one the other",
     "Comparing one table directly with another, of the same or of another name, gives statements that, executed in order on the first, leave exactly the second under its name, and reports no difference exactly when they are equal; against nothing the table is created or dropped. Asking for constraints that are not validated changes nothing but that every added foreign key and check constraint, and nothing else, is marked so, where the dialect knows it.",
     ["inputs"], "every pair of tables, in each dialect, of the same and of different names", GENERATED, ff("diff_create_table.go", "ddl_table_alter.go"), [("renaming, columns, constraints and options", "pkg/ddl/*/diff_create_table.go DiffCreateTable"), ("rendering of the changes", "pkg/ddl/*/ddl_table_alter.go")],
     observe=["statements of the comparison, executed by an independent interpreter"], level_note="Exploration: generated pairs of tables; the result is executed on a model database and compared with the model.", technique=MON)

CMD = "pkg/ddlctl/"
APPLY = [CMD + "apply/ddlctl_apply.go", CMD + "diff/ddlctl_diff.go", "pkg/internal/util/split_statements.go"]
SIM = "runtime monitoring: the real command line runs against a simulated database that records every call; "
NODB = "There is no unit test of the command line's database side at all: it needs a database, and one that fails at a chosen moment."
prop("A01", "What apply executes is exactly the plan it shows",
     "The statements that apply sends to the database are exactly the statements of the plan it has printed, each once, whole and in the printed order, and that plan is the one diff prints for the same two schemas. No text inside quotes, whatever separators, comment signs or line breaks it holds, makes apply split, merge, shorten or skip a statement, and nothing outside the plan is executed.",
     ["inputs"], "every pair of a database schema and a desired schema, in each dialect, with hostile names and literals", NODB, APPLY,
     [("statement splitting", "pkg/internal/util/split_statements.go SplitStatements"), ("execution loop", "pkg/ddlctl/apply/ddlctl_apply.go splitExec"), ("spanner batch", "pkg/ddlctl/apply/ddlctl_apply.go")],
     observe=["statements received by the database driver", "stdout of ddlctl apply and diff"], level_note="Exploration: apply is run as a process through the fake driver; executed statements are compared token by token with the printed plan, lexed by an independent tokeniser.",
     technique=SIM + "offline comparison of executed statements with the printed plan")
prop("A02", "Nothing is changed without approval",
     "Apply executes no statement before the user has answered the prompt with exactly yes or has given the automatic approval option. With any other answer, an empty or closed input, or no difference, the database receives nothing but reads, and the plan is always printed before the first change.",
     ["inputs", "histories"], "every answer on standard input, every way of giving or not giving automatic approval, every plan", NODB, APPLY,
     [("prompt", "pkg/ddlctl/apply/ddlctl_apply.go"), ("auto approval", "pkg/internal/config/auto_approve.go")], observe=["order of output and of database calls"],
     level_note="Exploration over answers (near misses of yes, white space, long and binary input, closed input) and approval settings, including interactive sessions where the answer is withheld until the prompt is seen.", technique=SIM + "ordering monitor over prompt, answer and execution events")
prop("A03", "Apply tells the truth about its outcome",
     "Apply exits successfully only if every statement of the plan was accepted by the database. If connecting, reading the schema, a statement, the batch or closing the connection fails for good, the exit status is not zero, the error of the database is reported in full, and no completion message is printed.",
     ["inputs", "crash_points"], "every plan and every place and number of database failures", NODB, APPLY + ["cmd/ddlctl/main.go"],
     [("collection of errors", "pkg/ddlctl/apply/ddlctl_apply.go splitExec"), ("deferred close", "pkg/ddlctl/apply/ddlctl_apply.go")], observe=["exit status, stdout, stderr, injected failures"],
     level_note="Fault enumeration: each call of a run is failed in turn, once and for ever, on generated plans of each dialect; mysql's duplicate errors are tolerated by design.", technique=SIM + "injected database faults at every call, with a monitor of exit status and output")
prop("A04", "Apply never repeats what has succeeded nor skips what has failed",
     "When statements fail and are retried, a statement that the database has accepted is never sent again, a statement that failed is sent again until it succeeds or the retries end, and the accepted statements are each executed exactly once. The run always ends.",
     ["histories", "crash_points"], "every plan and every pattern of statement failures", NODB, APPLY,
     [("retry loop", "pkg/ddlctl/apply/ddlctl_apply.go splitExec")], observe=["attempts per statement recorded by the database"],
     level_note="Fault enumeration over patterns of failing statements (transient, permanent, dependent on another statement, duplicate errors).", technique=SIM + "exactly-once monitor per statement under injected failures")
prop("A05", "Spanner changes run as one batch on one connection",
     "On spanner, apply opens a batch, sends all statements and runs the batch on one connection, in that order and once. If anything before the final step fails, the batch is never run, so either the whole plan is submitted or nothing is.",
     ["inputs", "crash_points"], "every spanner plan and every failing call", NODB, APPLY, [("batch", "pkg/ddlctl/apply/ddlctl_apply.go START BATCH DDL, RUN BATCH")], observe=["calls per connection"],
     level_note="Fault enumeration: each call of the run is failed in turn; the protocol is followed by a state machine per connection.", technique=SIM + "protocol state machine per connection under injected failures")
prop("A06", "Apply makes the database match, and then has nothing left to do",
     "After a successful apply the database holds exactly the desired schema; diff then reports no difference, and applying the same schema again executes nothing. This holds whatever form the database shows its schema in, for instance with indexes listed inside their table.",
     ["inputs", "histories"], "every database state and desired schema within what show of that database can express", NODB, APPLY + DIFF + ["pkg/show/spanner/show_create_all_tables.go", "pkg/show/mysql/show_create_all_tables.go", "pkg/show/cockroachdb/show_create_all_tables.go", "pkg/show/postgres/show_create_all_tables.go"],
     [("comparison with the shown schema", "pkg/ddl/*/diff.go Diff"), ("reading the database", "pkg/show/*/show_create_all_tables.go")], observe=["state of the simulated database after each run", "calls of the second run"],
     level_note="Exploration of three-step histories (apply, apply, diff); the simulated database executes statements with the independent interpreter and shows its schema in the server's own form.", technique=SIM + "the simulated database's state is compared with the desired schema after each step")

SHOW = ["pkg/ddlctl/show/ddlctl_show.go"] + ["pkg/show/%s/show_create_all_tables.go" % d for d in ("mysql", "postgres", "cockroachdb", "spanner")]
prop("S01", "Show prints the schema that the database holds",
     "What show prints for a database describes exactly the tables of its default schema: every table, column, type, default, key, constraint and index with its name, columns, order and options, and nothing of views, system tables, other schemas or other databases. The output is a valid schema with all names quoted where they need it, and the tool itself finds no difference between the database and what it has shown.",
     ["inputs"], "every database state within the SQL that the tool supports, in each dialect", NODB, SHOW,
     [("catalogue queries", "pkg/show/*/show_create_all_tables.go"), ("output", "pkg/ddlctl/show/ddlctl_show.go")], observe=["rows and queries exchanged with the database driver", "stdout of ddlctl show"],
     level_note="Exploration: the catalogue queries of postgres, mysql and spanner are executed by a SQL engine (SQLite) over catalogue rows of generated schemas, with views and other schemas as decoys; cockroachdb and mysql print their own statements. The catalogues are modelled after the documentation, no real server is available.",
     technique=SIM + "the printed schema is read by the independent interpreter and compared with the state the catalogue rows were made from")
prop("S02", "A schema means the same wherever it is read from",
     "Comparing two schemas gives the identical output and exit status whether each of them is read from a database or from a file that holds what show has printed for that database.",
     ["inputs"], "every pair of database states, each read in either way, in each dialect", NODB, SHOW + ["pkg/ddlctl/diff/ddlctl_diff.go"],
     [("resolution of the sources", "pkg/ddlctl/diff/ddlctl_diff.go")], observe=["stdout and exit status of ddlctl diff for the four combinations of sources"],
     level_note="Exploration over pairs of generated databases, most of them a few edits apart.", technique=SIM + "output of the four combinations of database and file compared byte by byte")
prop("S03", "Show and diff only read, and never present part of a schema as the whole",
     "Show and diff send nothing but reads to a database and leave it unchanged. When any call to the database fails, also in the middle of the rows of an answer, the command fails, reports the error of the database and prints no schema and no difference.",
     ["inputs", "crash_points"], "every database state and every failing call of a run", NODB, SHOW + ["pkg/ddlctl/diff/ddlctl_diff.go"],
     [("reading the database", "pkg/show/*/show_create_all_tables.go"), ("errors", "pkg/ddlctl/show/ddlctl_show.go")], observe=["every call of a run, its output and exit status"],
     level_note="Fault enumeration: each call of a run fails in turn, queries also in the middle of their rows, on generated databases of each dialect.", technique=SIM + "injected database faults at every call, with a monitor of calls, output and exit status")

GEN = ["pkg/ddlctl/generate/ddlctl_generate.go", "pkg/internal/lang/go/parse.go", "pkg/internal/lang/go/extract_source.go", "pkg/internal/lang/util/regex.go", "pkg/internal/generator/ddl_create_table.go", "pkg/internal/generator/ddl_create_index.go"] + ["pkg/internal/generator/dialect/%s/%s.go" % (d, f) for d in ("mysql", "postgres", "spanner") for f in ("create_table", "create_index")]
GENT = "The tests generate a handful of fixed source files and compare text; none computes what a source declares, and hardly any has unusual comments, tags or layouts."
prop("G01", "Generating from any Go source ends with DDL or an error",
     "For every source file or directory and every choice of tags, generating DDL ends promptly: it either succeeds or fails with a non-zero exit status and a message on standard error. It never panics, however odd the Go code, its struct tags, its annotations or the tag names are.",
     ["inputs"], "every Go source: valid, mutated, truncated, with odd struct fields, tags and comments, and every tag name", GENT,
     GEN, [("reading of struct fields and tags", "pkg/internal/lang/go/parse.go parseFile"), ("recognition of annotations", "pkg/internal/lang/go/extract_source.go")],
     observe=["exit status, stdout and stderr of ddlctl generate"], level_note="Exploration over generated, mutated and truncated sources and odd tag names, with a panic monitor and a watchdog.", technique="runtime monitoring: panic monitor and watchdog on the real tool over generated and mutated Go sources")
prop("G02", "Generated DDL is exactly what the annotated structs declare",
     "Every annotated struct becomes one table with the declared name, one column per annotated field in field order with the declared name and type, the primary key made of the tagged fields in order, and the declared constraints and options; every index annotation becomes one index statement. Each statement names the file and line of its annotation, and nothing is left out, invented, repeated or attached to another table.",
     ["inputs"], "every annotated Go source: any form of comment, annotation, declaration, field and struct tag, in each dialect", GENT,
     GEN, [("annotations", "pkg/internal/lang/go/extract_source.go"), ("fields", "pkg/internal/lang/go/parse.go parseFile"), ("rendering", "pkg/internal/generator/dialect/*/create_table.go")],
     observe=["the file written by ddlctl generate"], level_note="Exploration: a schema model is rendered as annotated Go source in many forms; the generated file is read by the independent SQL interpreter and compared with the model, statement by statement with its source line.", technique="runtime monitoring: generated DDL is read by an independent interpreter and compared with the model the source was made from")
prop("G03", "Prose and unrelated code do not leak into the generated statements",
     "Adding anything that is not an annotation - comments of any form and content, other struct tags, fields excluded from the table, other declarations - leaves the generated statements as they are. Whatever a comment contains, it stays a comment in the output.",
     ["inputs"], "every annotated source and every addition of comments, tags, fields and declarations to it", GENT,
     GEN, [("recognition of annotations", "pkg/internal/lang/go/extract_source.go"), ("comments in the output", "pkg/internal/generator/dialect/*/*.go fprintComment")],
     observe=["the file written by ddlctl generate"], level_note="Exploration: pairs of sources, with and without noise, compared token by token.", technique="runtime monitoring: metamorphic comparison of what is generated with and without prose and unrelated code")
prop("G04", "Generating the same source gives the identical file",
     "Generating the same source again gives the identical bytes, whatever the working directory, the number of processors and the number of runs, for files and for directories, in each dialect.",
     ["inputs", "schedules"], "every annotated source, run repeatedly under varied conditions", "The tests generate each source once; an order taken from a map differs from run to run.",
     GEN, [("order of statements", "pkg/internal/lang/go/parse.go parseFile"), ("order of annotations", "pkg/internal/lang/go/extract_source.go")],
     observe=["files written by repeated runs of ddlctl generate"], level_note="Exploration: several runs per source, with varied GOMAXPROCS, directory and path form, compared byte by byte.", technique="runtime monitoring: repeated runs compared byte by byte")
prop("G05", "Generate writes exactly its destination, or leaves it as it was",
     "A successful generate leaves exactly the generated text in the destination, whatever was in it before, and changes no other file. A generate that fails - for a broken or missing source, an unknown dialect or language, missing or superfluous arguments, or a destination that cannot be written - reports it with a non-zero exit status and leaves every file as it was, apart from a disk that fills up halfway.",
     ["inputs", "crash_points"], "every source, destination and fault of a run", "The tests look at the text of successful runs and at the errors, not at what a failed run leaves behind.",
     ["pkg/ddlctl/generate/ddlctl_generate.go"], [("writing of the destination", "pkg/ddlctl/generate/ddlctl_generate.go Command")],
     observe=["the whole directory tree before and after a run, exit status"], level_note="Fault enumeration: 18 situations per source, including full devices and file size limits.", technique="runtime monitoring: the directory tree before and after each run is compared under injected faults")
prop("G06", "A directory stands for all its Go files, wherever it is used",
     "Generating from a directory gives the statements of all its Go files, also in subdirectories, in the order of their paths, and nothing from test files, other files or files without annotations. Diff and apply treat such a directory exactly like the file that generate makes of it.",
     ["inputs"], "every directory tree of Go sources, in each dialect", GENT,
     GEN + ["pkg/ddlctl/diff/ddlctl_diff.go"], [("walk of the directory", "pkg/internal/lang/go/parse.go walkDirFn"), ("resolution of the sources", "pkg/ddlctl/diff/ddlctl_diff.go resolve")],
     observe=["files written by ddlctl generate, output of ddlctl diff, state of the simulated database after ddlctl apply"], level_note="Exploration over generated trees with decoys; the result is compared with the model, with the files one by one, and between diff and apply of either form.", technique="runtime monitoring: generated DDL compared with the model and with each file's own, diff and apply compared between source and generated file")

CLI = ["pkg/ddlctl/ddlctl.go", "cmd/ddlctl/main.go", "pkg/internal/config/config.go", "pkg/ddlctl/generate/ddlctl_generate.go", "pkg/ddlctl/show/ddlctl_show.go", "pkg/ddlctl/diff/ddlctl_diff.go", "pkg/ddlctl/apply/ddlctl_apply.go"]
CLIT = "The tests call the commands in-process with a few fixed argument lists and never look at the effects of a refused one."
prop("C01", "A command line that cannot be carried out is refused and does nothing",
     "Unknown commands and options, missing or superfluous arguments, options without a value, unknown dialects and languages, switches that are neither on nor off, and sources that are missing or unreadable all end with a non-zero exit status and a message, without a change to any file or database. Whatever the arguments are, the tool neither crashes nor hangs, only generate writes files and only apply changes databases; a command in order is carried out wherever its options stand.",
     ["inputs"], "every command line, environment and content of the named files", CLIT,
     CLI, [("commands and options", "pkg/ddlctl/ddlctl.go DDLCtl"), ("argument checks", "pkg/ddlctl/*/ddlctl_*.go Command")],
     observe=["exit status, stdout, stderr, the directory tree and the database calls of each run"], level_note="Exploration over valid commands, kinds of misuse and randomly shaken command lines in a scratch directory with a simulated database.", technique=SIM + "monitor of exit status, messages, files and database calls over command lines")
prop("C02", "The setting given closest to the command is the one in force",
     "Dialect, language, each of the three Go tags and automatic approval take the value of the option if given, else of the environment variable if set and not empty, else the default, each on its own, in every command that knows the setting. Without automatic approval from either, apply executes only after yes.",
     ["configurations"], "every combination of option, environment variable and default of all settings", "The tests set a few options one at a time; the interplay of options and environment of all settings is a large product.",
     CLI + ["pkg/internal/consts/cli.go"], [("options with environment variables and defaults", "pkg/ddlctl/ddlctl.go"), ("loading", "pkg/internal/config/*.go")],
     observe=["generated DDL that reads differently under each setting, diff output, database calls of apply"], level_note="Exploration of the product of sources and values of all settings; a tell-tale source shows each setting in force in the output.", technique=SIM + "settings in force are read off the output of a tell-tale source and off the calls of apply")
prop("C03", "Diagnostics change nothing but the diagnostics",
     "Debug and trace mode, by option or environment, change neither the standard output, nor the exit status, nor the files written, nor the calls made to a database, for any command, whether it succeeds or fails.",
     ["inputs", "configurations"], "every command with and without diagnostics", "The tests never run a command twice with different diagnostics.",
     CLI + ["pkg/logs/logger.go"], [("switching the loggers and the error constructor", "pkg/internal/config/config.go load")],
     observe=["stdout, exit status, files and database calls of each run"], level_note="Exploration over commands in order and misused, on all dialects.", technique=SIM + "runs with and without diagnostics compared in output, status, files and database calls")

LEVEL = {}
NOT_APPLICABLE = []
NOTES = "One Go harness, laid into the repository's module through a build overlay (nothing is written in /repo), monitors the real code. run.sh PROPERTY TIER; VERIF_SEED chooses the random streams. See DESIGN.md."
