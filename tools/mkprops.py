import json
A="pkg/ddlctl/apply/ddlctl_apply.go"; D="pkg/ddlctl/diff/ddlctl_diff.go"; G="pkg/ddlctl/generate/ddlctl_generate.go"; S="pkg/ddlctl/show/ddlctl_show.go"
DIA=["mysql","postgres","cockroachdb","spanner"]
DIFFS=[f"pkg/ddl/{d}/diff.go" for d in DIA]+[f"pkg/ddl/{d}/diff_create_table.go" for d in DIA]
PARS=[f"pkg/ddl/{d}/parser.go" for d in DIA]+[f"pkg/ddl/{d}/lexar.go" for d in DIA]
SHOWS=[f"pkg/show/{d}/show_create_all_tables.go" for d in DIA]
GOL=["pkg/internal/lang/go/parse.go","pkg/internal/lang/go/extract_source.go"]
P=[]
def p(id,title,st,over,text,why,files,mech,obs,hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=hook)))
p("C01","A successful apply leaves exactly the desired schema",
 "When `ddlctl apply` exits 0, the target database's schema equals the one obtained by executing the desired DDL source on an empty database of that dialect: the same tables, columns with their types and attributes, keys, constraints, indexes and options, and nothing left over. This holds for MySQL, PostgreSQL, CockroachDB and Spanner, whatever schema the database had before.",
 ["inputs","histories"],"every pair of current and desired schema expressible in the supported DDL, and every sequence of such migrations",
 "Unit tests compare the text of single diffs with golden strings; none executes the result against a database or checks the schema it leads to, nor sequences of migrations.",
 [A,D]+DIFFS+PARS,[("computes the ALTER/CREATE/DROP statements from the two parsed schemas","pkg/ddl/*/diff*.go"),("executes them","pkg/ddlctl/apply Apply/splitExec")],["exit status","catalog of the database after the run"])
p("C02","A second apply finds no difference and changes nothing",
 "After a successful `ddlctl apply`, running `ddlctl apply` or `ddlctl diff` again with the same desired source and no change in between reports no difference, asks for no approval, executes nothing and exits 0.",
 ["inputs","histories"],"every current/desired schema pair in the subset of DDL the dialect's own dump prints back in the form it was given",
 "Tests compare hand written left/right pairs; convergence depends on the round trip desired DDL -> database -> dump -> parser -> diff for every schema, which no test runs.",
 [A,D]+SHOWS+DIFFS,[("no-difference result of the schema diff","pkg/ddl/*/diff.go"),("dump of the live schema","pkg/show/*")],["stdout of the second run","statements received by the database"])
p("C03","Nothing is executed without explicit approval",
 "`ddlctl apply` sends no schema-changing statement to the database unless auto-approve was given or the operator's input line was exactly `yes`; any other input, end of input or a failed read of the input ends the run with a non-zero exit and an unchanged database. The full list of statements has been displayed before the approval is taken.",
 ["inputs","fault_sequences"],"every operator input, every way it is split into reads, read errors and end of input at any point, output failures at any point",
 "apply has no tests at all; the guarantee is over all inputs and I/O faults of the prompt.",
 [A],[("prompt accepts only 'yes'","pkg/ddlctl/apply prompt"),("auto-approve option","pkg/internal/config AutoApprove")],["statements received by the database","exit status","stdout before the first statement"])
p("C04","Only the displayed statements are executed, in order",
 "Every schema-changing statement `ddlctl apply` sends to the database is one of the statements it displayed for approval, unaltered; each pass over them is in the displayed order with none skipped, and nothing else is sent.",
 ["inputs","fault_sequences"],"every plan, including string literals and comments containing statement separators, newlines, comment markers or long lines, with any pattern of statement failures and retries",
 "apply has no tests; the display text is re-split and filtered before execution, which is input dependent.",
 [A,"pkg/internal/util"],[("plan text is split into statements","pkg/ddlctl/apply splitExec and Apply"),("comment removal","pkg/internal/util RemoveCommentsAndEmptyLines")],["displayed plan","statements received by the database"])
p("C05","Success is never reported when a statement did not take effect",
 "If any approved statement has not taken effect when `ddlctl apply` ends (database error, lost connection, lost acknowledgement, cancelled run, failed commit of a batch or failed output), the exit status is non-zero and `done` is not printed; an exit status of 0 implies the desired schema is in place.",
 ["fault_sequences","crash_points"],"every database operation of the run failing, once or persistently, with every error class, applied or not applied, and output failing at any point",
 "No test runs apply against a failing database.",
 [A],[("errors of every pass are collected; the last pass must be clean","pkg/ddlctl/apply splitExec"),("error propagation to the exit status","pkg/ddlctl, cmd/ddlctl")],["exit status","stdout","database catalog"])
p("C06","An interrupted apply is completed by running it again",
 "If `ddlctl apply` is killed, or the database fails, at any point of a migration, then once faults stop, repeating `ddlctl apply` with the same desired source reaches the desired schema and exits 0 within three runs, with no manual repair.",
 ["crash_points","fault_sequences"],"every crash point and database fault point of every migration in the supported subset",
 "Partially applied migrations are states no unit test constructs; there are as many as statements, faults and schema pairs.",
 [A,D]+DIFFS+SHOWS,[("plan is recomputed from the live schema each run","pkg/ddlctl/diff resolve"),("objects left behind or missing are diffed individually","pkg/ddl/*/diff*.go")],["exit status of the re-runs","database catalog"])
p("C07","Spanner changes go as one batch or not at all",
 "For Spanner, all approved statements are submitted as a single DDL batch on a single connection; if the run fails, is cancelled or is killed before the batch is run, no statement reaches the schema.",
 ["crash_points","fault_sequences","schedules"],"every fault, crash or cancellation point of the run",
 "There is no test of apply; atomicity depends on connection handling and on failure points.",
 [A],[("START BATCH DDL ... RUN BATCH on one pinned connection","pkg/ddlctl/apply Apply")],["batches received by the database","catalog"])
p("C08","Every run ends in bounded time and releases its connections",
 "Every `ddlctl` command terminates: a statement that keeps failing is retried at most once per statement of the plan with the fixed pause in between, so that a run lasts a bounded time; cancelling the run's context ends it without executing a further pass; and every database connection opened is closed when the command returns. No input, fault or cancellation makes it hang or panic.",
 ["fault_sequences","schedules","histories"],"every pattern of persistent, transient and slow failures and every cancellation time",
 "Termination under persistent failure depends on clocks and fault sequences that no test controls.",
 [A,S,D],[("bounded retry","pkg/ddlctl/apply splitExec"),("deferred close","pkg/ddlctl/apply Apply, pkg/ddlctl/show Show")],["simulated time at exit","number of statements sent","open connections at exit"])
p("C09","MySQL apply resolves reference order and transient errors itself",
 "With auto-approve, a MySQL migration that only creates tables (with foreign keys in any order of definition) and adds or modifies columns reaches the desired schema in one run without operator action, also when it meets transient statement failures, as long as these and the extra passes that the reference order needs are no more than the statements of the plan.",
 ["inputs","fault_sequences","schedules"],"every order of table definitions with acyclic forward references, and every placement of transient failures of up to the retry budget",
 "apply has no tests; the retry loop's behaviour depends on which statement fails in which pass.",
 [A],[("re-execution of the plan, tolerating objects that already exist","pkg/ddlctl/apply splitExec")],["exit status","catalog"])
p("C10","show and diff never change anything",
 "`ddlctl show` and `ddlctl diff` never send a schema-changing or data-changing statement, under any fault, and never write to any file; they leave every database and source exactly as they found it.",
 ["inputs","fault_sequences"],"every schema, source kind and fault",
 "show and diff have no tests against a database.",
 [S,D]+SHOWS,[("only catalogue queries are issued","pkg/show/*")],["statements received by the database","file system writes"])
p("C11","A failed or partial catalogue read is an error, never a smaller schema",
 "If any read of the live schema fails or is cut off (connection loss, query error, error in the middle of a result set, cancellation), `ddlctl show`, `diff` and `apply` exit non-zero; show and diff print no partial DDL and apply executes nothing.",
 ["fault_sequences","crash_points"],"every database call and every row position failing, with every error class",
 "No test feeds a failing result set; a truncated listing would turn into DROP or CREATE statements.",
 [S]+SHOWS,[("error checks on queries, scans and row iteration","pkg/show/*, util.go sqlz")],["exit status","stdout","statements received"])
p("C12","The dump recreates the schema",
 "The output of `ddlctl show`, executed on an empty database of the same dialect, recreates every table, column, key, constraint, index and option of the database it was taken from and no other (tables may be listed before tables they refer to), and does not depend on the order in which the database returns unordered rows.",
 ["inputs","schedules"],"every schema in the supported subset and every row order the database may return",
 "The show packages have no tests at all.",
 [S]+SHOWS,[("catalogue queries assembling the CREATE statements","pkg/show/*")],["stdout of show executed on a fresh database"])
p("C13","Diff is one plan, whatever the kind of source",
 "`ddlctl diff` of two schemas prints statements that, each executed once and in order on a database with the first schema, produce the second; describing the same schema as a SQL file, as a directory of annotated Go source or as a live database leads to the same resulting schema. Failure to write the plan gives a non-zero exit.",
 ["inputs","configurations","fault_sequences"],"every pair of schemas and every combination of source kinds",
 "Each source kind is tested separately against golden text and never against one another or a database.",
 [D]+DIFFS+GOL,[("source resolution","pkg/ddlctl/diff resolve")],["stdout of diff, executed"])
p("C14","Generated DDL is reproducible",
 "For a given source tree, options and dialect, `ddlctl generate` and `ddlctl diff` produce byte-identical output on every run, whatever the iteration order of maps and the order in which the file system lists directories.",
 ["schedules","inputs"],"every map iteration order and directory listing order, for every source tree",
 "Go randomises map iteration per run; tests with one table per file see one order or an order-insensitive case.",
 [G]+GOL+["pkg/internal/generator/ddl.go"],[("statements are sorted by source position","pkg/internal/lang/go/parse.go")],["generated file bytes","stdout"])
p("C15","Generate never loses the destination and never claims a partial file",
 "If `ddlctl generate` fails because of its source, its options or an error reading it, an existing destination file keeps its contents; if it exits 0, the destination holds the complete generated DDL, so any failure to open, write or close the destination gives a non-zero exit.",
 ["fault_sequences","inputs"],"every I/O operation of the run failing with every error, and every invalid source",
 "Generate's command has no test; only in-memory generation is tested.",
 [G],[("destination handling","pkg/ddlctl/generate Command")],["destination file contents","exit status"])
p("C16","Every annotated struct reaches the DDL, or generation fails",
 "For every source tree, `ddlctl generate` emits for every annotated struct one table with every tagged column in order, its constraints, options and every annotated index, for each dialect, such that executing the output gives the annotated schema; unreadable, truncated or syntactically invalid source files make it fail instead of producing a smaller schema.",
 ["inputs","fault_sequences"],"every annotated source tree and every read fault or truncation",
 "Golden tests cover a few fixtures; faults are not injected.",
 GOL+["pkg/internal/generator/dialect/mysql/create_table.go","pkg/internal/generator/dialect/postgres/create_table.go","pkg/internal/generator/dialect/spanner/create_table.go"],[("source walk and comment extraction","pkg/internal/lang/go")],["generated DDL executed on an empty database","exit status"])
p("C17","A damaged schema file is rejected, never read as a smaller schema",
 "Given a truncated, corrupted or partially read SQL schema file, `ddlctl diff` and `apply` either treat it as exactly the statements it contains or exit non-zero without executing anything; they never hang, crash or drop objects whose definition is in the file.",
 ["inputs","fault_sequences"],"every truncation point, byte corruption and read fault of every schema file",
 "Parser tests use well-formed inputs and some hand-picked errors, not every cut or corrupted byte.",
 [D]+PARS,[("lexer and parser errors","pkg/ddl/*/lexar.go, parser.go")],["exit status","statements received","catalog"])
p("C18","Concurrent applies never leave a wrong schema behind a success",
 "When two `ddlctl apply` runs with the same desired source overlap on one database in any interleaving, every run that exits 0 ends with the desired schema in place (unless an overlapping run that itself reports failure changes it afterwards), no table or column common to the old and desired schema is lost, and one further undisturbed run succeeds and finds or makes the schema as desired.",
 ["schedules"],"every interleaving of the database operations of two or three overlapping runs",
 "No test runs two commands; interleavings are not sampled at all.",
 [A,D],[("plan computed from the live schema, executed statement by statement, 'already exists' tolerated","pkg/ddlctl/apply")],["exit statuses","catalog identity of tables and columns"])
p("C19","Tables and columns kept by the desired schema keep their data",
 "A table or column that exists before and is in the desired schema is never dropped and recreated on the way, at any point of any run, faulty or not: it is altered in place, so that its stored data survives. (Spanner tables whose primary key or interleaving changes are the documented exception.)",
 ["inputs","histories","crash_points"],"every schema pair and every prefix of every plan, under faults and crashes",
 "Golden diffs check some pairs; data loss is a property of the executed history on every pair.",
 [A]+DIFFS,[("tables and columns are matched by name and altered in place","pkg/ddl/*/diff_create_table.go")],["identity of tables and columns in the database over the whole history"])
p("C20","Parsing printed DDL gives the same DDL",
 "For every parsed schema, printing it and parsing the print gives an equal schema, for each dialect.",
 ["inputs"],"every schema text the parser accepts",
 "Tests cover a fixed list of texts.",
 PARS,[("String methods mirror the parser","pkg/ddl/*/ddl_*.go")],["pkg/ddl/* Parse and String"])
p("C21","Options resolve as flag, then environment, then default",
 "Every option takes its value from the command line flag if present, else from its environment variable, else from its documented default.",
 ["configurations"],"every combination of flags and environment variables",
 "Tests cover some combinations.",
 ["pkg/ddlctl/ddlctl.go","pkg/internal/config/config.go"],[("option loading","util.go exp/cli, pkg/internal/config")],["behaviour of the command"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
import os
for x in P:
    for f in x['anchors']['files']:
        if not os.path.exists('/repo/'+f): print('missing',f)
    if x['statement'].count('. ')>3: print('long',x['id'])
