#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One call of P() per property."""
import json, os
out = []
def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    out.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": hook}})

S, C, I, H, F, G = "schedules", "crash_points", "inputs", "histories", "fault_sequences", "configurations"
BF = "buildifier/buildifier.go"
BU = "buildifier/utils/utils.go"
BZ = "edit/buildozer.go"
UD = "unused_deps/unused_deps.go"

P("C01", "buildifier: formatting many files equals formatting each one alone",
  "For any list of files given to one in-place buildifier run, every file ends with exactly the bytes a run on that file alone would leave, whatever the number of files and the order in which the concurrent readers get their data. A file that needs no change is not written, and no other file, link or permission in the tree changes. Messages come out in argument order, once per file.",
  [S, I, G], "every list length (the reader count depends on it), every interleaving of the readers and the consumer, every read latency, mixed formatted/unformatted/broken files, symlinks, duplicate arguments",
  "The tests run a handful of one or two file invocations under whatever schedule the Go runtime picks, so only one reader goroutine ever exists; the striped hand-off between several readers and the sequential consumer is never exercised under another order.",
  [BF, BU], [("processFiles: striped channels, one consumer in argument order", BF), ("processFile: write only when bytes differ", BF)],
  [("ch[]", "one channel per reader, capacity 1", BF)], ["tree after the run", "stdout/stderr", "write system calls"])

P("C02", "buildifier: a file that fails does not affect the other files",
  "When some of the files of one run cannot be read, parsed or written, every other file of that run is still processed, with the same resulting bytes and messages as in a run without the failing ones. A file that could not be read or parsed is left byte for byte as it was, and the error message names that file.",
  [F, S, I], "every subset of files failing, each with any read/open/write error (EIO, EACCES, ENOENT because it vanished, EISDIR) or a syntax error, under every reader schedule",
  "I/O errors other than a missing file cannot be provoked by the shell tests, and none of them combines a failing file with several healthy ones across several readers.",
  [BF], [("per-file error handling with continue", BF)], (), ["tree after the run", "stderr", "exit status"])

P("C03", "buildifier: exit status and report are truthful under every I/O fault",
  "buildifier exits 0 only if every file could be read, parsed and, where required, written, and (in check and lint-warn mode, text format) nothing was found wrong; a failed read or write of a named file always ends in the internal-failure status (3) and a failure of standard input or output in a failing status, in every mode and output format. The machine-readable report never counts a file as valid or formatted, nor the run as successful, when that file could not be read or parsed.",
  [F, G, I], "every combination of mode (fix, check, diff, print_if_changed), lint mode and output format with a fault at any one of the system calls the run performs",
  "The tests never inject a failing read or write, so the status after such failures, and its combination with --format, is untested.",
  [BF, "buildifier/utils/diagnostics.go"], [("exit code accumulation in run/processFiles", BF), ("Diagnostics", "buildifier/utils/diagnostics.go")], (), ["exit status", "stdout report"])

P("C04", "read-only modes never modify the tree",
  "buildifier in check, diff and print-if-changed mode and as a stdin filter, with lint off or warn, and buildozer runs that only print or that write to standard output, never create, change, rename or remove anything in the user's tree, whatever I/O errors, helper failures or kills occur during the run. Temporary files, where a mode needs them, go to the temporary directory only.",
  [F, C, G], "every read-only mode, every fault at any system call of the run, a crash at any system call",
  "Tests check a few check-mode runs on healthy files; no test looks at the tree after a read-only run that met an error or was killed.",
  [BF, "buildifier/utils/tempfile.go", BZ], [("mode switch in processFile", BF), ("Stdout branch in rewrite", BZ)], (), ["every mutating system call and its path"])

P("C05", "no temporary files are left behind",
  "Whenever a buildifier or buildozer run ends by itself, normally or with an error, every temporary file it created has been removed, even if creating, writing or diffing some of them failed. A temporary file whose removal is refused does not stop the others from being removed.",
  [F, I], "any number of differing files, a fault (ENOSPC, EIO, EMFILE) at any system call, a failing or missing diff program",
  "No test injects a failing temporary-file write or a failing diff program; the leak shows only then.",
  ["buildifier/utils/tempfile.go", BF, BZ], [("TempFile.Clean deferred in run", BF)], (), ["temporary directory after the run"])

P("C06", "stdin/stdout filters: complete output or a failing exit status",
  "When buildifier or buildozer sends a result to standard output (stdin filter, print-if-changed, -stdout), exit status 0 (for buildozer: any status but its error status) means that the complete result was written, and each rewritten file appears as one contiguous piece. A read error or a short read of standard input never yields a result computed from the truncated input.",
  [F, S, I], "every chunking of stdin, read errors after any number of bytes, stdout that accepts any number of bytes before ENOSPC/EPIPE, any number of files written to one stdout by parallel workers",
  "Tests pipe small inputs through healthy pipes; a full disk or closed pipe behind stdout and a failing stdin are never produced.",
  [BF, BZ], [("stdin read and pipe mode", BF), ("Stdout branch of rewrite", BZ)], (), ["bytes accepted by stdout", "exit status"])

P("C07", "a crash leaves every file either old or new",
  "If buildifier or buildozer is killed at any point of a run, every file of the tree holds either exactly its previous bytes or exactly the bytes the complete run would have given it, and a file the run would not change is never touched. Files are never left half processed by a mix of commands.",
  [C, S, I], "a kill before, after or in the middle of any system call, at any point of any schedule",
  "No test kills the tools; crash points are outside what a unit test can place.",
  [BF, BZ, "file/file.go"], [("one single whole-file write per changed file", BF), ("WriteFile", "file/file.go")], (), ["tree at the crash point"])

P("C08", "rerunning after any fault or crash converges to the fault-free result",
  "After a run that was killed or met transient I/O errors, running the same formatting command again without faults gives every undamaged file exactly the bytes the fault-free run gives, and running it once more changes nothing and, in check mode, exits 0. No state from the failed run (temporary files, partial results) influences the later run.",
  [C, F, H], "histories of one to three faulty or killed runs over the same tree followed by fault-free runs",
  "Tests run the tool once per tree; histories with failed runs in front are never built.",
  [BF, BU], [("output is a function of the file bytes only", BF)], (), ["tree after each run", "exit status"])

P("C09", "buildozer: a failing command leaves its file untouched",
  "Without -k, if any command for a file fails, nothing is written for that file (nor printed with -stdout), while all other files are still processed as if it had not failed; with -k the remaining commands of that file are still executed. A write happens at most once per file and only with the result of the complete command list.",
  [S, I, F, G], "any mix of succeeding and failing commands and targets over any number of files, with and without -k, under any worker schedule and number of workers",
  "Tests run one file at a time with mostly succeeding commands and a single worker.",
  [BZ], [("rewrite returns before writing on the first error", BZ)], (), ["tree", "write system calls", "stderr"])

P("C10", "buildozer: results do not depend on worker count, scheduling or map order",
  "For a fixed set of commands and targets, the resulting tree, the exit status, and the set of per-file messages and output records are the same whatever the number of parallel workers, their interleaving, I/O timing and the order in which files are handed to them. Each file is rewritten by at most one worker.",
  [S, I, G], "any number of files, 1 to 200 workers, every interleaving, every order of handing out files, any way of naming the same file",
  "The tests use one or two files and observe a single schedule chosen by the runtime.",
  [BZ], [("worker pool in Buildozer, one channel, files keyed by path", BZ)], [("commandsByFile", "commands grouped per file", BZ)], ["tree", "exit status", "multiset of messages"])

P("C11", "buildozer: all commands for a file are applied once, in order",
  "All commands that refer to one BUILD file, given on the command line or in command files and under any spelling of the label (absolute, relative, with repository name, with or without the file name), are applied to it exactly once each, in the order given, as if they were given one by one, and end in one write. Commands of one target or file never alter the arguments seen by another.",
  [I, S, H], "any interleaving of commands for several files in any number of command files, any spelling of labels, any worker schedule",
  "The tests apply short command lists to a single target; sharing between targets, files and workers does not occur.",
  [BZ, "edit/edit.go"], [("appendCommands groups by file", BZ), ("InterpretLabelForWorkspaceLocation", "edit/edit.go")], (), ["tree", "write system calls per file"])

P("C12", "buildozer: exit status and messages are truthful under every I/O fault",
  "buildozer reports a file as fixed only after its new content has been written; it ends with its error status if any file could not be read, opened or written or any command failed, with the no-change status only if nothing was modified, and with 0 only if every requested change is in place. An error on reading, parsing, editing or writing one file never suppresses or changes the processing of the others (a failure to resolve a label or to list packages may stop the run, with a failing status, before anything is changed).",
  [F, S, I], "a fault at any stat/open/read/write call of any file, any number of files and workers",
  "No test injects I/O errors into buildozer.",
  [BZ, "file/file.go"], [("result collection and exit code in Buildozer", BZ)], (), ["exit status", "stderr", "tree"])

P("C13", "buildozer: a command file that cannot be read completely is not executed",
  "If reading any command file (or standard input) fails at any point, or a command file is missing, no file is modified and the run ends with a failing status. However the input is split into reads and however long its lines are, every command line of a completely read file is executed exactly once, comments and blank lines excepted.",
  [F, I], "read errors after any number of bytes, any chunking of reads, long lines, missing final newline, several command files",
  "Tests feed small in-memory readers which never fail and return everything at once.",
  [BZ], [("appendCommandsFromReader", BZ)], (), ["tree", "exit status"])

P("C14", "buildozer: printed records are complete and uncorrupted",
  "Output of print commands in text, JSON or protobuf form contains every record of every successfully read file exactly once and undamaged, those of one file in the order of its commands, whatever the schedule of the workers; a failure to write it ends in a failing status. A file that could not be read contributes an error and no invented record.",
  [S, F, I], "any number of files and workers, any schedule, short and failing writes of stdout",
  "Tests print from a single file to an in-memory buffer.",
  [BZ], [("records collected per file, written by one goroutine", BZ)], (), ["bytes on stdout", "exit status"])

P("C15", "buildozer: a failing external formatter never damages a file",
  "When an external formatter is configured and it cannot be started, exits with an error, is killed, or writes to its standard error, the file it was to format is left unchanged (nothing is written for it), an error naming the problem is reported and the run ends with the error status. Other files formatted successfully in the same run are written completely.",
  [F, S], "the formatter fails in any way (missing, killed after any number of output bytes, nonzero exit, noise on stderr) for any subset of the files",
  "Tests never run an external formatter.",
  [BZ], [("runBuildifier / buildifier hook", BZ)], (), ["tree", "exit status", "stderr"])

P("C16", "output is a function of the input only",
  "Two runs of the same tool on the same tree with the same arguments give the same bytes on standard output and in every file, and the same exit status, regardless of map iteration order, scheduling, time of day and process identity (only the order in which buildozer's messages about several files come out, and the names of temporary files and the times in the headers an external diff program prints, are left open). This covers formatting, lint warnings and fixes, their machine-readable reports, table and document generation, and unused_deps' commands.",
  [S, I, H], "every order of every map iteration in the code, every schedule, arbitrary clock and pid",
  "A test sees one random map order per run and compares sorted or single findings.",
  ["warn/warn.go", "warn/warn_control_flow.go", "warn/warn_macro.go", "warn/warn_bazel_api.go", "generatetables/generate_tables.go", UD, "edit/edit.go"], [("sorting before output", "warn/warn.go")], (), ["stdout", "files", "exit status"])

P("C17", "lint with faulty dependency files: no crash, nothing invented, others unaffected",
  "When linting needs other files of the workspace and those are missing, unreadable, malformed, cyclic or fail at any point while being read, lint still terminates normally, never modifies those files, and reports for the linted file every warning that does not depend on them. A loaded file that cannot be used is treated exactly like one that is absent, and each is read at most once per linted file.",
  [F, I, S], "any fault on any dependency read, any load graph including cycles and self loads, any number of linted files",
  "Tests use an in-memory reader that always succeeds or always returns nothing.",
  ["warn/multifile.go", "warn/warn_macro.go", BU], [("FileReader cache", "warn/multifile.go")], (), ["warnings", "read system calls", "tree"])

P("C18", "parsing, formatting and linting are safe to use concurrently",
  "Goroutines of one process may parse, format, lint and edit different files at the same time: each gets exactly the result it would get alone, and there is no data race. Files parsed separately share no mutable state.",
  [S, I], "any interleaving of 2 to 8 goroutines over parse, format, lint, fix and label operations on different files",
  "Existing tests are sequential; a race needs a particular interleaving and a race detector under a controlled scheduler.",
  ["build/lex.go", "build/rewrite.go", "build/print.go", "warn/warn.go", "edit/edit.go"], [("no package-level mutable state outside tables", "build/rewrite.go")], (), ["results per goroutine", "race reports"])

P("C19", "configuration and tables: applied completely or the run stops before editing",
  "If the configuration file or a tables file is missing, unreadable, truncated, malformed or fails while being read, buildifier and buildozer stop with a failing status before reading, changing or printing any BUILD file. They never fall back to other settings in silence.",
  [F, G, I], "a fault at any system call that reads configuration or tables, truncated and malformed content, every way of naming the file",
  "Tests load well-formed files from a healthy disk.",
  ["buildifier/config/config.go", "tables/jsonparser.go", BF, "buildozer/main.go"], [("Validate and LoadFile errors exit 2", BF)], (), ["exit status", "system calls on BUILD files"])

P("C20", "-r expansion is complete or fails",
  "A recursive buildifier run processes every Starlark file below the given (not overlapping) directories exactly once, in a fixed order that does not depend on timing, and nothing else (in particular nothing under .git). If any directory cannot be listed or examined, the run ends with the internal-failure status instead of silently processing a part.",
  [F, I, S], "any tree shape, a fault at any lstat/open/readdir of the walk, entries vanishing during the walk",
  "Tests walk one small healthy tree.",
  [BU, BF], [("ExpandDirectories", BU)], (), ["files processed", "exit status"])

P("C21", "every run terminates: no deadlock, hang or panic",
  "Every invocation of buildifier, buildozer and unused_deps ends within a bounded amount of work with an exit status, whatever the schedule, the number of files and workers, and whatever I/O errors, short reads or slow devices it meets. No fault makes a tool panic or wait forever.",
  [S, F, I], "any schedule, any fault at any system call, 0 to hundreds of files, 1 to 200 workers",
  "Deadlocks and fault-triggered panics need interleavings and errors the tests cannot produce.",
  [BF, BZ, UD], [("channel protocol between readers/workers and main", BF)], (), ["termination", "panics"])

P("C22", "unused_deps never recommends removing a dependency on bad evidence",
  "unused_deps prints a removal command only for a dependency that complete build evidence shows to be unused; when a query or build helper fails, or a parameter, dependency or jar file is missing, recognisably truncated or unreadable, it prints no removal command based on that file or target. With --keep_going a build that ends with status 1 gives evidence for what it built. A failure concerning one target does not change what is reported for the others.",
  [F, I], "any helper failing (not started, nonzero, killed after partial output), any fault or truncation on any evidence file, any number of targets",
  "Tests check single parsing helpers on healthy data; the pipeline with failing helpers is never run.",
  [UD, "unused_deps/jar_manifest.go"], [("per-target error handling in main", UD)], (), ["stdout commands"])

P("C23", "unused_deps cleans up and reports output failures",
  "The temporary aspect directory unused_deps creates is gone when the run ends, on success and on every error path, and the user's workspace is never modified. If its result file (extra-action mode) cannot be created or written completely, the run says so and ends with a failing status; with status 0 it holds exactly the unused direct dependencies of the action, one label per line.",
  [F, C], "a fault at any system call, any helper failure, result file on a full or failing disk",
  "Nothing in the tests runs the main flow or injects faults.",
  [UD], [("setupAspect and deferred removal", UD)], (), ["temporary directory", "exit status", "result file"])

P("C24", "generators write their complete output or fail",
  "The table generator and the warning-documentation generator exit with status 0 only when the complete generated text has reached its destination, and a recognisably damaged or unreadable input makes them fail without output that looks complete. On an intact input they succeed, and their output depends on the input file only.",
  [F, I, S], "input truncated or failing at any byte, output failing at any byte, any map order",
  "There are no tests of the generator commands.",
  ["generatetables/generate_tables.go", "warn/docs/docs.go"], [("write error handling", "warn/docs/docs.go")], (), ["output bytes", "exit status"])

P("C26", "diff mode: each differing file is shown exactly once and completely",
  "In diff mode the diff program is run exactly once per file that differs, in argument order, on the file's real name and a temporary file that at that moment holds the complete reformatted bytes; files that are already formatted or unreadable get no diff. A diff program that cannot be started makes the run fail, and nothing of the user's tree is modified.",
  [F, S, I, G], "any number of files, a fault at any temporary-file call, a diff program that fails in any way, sequential and multi-diff programs",
  "The shell test runs one healthy diff; faults and several files are not covered.",
  [BF, "differ/diff.go", "buildifier/utils/tempfile.go"], [("WriteTemp then Show", BF)], (), ["arguments of the diff program and the bytes of the files it is given"])

P("C27", "launcher: the child's exit status and signals are passed on",
  "The npm launcher starts exactly one native binary with exactly the user's arguments, inherited standard streams and the same directory and environment, writes nothing on standard output itself, and its own exit status is the child's; a child that dies of a signal or cannot be started gives a nonzero status. A termination signal sent to the launcher ends the child too and the launcher does not exit before it.",
  [S, F], "any exit status or fatal signal of the child, spawn failure, signals at any time before, during and after the child's life",
  "There is no test of the launcher.",
  ["launcher.js"], [("close handler and signal forwarding", "launcher.js")], (), ["process.exitCode", "signals sent to the child"])

P("C28", "commands act on the file the label names or on none",
  "buildozer edits for a label exactly the BUILD file that a fault-free run resolves that label to, relative to the workspace root; if examining or reading candidate files fails with anything but 'does not exist', it reports an error and edits no other file instead. The same holds for finding the workspace root.",
  [F, I], "a fault at any stat or open of any candidate file name or workspace marker, trees with several candidates, nested workspaces",
  "Tests resolve labels in healthy trees only.",
  [BZ, "edit/edit.go", "wspace/workspace.go"], [("candidate loop in rewrite", BZ), ("Find", "wspace/workspace.go")], (), ["paths written", "exit status"])

P("C29", "buildozer's Node binding carries out every batch and hides no failure",
  "A call of the npm binding starts the native buildozer exactly once, with the caller's flags and spawn options, and its effect on the workspace is that of the batches in order, every command of a batch on every of its targets. If buildozer exits with 0 or 3 the call returns exactly the non-blank lines it printed, in order; if it fails, is killed, times out, prints more than is kept or cannot be started, the call throws an Error instead of returning. The caller's values stay as they are.",
  [S, F, I], "any number of batches, commands and targets, any outcome of the process (status, signal, spawn failure, timeout, lost output), any schedule of and fault in the started buildozer",
  "The one test makes one call with one target that succeeds.",
  ["buildozer/npm/index.js", "launcher.js", BZ], [("runWithOptions", "buildozer/npm/index.js"), ("getNativeBinary", "launcher.js")], (), ["arguments and input of the process", "returned lines or thrown value", "files of the workspace"])

# -- pure functions of their input: no concurrency, clock, I/O or second party involved --
T = "pure function of one input; unit tests sample a few dozen golden files"
P("C41", "formatting is idempotent", "Formatting the output of a formatting run changes nothing.", [I], "every syntactically valid Starlark file", T, ["build/print.go", "build/rewrite.go"], [("printer", "build/print.go")])
P("C42", "formatting preserves the meaning of a file", "Parsing the formatted text gives the same program as the original up to the documented rewrites.", [I], "every valid file", T, ["build/print.go", "build/rewrite.go"], [("rewrites", "build/rewrite.go")])
P("C43", "no comment is lost or moved to another statement", "Every comment of the input appears exactly once in the formatted output, attached to the same statement.", [I], "every valid file", T, ["build/lex.go", "build/print.go"], [("comment assignment", "build/lex.go")])
P("C44", "the parser is total", "Every byte sequence gives either a syntax tree or a syntax error with a position inside the input.", [I], "every byte sequence", T, ["build/lex.go", "build/parse.y"], [("recover in Parse", "build/lex.go")])
P("C45", "lint fixes resolve the warning they claim to fix", "After an automatic fix the same file no longer triggers the fixed warning and otherwise means the same.", [I], "every valid file and warning category", T, ["warn/warn.go"], [("fixers", "warn/warn.go")])
P("C46", "each buildozer command has its documented effect and no other", "A command changes the attributes it documents of the targets it is addressed to and nothing else in the file.", [I], "every file, target and command", T, ["edit/buildozer.go", "edit/edit.go"], [("command table", "edit/buildozer.go")])
P("C47", "label parsing and shortening are inverse", "Shortening a label and resolving it again in the same package gives the same label.", [I], "every label and package", T, ["labels/labels.go"], [("Shorten, Equal", "labels/labels.go")])
P("C48", "a disabling comment suppresses exactly its warnings", "A disabling comment suppresses the named warnings in its scope and no other.", [I], "every file and comment placement", T, ["warn/warn.go"], [("DisabledWarning", "warn/warn.go")])
P("C49", "load statements stay consistent under edits", "After load edits every symbol is loaded once, from the requested file, and none that is used disappears.", [I], "every file and edit sequence", T, ["edit/edit.go"], [("AppendToLoad, ReplaceLoad", "edit/edit.go")])
P("C50", "flags override configuration", "For every setting a flag given explicitly overrides the configuration file.", [I, G], "every flag and configuration value", T, ["buildifier/config/config.go"], [("FlagSet over LoadFile", "buildifier/config/config.go")])

p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(p, "w") as f:
    for o in out:
        f.write(json.dumps(o, ensure_ascii=False) + "\n")
print(len(out), "properties")
