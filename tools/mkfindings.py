#!/usr/bin/env python3
"""Writes /verif/known_findings.json: defects of the tree that are left as they are, and repairs made."""
import json, os
K = lambda key, what: {"property": "C07", "key": key, "status": "known", "what": what}
out = [
 K("torn in-place write by buildifier", "buildifier rewrites a file in place (os.WriteFile truncates, then writes): killed in between, the file holds a beginning of its new text only"),
 K("torn in-place write by buildozer", "buildozer rewrites a file in place (os.WriteFile truncates, then writes): killed in between, the file holds a beginning of its new text only"),
 K("failed in-place write by buildifier", "buildifier rewrites a file in place: when the write fails (full disk), the file holds a beginning of its new text only"),
 K("failed in-place write by buildozer", "buildozer rewrites a file in place: when the write fails (full disk), the file holds a beginning of its new text only"),
]
F = [
 ("C01", "8bd3d2e", "a file listed twice was read while its first result was being written; it ended duplicated or truncated"),
 ("C03", "2cc16a5", "a failed read or write was forgotten when a later file had another problem, or with --format: exit status 0 or 4 and a report of success"),
 ("C06", "0a34985", "exit status 0 although the formatted standard input could not be written"),
 ("C19", "aecaeb7", "a configuration file that could not be examined was ignored in silence and the defaults were used"),
 ("C05", "27fe592", "a temporary file whose writing failed, or that followed an unremovable one, was left behind"),
 ("C16", "f089352", "unused-variable and uninitialized findings came in the order of a map iteration"),
 ("C28", "844270a", "when the BUILD file a label refers to could not be examined or read, another candidate was edited instead"),
 ("C11", "10a7fe7", "new_load and replace_load sorted the argument slice shared with the other targets of the command"),
 ("C06", "abf2c3c", "buildozer -stdout and print ended with success although their output could not be written; several goroutines wrote to one stdout (also C14)"),
 ("C12", "5ff94ca", "//package/...:x with a directory that could not be listed edited the rest and ended with success (also C28)"),
 ("C10", "e4ffca2", "one file named in several ways was rewritten by two workers at the same time, losing commands (also C11)"),
 ("C11", "a3a6eb7", "//BUILD:x was taken for the file /BUILD of the file system root (also C28)"),
 ("C28", "4163f3a", "a WORKSPACE file that could not be read was treated as one that defines no repository"),
 ("C11", "72a708f", "labels with a file name in the top-level directory got the package '.', so attribute labels were not shortened alike (also C14)"),
 ("C11", "02996d2", "BUCK files did not make a package, relative labels in them were resolved to the parent (also C14)"),
 ("C21", "ec90cd6", "a truncated parameter file or a short label made unused_deps panic"),
 ("C23", "bb34481", "the temporary directory stayed behind when the aspect could not be written"),
 ("C22", "f26f08d", "a removal was suggested although a jar that is used could not be identified"),
 ("C22", "6a3734c", "the outputs of an earlier build were used when the build could not be run"),
 ("C23", "7ae0686", "exit status 0 although the result file could not be written; its lines came in map order (also C16)"),
 ("C23", "881feb4", "the result file of the extra action was always empty: the wrong parameter file was read"),
 ("C23", "bf5efc4", "exit status 0 although the commands could not be written"),
 ("C22", "df4226f", "the dependency report of a failed compilation was used as evidence"),
 ("C24", "5949714", "generatetables ended with status 0 although its output could not be written"),
 ("C27", "bddee2f", "the launcher ended before its child after a signal, with status 0 for a child killed by a signal"),
 ("C22", "565a846", "an empty dependency report was taken as proof that everything is unused"),
 ("C21", "d327f69", "buildozer panicked on 'set kind' without a value and on use_repo commands without extension name"),
 ("C16", "90b4aca", "findings about docstrings, macros and package() came in the order of a map iteration"),
 ("C16", "318de13", "replace_load dropped replaced symbols or not, and ordered load symbols, depending on map order"),
 ("C17", "708b110", "the repository mapping of the first linted file's MODULE.bazel was used for all files of the process, also after a failed read; data race (also C18, C01)"),
 ("C08", "fc2a8f9", "a line break inside an unparenthesized tuple lost its backslash: buildifier made a file that it can't read again"),
 ("C08", "579594e", "the comment above a duplicate at the end of a list was lost, and the next run sorted the list because of that (also C01)"),
 ("C08", "f4d7397", "positional arguments behind named ones: the second run sorted more than the first"),
 ("C08", "320e07c", "the second run put a blank line between a one-line block and a comment behind it"),
 ("C08", "087778d", "the comment behind the header of a function without parameters moved to the end of another statement, in the second run further"),
 ("C08", "31998ac", "a comment in an empty parameter list led to a blank line that the second run removed"),
 ("C08", "c8c7bfe", "the second of several comments at the end of a line lost its indentation, which the second run changed"),
 ("C18", "8320ef6", "parsing wrote a line feed behind the end of the caller's bytes, into memory that other goroutines read"),
 ("C14", "fa7afef", "printing or editing pkg:__pkg__ of a file without package declaration left an empty one that later targets of the run printed or edited (also C11)"),
 ("C29", "a8b3a0c", "several targets of a batch were joined by commas to one invalid label"),
 ("C29", "c402966", "the call threw undefined when buildozer failed or was killed"),
]
for p, c, w in F:
    out.append({"property": p, "status": "fixed", "commit": c, "what": w, "record": f"fixed: property={p} {c} {w}"})
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json"), "w").write("[\n" + ",\n".join(" " + json.dumps(o) for o in out) + "\n]\n")
