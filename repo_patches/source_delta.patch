From 8bd3d2e2ebf01d27340974285d7b6bd14dffe24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 01/41] fix: buildifier: process a file that is listed twice
 only once

The readers run ahead of the writer, so with the same file given twice the
second read could overlap the in-place write of the first result and the file
ended up with duplicated or truncated contents.
---
 buildifier/buildifier.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/buildifier/buildifier.go b/buildifier/buildifier.go
index 60124fc..fd807ec 100644
--- a/buildifier/buildifier.go
+++ b/buildifier/buildifier.go
@@ -196,7 +196,7 @@ func (b *buildifier) run(args []string) int {
 				return 3
 			}
 		}
-		diagnostics, exitCode = b.processFiles(files, tf)
+		diagnostics, exitCode = b.processFiles(uniqueFiles(files), tf)
 	}
 
 	diagnosticsOutput := diagnostics.Format(b.config.Format, b.config.Verbose)
@@ -218,6 +218,27 @@ func (b *buildifier) run(args []string) int {
 	return exitCode
 }
 
+// uniqueFiles drops repeated references to the same file. Files are read while others are being
+// written, so a file listed twice could be read while it's only partially written.
+func uniqueFiles(files []string) []string {
+	seen := make(map[string]bool)
+	unique := make([]string, 0, len(files))
+	for _, file := range files {
+		key := file
+		if absolute, err := filepath.Abs(key); err == nil {
+			key = absolute
+		}
+		if resolved, err := filepath.EvalSymlinks(key); err == nil {
+			key = resolved
+		}
+		if !seen[key] {
+			seen[key] = true
+			unique = append(unique, file)
+		}
+	}
+	return unique
+}
+
 func (b *buildifier) processFiles(files []string, tf *utils.TempFile) (*utils.Diagnostics, int) {
 	// Decide how many file reads to run in parallel.
 	// At most 100, and at most one per 10 input files.
-- 
2.43.0


From 2cc16a5f7c2308dfababb9a9a7a211501cf39c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 02/41] fix: buildifier: report I/O failures in the exit status
 in every mode

A file that could not be read or written was forgotten when a later file had
another problem, and with --format the run exited with 0 and reported success
although some files had not been read or the report could not be written.
---
 buildifier/buildifier.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/buildifier/buildifier.go b/buildifier/buildifier.go
index fd807ec..7c8c989 100644
--- a/buildifier/buildifier.go
+++ b/buildifier/buildifier.go
@@ -199,12 +199,21 @@ func (b *buildifier) run(args []string) int {
 		diagnostics, exitCode = b.processFiles(uniqueFiles(files), tf)
 	}
 
+	if exitCode == 3 {
+		diagnostics.Success = false
+	}
 	diagnosticsOutput := diagnostics.Format(b.config.Format, b.config.Verbose)
 	if b.config.Format != "" {
 		// Explicitly provided --format means the diagnostics are printed to stdout
-		fmt.Print(diagnosticsOutput)
-		// Exit code should be set to 0 so that other tools know they can safely parse the json
-		exitCode = 0
+		if _, err := fmt.Print(diagnosticsOutput); err != nil {
+			fmt.Fprintf(os.Stderr, "buildifier: error writing output: %v\n", err)
+			return 3
+		}
+		// Exit code should be set to 0 so that other tools know they can safely parse the json,
+		// unless the run failed and the report is incomplete.
+		if exitCode != 3 {
+			exitCode = 0
+		}
 	} else {
 		// --format is not provided, stdout is reserved for file contents
 		fmt.Fprint(os.Stderr, diagnosticsOutput)
@@ -292,7 +301,8 @@ func (b *buildifier) processFiles(files []string, tf *utils.TempFile) (*utils.Di
 		if fd != nil {
 			fileDiagnostics = append(fileDiagnostics, fd)
 		}
-		if newExitCode != 0 {
+		// An internal failure takes precedence over what was found in other files.
+		if newExitCode != 0 && exitCode != 3 {
 			exitCode = newExitCode
 		}
 	}
-- 
2.43.0


From 0a34985a9f091853e9f7422ff5187ef9f26125c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 03/41] fix: buildifier: fail if the formatted standard input
 cannot be written

---
 buildifier/buildifier.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/buildifier/buildifier.go b/buildifier/buildifier.go
index 7c8c989..2e048eb 100644
--- a/buildifier/buildifier.go
+++ b/buildifier/buildifier.go
@@ -384,7 +384,10 @@ func (b *buildifier) processFile(filename string, data []byte, displayFileNames
 	case "pipe":
 		// pipe mode - reading from stdin, writing to stdout.
 		// ("pipe" is not from the command line; it is set above in main.)
-		os.Stdout.Write(ndata)
+		if _, err := os.Stdout.Write(ndata); err != nil {
+			fmt.Fprintf(os.Stderr, "buildifier: error writing output: %v\n", err)
+			return fileDiagnostics, 3
+		}
 
 	case "fix":
 		// fix mode: update files in place as needed.
-- 
2.43.0


From aecaeb78fb492c021c6241b2aa2c7263d17e35f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 04/41] fix: buildifier: don't ignore a configuration file that
 cannot be examined

---
 buildifier/config/config.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/buildifier/config/config.go b/buildifier/config/config.go
index e9783b9..a8ff3a3 100644
--- a/buildifier/config/config.go
+++ b/buildifier/config/config.go
@@ -19,6 +19,7 @@ package config
 
 import (
 	"encoding/json"
+	"errors"
 	"flag"
 	"fmt"
 	"io"
@@ -62,6 +63,12 @@ func FindConfigPath(rootDir string) string {
 		},
 	)
 	if err != nil {
+		var pathErr *os.PathError
+		if errors.As(err, &pathErr) && !os.IsNotExist(err) {
+			// The file may exist but can't be examined. Let the caller fail to load it rather than
+			// ignore it.
+			return pathErr.Path
+		}
 		return ""
 	}
 	return filepath.Join(dirname, buildifierJSONFilename)
-- 
2.43.0


From 27fe59246c0a9d39d37875be3d0c51a8e89cb262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 05/41] fix: buildifier: remove temporary files that could not
 be written or follow an unremovable one

---
 buildifier/utils/tempfile.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/buildifier/utils/tempfile.go b/buildifier/utils/tempfile.go
index e5f5f77..a8b81c9 100644
--- a/buildifier/utils/tempfile.go
+++ b/buildifier/utils/tempfile.go
@@ -40,20 +40,23 @@ func (tf *TempFile) WriteTemp(data []byte) (file string, err error) {
 	}()
 
 	name := f.Name()
+	// Remember the file even if it can't be written, it has to be removed in any case.
+	tf.filenames = append(tf.filenames, name)
 	if _, err := f.Write(data); err != nil {
 		return "", fmt.Errorf("writing temporary file: %v", err)
 	}
-	tf.filenames = append(tf.filenames, name)
 	return name, nil
 }
 
-// Clean removes all created temporary files
+// Clean removes all created temporary files. A file that can't be removed doesn't keep the others
+// from being removed.
 func (tf *TempFile) Clean() error {
+	var firstErr error
 	for _, file := range tf.filenames {
-		if err := os.Remove(file); err != nil {
-			return err
+		if err := os.Remove(file); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
 	tf.filenames = []string{}
-	return nil
+	return firstErr
 }
-- 
2.43.0


From f089352148f939756c0266594255ae9a5f25c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 06/41] fix: warn: report unused and uninitialized variables in
 a fixed order

---
 warn/warn_control_flow.go | 45 +++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/warn/warn_control_flow.go b/warn/warn_control_flow.go
index 19206a2..5ed6ae2 100644
--- a/warn/warn_control_flow.go
+++ b/warn/warn_control_flow.go
@@ -20,6 +20,7 @@ package warn
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -392,6 +393,25 @@ func extractIdentsFromStmt(stmt build.Expr) (assigned, used map[*build.Ident]boo
 	return assigned, used
 }
 
+// sortedIdents returns the idents in the order in which they appear in the source code.
+func sortedIdents(idents map[*build.Ident]bool) []*build.Ident {
+	result := make([]*build.Ident, 0, len(idents))
+	for ident := range idents {
+		result = append(result, ident)
+	}
+	sort.Slice(result, func(i, j int) bool {
+		a, b := result[i], result[j]
+		if a.NamePos.Line != b.NamePos.Line {
+			return a.NamePos.Line < b.NamePos.Line
+		}
+		if a.NamePos.LineRune != b.NamePos.LineRune {
+			return a.NamePos.LineRune < b.NamePos.LineRune
+		}
+		return a.Name < b.Name
+	})
+	return result
+}
+
 // unusedVariableCheck checks for unused variables inside a given node `stmt` (either *build.File or
 // *build.DefStmt) and variables that are used in the current scope or subscopes,
 // but not defined here.
@@ -480,10 +500,10 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 			for symbol := range used {
 				usedSymbols[symbol.Name] = true
 			}
-			for symbol, isSuppressed := range assigned {
+			for _, symbol := range sortedIdents(assigned) {
 				if _, ok := definedSymbols[symbol.Name]; !ok {
 					definedSymbols[symbol.Name] = symbol
-					if isSuppressed {
+					if assigned[symbol] {
 						suppressedWarnings[symbol.Name] = true
 					}
 				}
@@ -513,6 +533,7 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 	// Do not warn on exportable variables.
 	ignoreTopLevel := (f.Type == build.TypeBzl || f.Type == build.TypeDefault) && root == f
 
+	scopeFindings := []*LinterFinding{}
 	for name, ident := range definedSymbols {
 		if _, ok := usedSymbols[name]; ok {
 			// The variable is used either in this scope or in a nested scope
@@ -525,7 +546,7 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 		if ignoreTopLevel && !strings.HasPrefix(name, "_") {
 			continue
 		}
-		findings = append(findings,
+		scopeFindings = append(scopeFindings,
 			makeLinterFinding(ident, fmt.Sprintf(`Variable %q is unused. Please remove it.`, ident.Name)))
 	}
 
@@ -541,11 +562,23 @@ func unusedVariableCheck(f *build.File, root build.Expr) (map[string]bool, []*Li
 			// The function is explicitly marked with @unused, ignore
 			continue
 		}
-		findings = append(findings,
+		scopeFindings = append(scopeFindings,
 			makeLinterFinding(def, fmt.Sprintf(`Function %q is unused. Please remove it.`, def.Name)))
 	}
 
-	return usedSymbolsFromOuterScope, findings
+	// Don't let the order of the findings depend on the order of the maps.
+	sort.Slice(scopeFindings, func(i, j int) bool {
+		a, b := scopeFindings[i], scopeFindings[j]
+		if a.Start.Line != b.Start.Line {
+			return a.Start.Line < b.Start.Line
+		}
+		if a.Start.LineRune != b.Start.LineRune {
+			return a.Start.LineRune < b.Start.LineRune
+		}
+		return a.Message < b.Message
+	})
+
+	return usedSymbolsFromOuterScope, append(findings, scopeFindings...)
 }
 
 func unusedVariableWarning(f *build.File) []*LinterFinding {
@@ -783,7 +816,7 @@ func findUninitializedVariables(stmts []build.Expr, previouslyInitialized map[st
 				// the comprehension.
 
 				_, used := extractIdentsFromStmt(expr)
-				for ident := range used {
+				for _, ident := range sortedIdents(used) {
 					callbackIfNeeded(ident)
 				}
 
-- 
2.43.0


From 844270a42f2c4a7483c1aee7f3f121b6ad0a475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 07/41] fix: buildozer: edit no other file if the one the label
 refers to can't be examined or read

---
 edit/buildozer.go   | 47 +++++++++++++++++++++++++++++++++------------
 edit/edit.go        | 33 ++++++++++++++++++++++---------
 wspace/workspace.go | 45 ++++++++++++++++++++++++++++++++++---------
 3 files changed, 95 insertions(+), 30 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 1b9c186..5665acd 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1144,22 +1144,26 @@ func rewrite(opts *Options, commandsForFile commandsForFile) *rewriteResult {
 		}
 	} else {
 		origName := name
+		candidates := []string{name}
 		for _, suffix := range BuildFileNames {
 			if strings.HasSuffix(name, "/"+suffix) {
-				name = strings.TrimSuffix(name, suffix)
+				candidates = nil
+				for _, buildFileName := range BuildFileNames {
+					candidates = append(candidates, strings.TrimSuffix(name, suffix)+buildFileName)
+				}
 				break
 			}
 		}
-		for _, suffix := range BuildFileNames {
-			name = name + suffix
+		for _, candidate := range candidates {
+			name = candidate
 			data, fi, err = file.ReadFile(name)
 			if err == nil {
 				break
 			}
-			name = strings.TrimSuffix(name, suffix)
-		}
-		if err != nil {
-			data, fi, err = file.ReadFile(name)
+			if !os.IsNotExist(err) && (fi == nil || !fi.IsDir()) {
+				// The file exists but can't be read, don't edit another one instead.
+				break
+			}
 		}
 		if err != nil {
 			err = errors.New("file not found or not readable")
@@ -1186,7 +1190,10 @@ func rewrite(opts *Options, commandsForFile commandsForFile) *rewriteResult {
 	for _, commands := range commandsForFile.commands {
 		target := commands.target
 		commands := commands.commands
-		_, _, absPkg, rule := InterpretLabelForWorkspaceLocation(opts.RootDir, target)
+		_, _, absPkg, rule, err := interpretLabel(opts.RootDir, target)
+		if err != nil {
+			return &rewriteResult{file: name, errs: []error{commandError(commands, target, err)}, records: records}
+		}
 		if label := labels.Parse(target); label.Package == stdinPackageName {
 			// Special-case: This is already absolute
 			absPkg = stdinPackageName
@@ -1273,7 +1280,20 @@ var EditFile = func(fi os.FileInfo, name string) error {
 // Given a target, whose package may contain a trailing "/...", returns all
 // existing BUILD file paths which match the package.
 func targetExpressionToBuildFiles(rootDir string, target string) []string {
-	file, _, _, _ := InterpretLabelForWorkspaceLocation(rootDir, target)
+	buildFiles, err := buildFilesForTarget(rootDir, target)
+	if err != nil {
+		return nil
+	}
+	return buildFiles
+}
+
+// buildFilesForTarget is like targetExpressionToBuildFiles, but returns an error if the files can't
+// be determined.
+func buildFilesForTarget(rootDir string, target string) ([]string, error) {
+	file, _, _, _, err := interpretLabel(rootDir, target)
+	if err != nil {
+		return nil, err
+	}
 	if rootDir == "" {
 		var err error
 		if file, err = filepath.Abs(file); err != nil {
@@ -1284,10 +1304,10 @@ func targetExpressionToBuildFiles(rootDir string, target string) []string {
 
 	suffix := filepath.Join("", "...", "BUILD") // /.../BUILD
 	if !strings.HasSuffix(file, suffix) {
-		return []string{file}
+		return []string{file}, nil
 	}
 
-	return findBuildFiles(strings.TrimSuffix(file, suffix))
+	return findBuildFiles(strings.TrimSuffix(file, suffix)), nil
 }
 
 // Given a root directory, returns all "BUILD" files in that subtree recursively.
@@ -1340,7 +1360,10 @@ func appendCommands(opts *Options, commandMap map[string][]commandsForTarget, ar
 		if label := labels.Parse(target); label.Package == stdinPackageName {
 			buildFiles = []string{stdinPackageName}
 		} else {
-			buildFiles = targetExpressionToBuildFiles(opts.RootDir, target)
+			buildFiles, err = buildFilesForTarget(opts.RootDir, target)
+			if err != nil {
+				return fmt.Errorf("resolving %s: %v", target, err)
+			}
 		}
 
 		for _, file := range buildFiles {
diff --git a/edit/edit.go b/edit/edit.go
index e56ee45..d58be8b 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -42,25 +42,40 @@ var (
 // edit, the full package name, and the rule. It takes a workspace-rooted
 // directory to use.
 func InterpretLabelForWorkspaceLocation(root, target string) (buildFile, repo, pkg, rule string) {
+	buildFile, repo, pkg, rule, _ = interpretLabel(root, target)
+	return buildFile, repo, pkg, rule
+}
+
+// interpretLabel is like InterpretLabelForWorkspaceLocation, but returns an error if the workspace
+// root or one of the files the label may refer to can't be examined.
+func interpretLabel(root, target string) (buildFile, repo, pkg, rule string, err error) {
 	label := labels.Parse(target)
 	repo = label.Repository
 	pkg = label.Package
 	rule = label.Target
-	rootDir, relativePath := wspace.FindWorkspaceRoot(root)
+	rootDir, relativePath, err := wspace.LocateWorkspaceRoot(root)
 	if repo != "" {
-		files, err := wspace.FindRepoBuildFiles(rootDir)
-		if err == nil {
+		files, filesErr := wspace.FindRepoBuildFiles(rootDir)
+		if filesErr == nil {
 			if buildFile, ok := files[repo]; ok {
-				return buildFile, repo, pkg, rule
+				return buildFile, repo, pkg, rule, err
 			}
 		}
-		return "", repo, pkg, rule
+		return "", repo, pkg, rule, err
+	}
+
+	isRegularFile := func(path string) bool {
+		isRegular, fileErr := wspace.CheckRegularFile(path)
+		if fileErr != nil && err == nil {
+			err = fileErr
+		}
+		return fileErr == nil && isRegular
 	}
 
 	defaultBuildFileName := "BUILD"
 	if strings.HasPrefix(target, "//") {
 		pkgPath := filepath.Join(rootDir, filepath.FromSlash(pkg))
-		if wspace.IsRegularFile(pkgPath) {
+		if isRegularFile(pkgPath) {
 			// allow operation on other files like WORKSPACE
 			buildFile = pkgPath
 			pkg = path.Dir(pkg)
@@ -68,14 +83,14 @@ func InterpretLabelForWorkspaceLocation(root, target string) (buildFile, repo, p
 		}
 		for _, buildFileName := range BuildFileNames {
 			buildFile = filepath.Join(pkgPath, buildFileName)
-			if wspace.IsRegularFile(buildFile) {
+			if isRegularFile(buildFile) {
 				return
 			}
 		}
 		buildFile = filepath.Join(pkgPath, defaultBuildFileName)
 		return
 	}
-	if wspace.IsRegularFile(filepath.FromSlash(pkg)) {
+	if isRegularFile(filepath.FromSlash(pkg)) {
 		// allow operation on other files like WORKSPACE
 		buildFile = pkg
 		pkg = filepath.Join(relativePath, filepath.FromSlash(path.Dir(pkg)))
@@ -85,7 +100,7 @@ func InterpretLabelForWorkspaceLocation(root, target string) (buildFile, repo, p
 	found := false
 	for _, buildFileName := range BuildFileNames {
 		buildFile = filepath.Join(pkg, buildFileName)
-		if wspace.IsRegularFile(buildFile) {
+		if isRegularFile(buildFile) {
 			found = true
 			break
 		}
diff --git a/wspace/workspace.go b/wspace/workspace.go
index 1587494..1bba102 100644
--- a/wspace/workspace.go
+++ b/wspace/workspace.go
@@ -18,10 +18,12 @@ limitations under the License.
 package wspace
 
 import (
+	"errors"
 	"os"
 	"path/filepath"
 	"sort"
 	"strings"
+	"syscall"
 
 	"github.com/bazelbuild/buildtools/build"
 )
@@ -32,15 +34,29 @@ const buildFile = "BUILD"
 // IsRegularFile returns true if the path refers to a regular file after
 // following symlinks.
 func IsRegularFile(path string) bool {
-	path, err := filepath.EvalSymlinks(path)
+	isRegular, err := CheckRegularFile(path)
+	return err == nil && isRegular
+}
+
+// CheckRegularFile is like IsRegularFile, but returns an error if it can't be
+// found out whether there is a regular file.
+func CheckRegularFile(path string) (bool, error) {
+	info, err := evalAndStat(path)
 	if err != nil {
-		return false
+		if os.IsNotExist(err) || errors.Is(err, syscall.ENOTDIR) {
+			return false, nil
+		}
+		return false, err
 	}
-	info, err := os.Stat(path)
+	return info.Mode().IsRegular(), nil
+}
+
+func evalAndStat(path string) (os.FileInfo, error) {
+	path, err := filepath.EvalSymlinks(path)
 	if err != nil {
-		return false
+		return nil, err
 	}
-	return info.Mode().IsRegular()
+	return os.Stat(path)
 }
 
 func isFile(fi os.FileInfo) bool {
@@ -77,17 +93,28 @@ func findContextPath(rootDir string) (string, error) {
 // the working directory if not.) It returns the path of the directory
 // containing the WORKSPACE file, and the rest.
 func FindWorkspaceRoot(rootDir string) (root string, rest string) {
+	root, rest, _ = LocateWorkspaceRoot(rootDir)
+	return root, rest
+}
+
+// LocateWorkspaceRoot is like FindWorkspaceRoot, but returns an error if it
+// can't be found out whether a directory is the workspace root. It's not an
+// error if there is no workspace root.
+func LocateWorkspaceRoot(rootDir string) (root string, rest string, err error) {
 	wd, err := findContextPath(rootDir)
 	if err != nil {
-		return "", ""
+		return "", "", err
 	}
 	if root, err = Find(wd, repoRootFiles); err != nil {
-		return "", ""
+		if os.IsNotExist(err) || errors.Is(err, syscall.ENOTDIR) {
+			err = nil
+		}
+		return "", "", err
 	}
 	if len(wd) == len(root) {
-		return root, ""
+		return root, "", nil
 	}
-	return root, wd[len(root)+1:]
+	return root, wd[len(root)+1:], nil
 }
 
 // Find searches from the given dir and up for the file that satisfies a condition of `rootFiles`
-- 
2.43.0


From 10a7fe7d8d5eb9c401d5aeef3d904a2b64bfb1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:51 +0000
Subject: [PATCH 08/41] fix: buildozer: don't change the arguments of new_load
 and replace_load, other targets share them

---
 edit/buildozer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 5665acd..5353283 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -283,7 +283,7 @@ func findInsertionIndex(env CmdEnvironment) (bool, int, error) {
 // splitLoadArgs splits arguments of form <[to=]from>
 // into a slice of froms and a slice of tos.
 func splitLoadArgs(args []string) ([]string, []string) {
-	from := args
+	from := append([]string{}, args...)
 	to := append([]string{}, args...)
 	for i := range from {
 		if s := strings.SplitN(from[i], "=", 2); len(s) == 2 {
-- 
2.43.0


From abf2c3c3d2bd418c9f56686360938aa25263179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 09/41] fix: buildozer: fail if the output can't be written,
 write it from one goroutine only

---
 edit/buildozer.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 5353283..073cba7 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1077,6 +1077,7 @@ type rewriteResult struct {
 	errs     []error
 	modified bool
 	records  []*apipb.Output_Record
+	output   []byte // new contents, if it should be written to OutWriter
 }
 
 // getGlobalVariables returns the global variable assignments in the provided list of expressions.
@@ -1252,8 +1253,7 @@ func rewrite(opts *Options, commandsForFile commandsForFile) *rewriteResult {
 	}
 
 	if opts.Stdout || name == stdinPackageName {
-		opts.OutWriter.Write(ndata)
-		return &rewriteResult{file: name, errs: errs, records: records}
+		return &rewriteResult{file: name, errs: errs, records: records, output: ndata}
 	}
 
 	if bytes.Equal(data, ndata) {
@@ -1527,23 +1527,36 @@ func Buildozer(opts *Options, args []string) int {
 		if fileResults.records != nil {
 			records = append(records, fileResults.records...)
 		}
+		if len(fileResults.output) > 0 {
+			if _, err := opts.OutWriter.Write(fileResults.output); err != nil {
+				fmt.Fprintf(opts.ErrWriter, "%s: error writing output: %s\n", fileResults.file, err)
+				hasErrors = true
+			}
+		}
 	}
 
+	var output bytes.Buffer
 	if opts.IsPrintingProto {
 		data, err := proto.Marshal(&apipb.Output{Records: records})
 		if err != nil {
 			log.Fatal("marshaling error: ", err)
 		}
-		fmt.Fprintf(opts.OutWriter, "%s", data)
+		output.Write(data)
 	} else if opts.IsPrintingJSON {
 		marshaler := jsonpb.Marshaler{}
-		if err := marshaler.Marshal(opts.OutWriter, &apipb.Output{Records: records}); err != nil {
+		if err := marshaler.Marshal(&output, &apipb.Output{Records: records}); err != nil {
 			log.Fatal("json marshaling error: ", err)
 		}
-		fmt.Fprintln(opts.OutWriter)
+		fmt.Fprintln(&output)
 	} else {
 		for _, record := range records {
-			printRecord(opts.OutWriter, record)
+			printRecord(&output, record)
+		}
+	}
+	if output.Len() > 0 {
+		if _, err := opts.OutWriter.Write(output.Bytes()); err != nil {
+			fmt.Fprintf(opts.ErrWriter, "error writing output: %s\n", err)
+			hasErrors = true
 		}
 	}
 
-- 
2.43.0


From 5ff94ca281461aa7c0c43fe32529f081ec2c08e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 10/41] fix: buildozer: fail if a directory below //package/...
 can't be listed

---
 edit/buildozer.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 073cba7..1d77479 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1307,11 +1307,11 @@ func buildFilesForTarget(rootDir string, target string) ([]string, error) {
 		return []string{file}, nil
 	}
 
-	return findBuildFiles(strings.TrimSuffix(file, suffix)), nil
+	return findBuildFiles(strings.TrimSuffix(file, suffix))
 }
 
 // Given a root directory, returns all "BUILD" files in that subtree recursively.
-func findBuildFiles(rootDir string) []string {
+func findBuildFiles(rootDir string) ([]string, error) {
 	var buildFiles []string
 	searchDirs := []string{rootDir}
 
@@ -1321,9 +1321,12 @@ func findBuildFiles(rootDir string) []string {
 		searchDirs = searchDirs[:lastIndex]
 
 		dirFiles, err := os.ReadDir(dir)
-		if err != nil {
+		if os.IsNotExist(err) {
 			continue
 		}
+		if err != nil {
+			return nil, err
+		}
 
 		for _, dirFile := range dirFiles {
 			if dirFile.IsDir() {
@@ -1338,7 +1341,7 @@ func findBuildFiles(rootDir string) []string {
 		}
 	}
 
-	return buildFiles
+	return buildFiles, nil
 }
 
 // appendCommands adds the given commands to be applied to each of the given targets
-- 
2.43.0


From e4ffca203807d090df5bc3c2dfd42017f7884404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:45 +0000
Subject: [PATCH 11/41] fix: buildozer: edit a file that is named in several
 ways only once at a time

---
 edit/buildozer.go | 82 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 64 insertions(+), 18 deletions(-)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 1d77479..bc9d5d3 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -29,6 +29,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -1294,22 +1295,42 @@ func buildFilesForTarget(rootDir string, target string) ([]string, error) {
 	if err != nil {
 		return nil, err
 	}
-	if rootDir == "" {
-		var err error
-		if file, err = filepath.Abs(file); err != nil {
-			fmt.Printf("Cannot make path absolute: %s\n", err.Error())
-			os.Exit(1)
-		}
+	if file, err = filepath.Abs(file); err != nil {
+		fmt.Printf("Cannot make path absolute: %s\n", err.Error())
+		os.Exit(1)
 	}
 
 	suffix := filepath.Join("", "...", "BUILD") // /.../BUILD
 	if !strings.HasSuffix(file, suffix) {
-		return []string{file}, nil
+		file, err = preferredBuildFile(file)
+		return []string{file}, err
 	}
 
 	return findBuildFiles(strings.TrimSuffix(file, suffix))
 }
 
+// preferredBuildFile returns the BUILD file that takes precedence over the given BUILD file because
+// it's in the same directory, or the given file if there's no such BUILD file.
+func preferredBuildFile(file string) (string, error) {
+	dir, base := filepath.Split(file)
+	for i, buildFileName := range BuildFileNames {
+		if base != buildFileName {
+			continue
+		}
+		for _, preferredName := range BuildFileNames[:i] {
+			preferred := filepath.Join(dir, preferredName)
+			isRegular, err := wspace.CheckRegularFile(preferred)
+			if err != nil {
+				return "", err
+			}
+			if isRegular {
+				return preferred, nil
+			}
+		}
+	}
+	return file, nil
+}
+
 // Given a root directory, returns all "BUILD" files in that subtree recursively.
 func findBuildFiles(rootDir string) ([]string, error) {
 	var buildFiles []string
@@ -1328,15 +1349,18 @@ func findBuildFiles(rootDir string) ([]string, error) {
 			return nil, err
 		}
 
+		fileNames := make(map[string]bool)
 		for _, dirFile := range dirFiles {
 			if dirFile.IsDir() {
 				searchDirs = append(searchDirs, filepath.Join(dir, dirFile.Name()))
 			} else {
-				for _, buildFileName := range BuildFileNames {
-					if dirFile.Name() == buildFileName {
-						buildFiles = append(buildFiles, filepath.Join(dir, dirFile.Name()))
-					}
-				}
+				fileNames[dirFile.Name()] = true
+			}
+		}
+		for _, buildFileName := range BuildFileNames {
+			if fileNames[buildFileName] {
+				buildFiles = append(buildFiles, filepath.Join(dir, buildFileName))
+				break
 			}
 		}
 	}
@@ -1464,6 +1488,26 @@ func printRecord(writer io.Writer, record *apipb.Output_Record) {
 	fmt.Fprint(writer, strings.Join(line, " ")+"\n")
 }
 
+// groupByFile puts the commands for paths that lead to the same file (e.g. because of symbolic
+// links) together, they can't be executed in parallel.
+func groupByFile(commandsByFile map[string][]commandsForTarget) map[string][]commandsForFile {
+	paths := make([]string, 0, len(commandsByFile))
+	for path := range commandsByFile {
+		paths = append(paths, path)
+	}
+	sort.Strings(paths)
+
+	groups := make(map[string][]commandsForFile)
+	for _, path := range paths {
+		realPath, err := filepath.EvalSymlinks(path)
+		if err != nil {
+			realPath = path
+		}
+		groups[realPath] = append(groups[realPath], commandsForFile{path, commandsByFile[path]})
+	}
+	return groups
+}
+
 // Buildozer loops over all arguments on the command line fixing BUILD files.
 func Buildozer(opts *Options, args []string) int {
 	if opts.OutWriter == nil {
@@ -1493,22 +1537,24 @@ func Buildozer(opts *Options, args []string) int {
 		runtime.GOMAXPROCS(opts.Parallelism)
 	}
 	results := make(chan *rewriteResult, numFiles)
-	data := make(chan commandsForFile)
+	data := make(chan []commandsForFile)
 
 	if opts.NumIO < 1 {
 		fmt.Fprintf(opts.ErrWriter, "NumIO must be at least 1; got %d (are you using `NewOpts`?)\n", opts.NumIO)
 		return 1
 	}
 	for i := 0; i < opts.NumIO; i++ {
-		go func(results chan *rewriteResult, data chan commandsForFile) {
-			for commandsForFile := range data {
-				results <- rewrite(opts, commandsForFile)
+		go func(results chan *rewriteResult, data chan []commandsForFile) {
+			for filesToRewrite := range data {
+				for _, commandsForFile := range filesToRewrite {
+					results <- rewrite(opts, commandsForFile)
+				}
 			}
 		}(results, data)
 	}
 
-	for file, commands := range commandsByFile {
-		data <- commandsForFile{file, commands}
+	for _, filesToRewrite := range groupByFile(commandsByFile) {
+		data <- filesToRewrite
 	}
 	close(data)
 	records := []*apipb.Output_Record{}
-- 
2.43.0


From a3a6eb79566a1a43b7ed2bf27e78e3a07e793836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:16 +0000
Subject: [PATCH 12/41] fix: buildozer: //BUILD is the BUILD file of the
 workspace root, not of the file system root

---
 edit/buildozer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index bc9d5d3..9b4a600 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1383,6 +1383,10 @@ func appendCommands(opts *Options, commandMap map[string][]commandsForTarget, ar
 				target = strings.TrimSuffix(target, "/"+buildFileName) + ":__pkg__"
 			}
 		}
+		if target == "/:__pkg__" {
+			// "//BUILD" is the BUILD file of the top-level package, not of the file system root.
+			target = "//:__pkg__"
+		}
 		var buildFiles []string
 		if label := labels.Parse(target); label.Package == stdinPackageName {
 			buildFiles = []string{stdinPackageName}
-- 
2.43.0


From 4163f3ab3cb7e876bedb18325d998c75bef6df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:30 +0000
Subject: [PATCH 13/41] fix: buildozer: fail if the WORKSPACE file that defines
 a repository can't be read

---
 edit/edit.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edit/edit.go b/edit/edit.go
index d58be8b..b6edd23 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -20,6 +20,7 @@ package edit
 
 import (
 	"fmt"
+	"os"
 	"path"
 	"path/filepath"
 	"regexp"
@@ -60,6 +61,8 @@ func interpretLabel(root, target string) (buildFile, repo, pkg, rule string, err
 			if buildFile, ok := files[repo]; ok {
 				return buildFile, repo, pkg, rule, err
 			}
+		} else if err == nil && !os.IsNotExist(filesErr) {
+			err = filesErr
 		}
 		return "", repo, pkg, rule, err
 	}
-- 
2.43.0


From 72a708f3e0b3dd09537378c3beb745d88b807555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:49 +0000
Subject: [PATCH 14/41] fix: buildozer: the package of a label with a file name
 in the top-level directory is empty, not '.'

---
 edit/edit.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index b6edd23..994a56f 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -81,7 +81,7 @@ func interpretLabel(root, target string) (buildFile, repo, pkg, rule string, err
 		if isRegularFile(pkgPath) {
 			// allow operation on other files like WORKSPACE
 			buildFile = pkgPath
-			pkg = path.Dir(pkg)
+			pkg = parentPackage(pkg)
 			return
 		}
 		for _, buildFileName := range BuildFileNames {
@@ -96,7 +96,7 @@ func interpretLabel(root, target string) (buildFile, repo, pkg, rule string, err
 	if isRegularFile(filepath.FromSlash(pkg)) {
 		// allow operation on other files like WORKSPACE
 		buildFile = pkg
-		pkg = filepath.Join(relativePath, filepath.FromSlash(path.Dir(pkg)))
+		pkg = filepath.Join(relativePath, filepath.FromSlash(parentPackage(pkg)))
 		return
 	}
 
@@ -116,6 +116,14 @@ func interpretLabel(root, target string) (buildFile, repo, pkg, rule string, err
 	return
 }
 
+// parentPackage returns the package that contains the given file.
+func parentPackage(file string) string {
+	if pkg := path.Dir(file); pkg != "." {
+		return pkg
+	}
+	return "" // the top-level package
+}
+
 // InterpretLabel returns the name of the BUILD file to edit, the full
 // package name, and the rule. It uses the pwd for resolving workspace file paths.
 func InterpretLabel(target string) (buildFile string, pkg string, rule string) {
-- 
2.43.0


From 02996d255c3134a9d308fd59f310aa9f4a9c27ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:06 +0000
Subject: [PATCH 15/41] fix: wspace: a BUCK file makes a package, labels in it
 are relative to it

---
 wspace/workspace.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wspace/workspace.go b/wspace/workspace.go
index 1bba102..f71b2b6 100644
--- a/wspace/workspace.go
+++ b/wspace/workspace.go
@@ -79,6 +79,7 @@ var repoRootFiles = map[string]func(os.FileInfo) bool{
 var packageRootFiles = map[string]func(os.FileInfo) bool{
 	buildFile:            isFile,
 	buildFile + ".bazel": isFile,
+	"BUCK":               isFile,
 }
 
 // findContextPath finds the context path inside of a WORKSPACE-rooted source tree.
-- 
2.43.0


From ec90cd62bb00a77e53eac19e132b49693296d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 16/41] fix: unused_deps: a truncated parameter file or a short
 label must not make the tool panic

---
 unused_deps/unused_deps.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index ef5d8f4..ffea3eb 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -166,6 +166,9 @@ func directDepParams(blazeOutputPath string, paramsFileNames ...string) (depsByJ
 			continue
 		}
 		first := arg + len(directDepsFlag) + 1
+		if first > len(data) {
+			continue
+		}
 
 		scanner := bufio.NewScanner(bytes.NewReader(data[first:]))
 		for scanner.Scan() {
@@ -278,7 +281,7 @@ func printCommands(label string, deps map[string]bool) (anyCommandPrinted bool)
 					continue
 				}
 				buildLabel := str.Value
-				if repo != "" && buildLabel[:2] == "//" {
+				if repo != "" && strings.HasPrefix(buildLabel, "//") {
 					buildLabel = fmt.Sprintf("@%s%s", repo, str.Value)
 				}
 				if !labels.Equal(buildLabel, dep, pkg) {
-- 
2.43.0


From bb344814dad5e667f98fd6bba91e6fc57dbe40cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:42 +0000
Subject: [PATCH 17/41] fix: unused_deps: remove the temporary directory if the
 aspect cannot be written

---
 unused_deps/unused_deps.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index ffea3eb..832d599 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -310,10 +310,12 @@ func setupAspect() (string, error) {
 	}
 	for _, f := range []string{"WORKSPACE", "BUILD"} {
 		if err := os.WriteFile(path.Join(tmp, f), []byte{}, 0666); err != nil {
+			os.RemoveAll(tmp)
 			return "", err
 		}
 	}
 	if err := os.WriteFile(path.Join(tmp, "unused_deps.bzl"), []byte(aspect), 0666); err != nil {
+		os.RemoveAll(tmp)
 		return "", err
 	}
 	return tmp, nil
-- 
2.43.0


From f26f08d51434ca57d7a989f7a272c6ca0553bb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 18/41] fix: unused_deps: don't suggest a removal if a jar that
 is used can't be identified

---
 unused_deps/jar_manifest.go |  8 ++++++--
 unused_deps/unused_deps.go  | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/unused_deps/jar_manifest.go b/unused_deps/jar_manifest.go
index af6f65b..86360ad 100644
--- a/unused_deps/jar_manifest.go
+++ b/unused_deps/jar_manifest.go
@@ -18,6 +18,7 @@ package main
 
 import (
 	"archive/zip"
+	"errors"
 	"fmt"
 	"io"
 	"strings"
@@ -51,6 +52,9 @@ func manifestIndexNewline(manifest string) (int, int, error) {
 	return r, r + 1, nil
 }
 
+// errNoManifestValue is returned (wrapped) for a readable jar file without the requested value.
+var errNoManifestValue = errors.New("no such value")
+
 // jarManifestValue returns the value associated with key in the manifest of
 // the jar file named jarFileName.
 func jarManifestValue(jarFileName string, key string) (string, error) {
@@ -79,7 +83,7 @@ func jarManifestValue(jarFileName string, key string) (string, error) {
 
 		found := strings.Index(contents, key+":")
 		if found < 0 {
-			return "", fmt.Errorf("manifest of jar %s contains no key %s", jarFileName, key)
+			return "", fmt.Errorf("manifest of jar %s contains no key %s: %w", jarFileName, key, errNoManifestValue)
 		}
 
 		label := ""
@@ -94,5 +98,5 @@ func jarManifestValue(jarFileName string, key string) (string, error) {
 		}
 		return label, nil
 	}
-	return "", fmt.Errorf("jar file %s has no manifest", jarFileName)
+	return "", fmt.Errorf("jar file %s has no manifest: %w", jarFileName, errNoManifestValue)
 }
diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index 832d599..e35fe8f 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -148,7 +148,7 @@ func inputFileName(blazeBin, pkg, ruleName, extension string) string {
 
 // directDepParams reads the jar-2.params files, looking for a
 // "--direct_dependencies" argument.  When found, the direct dependencies are
-// returned as a map from jar file names to labels.
+// returned as a map from jar file names to labels. The label of a jar that can't be read is empty.
 func directDepParams(blazeOutputPath string, paramsFileNames ...string) (depsByJar map[string]string) {
 	depsByJar = make(map[string]string)
 	errs := make([]error, 0)
@@ -177,16 +177,21 @@ func directDepParams(blazeOutputPath string, paramsFileNames ...string) (depsByJ
 				break
 			}
 			label, err := jarManifestValue(blazeOutputPath+strings.TrimPrefix(jar, "bazel-out"), "Target-Label")
-			if err != nil {
+			if errors.Is(err, errNoManifestValue) {
 				continue
 			}
+			if err != nil {
+				log.Println(err)
+			}
 			if strings.HasPrefix(label, "@@") || strings.HasPrefix(label, "@/") {
 				label = label[1:]
 			}
 			depsByJar[jar] = label
 		}
 		if err := scanner.Err(); err != nil {
+			// The labels found so far may have more jars in the part that can't be read.
 			log.Printf("reading %s: %s", paramsFileName, err)
+			return make(map[string]string)
 		}
 	}
 	if len(errs) == len(paramsFileNames) {
@@ -217,9 +222,14 @@ func unusedDeps(depsFileName string, depsByJar map[string]string) (unusedDeps ma
 	}
 	for _, dependency := range dependencies.Dependency {
 		if *dependency.Kind == depspb.Dependency_EXPLICIT {
+			if label, ok := depsByJar[*dependency.Path]; ok && label == "" {
+				// A dependency is used, but it's unknown which one.
+				return make(map[string]bool)
+			}
 			delete(unusedDeps, depsByJar[*dependency.Path])
 		}
 	}
+	delete(unusedDeps, "")
 	return unusedDeps
 }
 
-- 
2.43.0


From 6a3734cd30b916be9ccc4cfcfb2f69ccbadc98ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 19/41] fix: unused_deps: don't use the outputs of a build that
 could not be run

---
 unused_deps/unused_deps.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index e35fe8f..7cadb32 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -401,7 +401,15 @@ func main() {
 	blazeArgs := append(buildCmd, targetPatterns...)
 
 	log.Printf("running: %s %s", *buildTool, strings.Join(blazeArgs, " "))
-	cmdWithStderr(*buildTool, blazeArgs...).Run()
+	if err := cmdWithStderr(*buildTool, blazeArgs...).Run(); err != nil {
+		log.Printf("'%s build' failed: %s", *buildTool, err)
+		// Because of --keep_going, exit code 1 means that everything that can be built has been built.
+		// Otherwise the outputs may be those of an earlier build.
+		if exitErr, ok := err.(*exec.ExitError); !ok || exitErr.ExitCode() != 1 {
+			os.RemoveAll(aspectDir)
+			os.Exit(1)
+		}
+	}
 	binDir := blazeInfo(config.DefaultBinDir)
 	blazeOutputPath := blazeInfo(config.DefaultOutputPath)
 	fmt.Fprintf(os.Stderr, "\n") // vertical space between build output and unused_deps output
-- 
2.43.0


From 7ae068611c028d6c21668450d8ffd6a6a1610553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 20/41] fix: unused_deps: fail if the output file can't be
 written, write it in a fixed order

---
 unused_deps/unused_deps.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index 7cadb32..4f475ff 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -28,6 +28,7 @@ import (
 	"os"
 	"os/exec"
 	"path"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -112,13 +113,15 @@ func getJarPath(path string) (string, error) {
 }
 
 // writeUnusedDeps writes the labels of unused direct deps, one per line, to outputFileName.
-func writeUnusedDeps(jarPath, outputFileName string) {
+func writeUnusedDeps(jarPath, outputFileName string) error {
 	depsPath := strings.Replace(jarPath, ".jar", ".jdeps", 1)
 	paramsPath := jarPath + "-2.params"
-	file, _ := os.Create(outputFileName)
+	var lines []string
 	for dep := range unusedDeps(depsPath, directDepParams(paramsPath)) {
-		file.WriteString(dep + "\n")
+		lines = append(lines, dep+"\n")
 	}
+	sort.Strings(lines)
+	return os.WriteFile(outputFileName, []byte(strings.Join(lines, "")), 0666)
 }
 
 func cmdWithStderr(name string, arg ...string) *exec.Cmd {
@@ -354,7 +357,9 @@ func main() {
 		if err != nil {
 			log.Fatal(err)
 		}
-		writeUnusedDeps(jarPath, *outputFileName)
+		if err := writeUnusedDeps(jarPath, *outputFileName); err != nil {
+			log.Fatal(err)
+		}
 		return
 	}
 	targetPatterns := flag.Args()
-- 
2.43.0


From 881feb42aca66a74ab42f14c9725f80fb3442a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 21/41] fix: unused_deps: read the parameter file of the extra
 action, the output file was always empty

---
 unused_deps/unused_deps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index 4f475ff..320ce2f 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -117,7 +117,7 @@ func writeUnusedDeps(jarPath, outputFileName string) error {
 	depsPath := strings.Replace(jarPath, ".jar", ".jdeps", 1)
 	paramsPath := jarPath + "-2.params"
 	var lines []string
-	for dep := range unusedDeps(depsPath, directDepParams(paramsPath)) {
+	for dep := range unusedDeps(depsPath, directDepParams("bazel-out", paramsPath)) {
 		lines = append(lines, dep+"\n")
 	}
 	sort.Strings(lines)
-- 
2.43.0


From bf5efc4eecf1b7eea2017a8e926225ed993fedd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:20 +0000
Subject: [PATCH 22/41] fix: unused_deps: fail if the commands can't be written

---
 unused_deps/unused_deps.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index 320ce2f..c5db015 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -278,7 +278,8 @@ func hasRuntimeComment(expr build.Expr) bool {
 // printCommands prints, for each key in the deps map, a buildozer command
 // to remove that entry from the deps attribute of the rule identified by label.
 // Returns true if at least one command was printed, or false otherwise.
-func printCommands(label string, deps map[string]bool) (anyCommandPrinted bool) {
+func printCommands(label string, deps map[string]bool) (anyCommandPrinted bool, err error) {
+	var commands bytes.Buffer
 	buildFileName, repo, pkg, ruleName := edit.InterpretLabelWithRepo(label)
 	if repo != "" {
 		outputBase := blazeInfo(config.DefaultOutputBase)
@@ -301,17 +302,18 @@ func printCommands(label string, deps map[string]bool) (anyCommandPrinted bool)
 					continue
 				}
 				if hasRuntimeComment(str) {
-					fmt.Printf("buildozer 'move deps runtime_deps %s' %s\n", str.Value, label)
+					fmt.Fprintf(&commands, "buildozer 'move deps runtime_deps %s' %s\n", str.Value, label)
 				} else {
 					// add dep's exported dependencies to label before removing dep
-					fmt.Printf("buildozer \"add deps $(%s query 'labels(exports, %s)' | tr '\\n' ' ')\" %s\n", *buildTool, str.Value, label)
-					fmt.Printf("buildozer 'remove deps %s' %s\n", str.Value, label)
+					fmt.Fprintf(&commands, "buildozer \"add deps $(%s query 'labels(exports, %s)' | tr '\\n' ' ')\" %s\n", *buildTool, str.Value, label)
+					fmt.Fprintf(&commands, "buildozer 'remove deps %s' %s\n", str.Value, label)
 				}
 				anyCommandPrinted = true
 			}
 		}
 	}
-	return anyCommandPrinted
+	_, err = commands.WriteTo(os.Stdout)
+	return anyCommandPrinted, err
 }
 
 // setupAspect creates a workspace in a tmpdir and populates it with an aspect,
@@ -434,7 +436,13 @@ func main() {
 		depsByJar := directDepParams(blazeOutputPath, inputFileName(blazeBin, pkg, ruleName, "javac_params"))
 		depsToRemove := unusedDeps(inputFileName(blazeBin, pkg, ruleName, "jdeps"), depsByJar)
 		// TODO(bazel-team): instead of printing, have buildifier-like modes?
-		anyCommandPrinted = printCommands(label, depsToRemove) || anyCommandPrinted
+		printed, err := printCommands(label, depsToRemove)
+		if err != nil {
+			log.Print(err)
+			os.RemoveAll(aspectDir)
+			os.Exit(1)
+		}
+		anyCommandPrinted = printed || anyCommandPrinted
 	}
 	if !anyCommandPrinted {
 		fmt.Fprintln(os.Stderr, "No unused deps found.")
-- 
2.43.0


From df4226f49a37dc200e126086fa2b3b57555782b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 23/41] fix: unused_deps: don't use the dependency report of a
 failed compilation

---
 unused_deps/unused_deps.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index c5db015..597b935 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -220,6 +220,11 @@ func unusedDeps(depsFileName string, depsByJar map[string]string) (unusedDeps ma
 		log.Println(err)
 		return unusedDeps
 	}
+	if dependencies.Success != nil && !*dependencies.Success {
+		// The report contains only what was used until the compilation failed.
+		log.Printf("%s is incomplete", depsFileName)
+		return unusedDeps
+	}
 	for _, label := range depsByJar {
 		unusedDeps[label] = true
 	}
-- 
2.43.0


From 59497142207b8b613bda92ddd540e25a84a71f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 24/41] fix: generatetables: fail if the output can't be
 written

---
 generatetables/generate_tables.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/generatetables/generate_tables.go b/generatetables/generate_tables.go
index 04330b5..64dcf26 100644
--- a/generatetables/generate_tables.go
+++ b/generatetables/generate_tables.go
@@ -20,6 +20,7 @@ limitations under the License.
 package main
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
 	"log"
@@ -107,14 +108,10 @@ func main() {
 	}
 	sort.Strings(keys)
 
-	f, err := os.Create(*outputPath)
-	if err != nil {
-		log.Fatalf("%s\n", err)
-	}
-	defer f.Close()
+	var f bytes.Buffer
 
 	// print
-	fmt.Fprintf(f, `// Generated file, do not edit.
+	fmt.Fprintf(&f, `// Generated file, do not edit.
 package lang
 
 import buildpb "github.com/bazelbuild/buildtools/build_proto"
@@ -122,7 +119,11 @@ import buildpb "github.com/bazelbuild/buildtools/build_proto"
 var TypeOf = map[string]buildpb.Attribute_Discriminator{
 `)
 	for _, attr := range keys {
-		fmt.Fprintf(f, "	\"%s\":	buildpb.Attribute_%s,\n", attr, types[attr])
+		fmt.Fprintf(&f, "	\"%s\":	buildpb.Attribute_%s,\n", attr, types[attr])
+	}
+	fmt.Fprintf(&f, "}\n")
+
+	if err := os.WriteFile(*outputPath, f.Bytes(), 0666); err != nil {
+		log.Fatalf("%s\n", err)
 	}
-	fmt.Fprintf(f, "}\n")
 }
-- 
2.43.0


From bddee2f5fb8ef56cbd099c3d123e89a8564a341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 25/41] fix: launcher: wait for the child and pass on how it
 ended

---
 launcher.js | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/launcher.js b/launcher.js
index 60ee74d..817fa4f 100644
--- a/launcher.js
+++ b/launcher.js
@@ -53,17 +53,20 @@ function getNativeBinary() {
 
 function main(args) {
   const binary = getNativeBinary();
-  const ps = spawn(binary, args, {stdio : 'inherit'});
 
+  // The exit code is set when the child has ended.
   function shutdown() {
     ps.kill("SIGTERM")
-    process.exit();
   }
 
   process.on("SIGINT", shutdown);
   process.on("SIGTERM", shutdown);
 
-  ps.on('close', e => process.exitCode = e);
+  const ps = spawn(binary, args, {stdio : 'inherit'});
+
+  ps.on('close', (code, signal) => {
+    process.exitCode = signal ? 128 + os.constants.signals[signal] : code;
+  });
 }
 
 if (require.main === module) {
-- 
2.43.0


From 565a846eeedb1fc9431d492645429ecf89344eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 26/41] fix: unused_deps: an empty dependency report doesn't
 show that everything is unused

---
 unused_deps/unused_deps.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unused_deps/unused_deps.go b/unused_deps/unused_deps.go
index 597b935..5c5055d 100644
--- a/unused_deps/unused_deps.go
+++ b/unused_deps/unused_deps.go
@@ -215,6 +215,10 @@ func unusedDeps(depsFileName string, depsByJar map[string]string) (unusedDeps ma
 		log.Println(err)
 		return unusedDeps
 	}
+	if len(data) == 0 {
+		log.Printf("%s is empty", depsFileName)
+		return unusedDeps
+	}
 	dependencies := &depspb.Dependencies{}
 	if err := proto.Unmarshal(data, dependencies); err != nil {
 		log.Println(err)
-- 
2.43.0


From d327f69094e7ed0c604208a8998adcc20c3f7eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:32 +0000
Subject: [PATCH 27/41] fix: buildozer: don't panic on 'set kind' without a
 value and use_repo commands without an extension name

---
 edit/buildozer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index 9b4a600..f1a6357 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -560,6 +560,9 @@ func cmdSet(opts *Options, env CmdEnvironment) (*build.File, error) {
 	attr := env.Args[0]
 	args := env.Args[1:]
 	if attr == "kind" {
+		if len(args) == 0 {
+			return nil, fmt.Errorf("setting 'kind' requires a value")
+		}
 		env.Rule.SetKind(args[0])
 	} else {
 		env.Rule.SetAttr(attr, getAttrValueExpr(attr, args, env))
@@ -847,6 +850,9 @@ func cmdImplUseRepo(env CmdEnvironment, mode string) (*build.File, error) {
 	var proxies []string
 	var repos []string
 	if isExtensionLabel(args[0]) {
+		if len(args) < 2 {
+			return nil, fmt.Errorf("%s: missing extension name for %q", mode, args[0])
+		}
 		extBzlFile := args[0]
 		extName := args[1]
 
-- 
2.43.0


From 90b4aca6822eaf4159fc7d2df227e9515a774290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 28/41] fix: warn: report findings of docstrings, macros and
 package() in a fixed order

---
 warn/warn_cosmetic.go  |  6 +++++-
 warn/warn_docstring.go | 11 ++++++++++-
 warn/warn_macro.go     | 15 +++++++++++++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/warn/warn_cosmetic.go b/warn/warn_cosmetic.go
index e0401c0..30feb4e 100644
--- a/warn/warn_cosmetic.go
+++ b/warn/warn_cosmetic.go
@@ -102,7 +102,11 @@ func packageOnTopWarning(f *build.File) []*LinterFinding {
 	}
 
 	var findings []*LinterFinding
-	for _, load := range misplacedPackages {
+	for i := range f.Stmt {
+		load, ok := misplacedPackages[i]
+		if !ok {
+			continue
+		}
 		findings = append(findings, makeLinterFinding(load,
 			"Package declaration should be at the top of the file, after the load() statements, "+
 				"but before any call to a rule or a macro. "+
diff --git a/warn/warn_docstring.go b/warn/warn_docstring.go
index 71b3256..dca43f1 100644
--- a/warn/warn_docstring.go
+++ b/warn/warn_docstring.go
@@ -19,6 +19,7 @@ package warn
 import (
 	"fmt"
 	"regexp"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -349,10 +350,18 @@ one (preferably two) space more than "Args:", for example:
 		}
 
 		// Check whether all documented arguments actually exist in the function signature.
-		for name, pos := range info.args {
+		documented := make([]string, 0, len(info.args))
+		for name := range info.args {
+			documented = append(documented, name)
+		}
+		sort.Slice(documented, func(i, j int) bool {
+			return info.args[documented[i]].Line < info.args[documented[j]].Line
+		})
+		for _, name := range documented {
 			if paramNames[name] {
 				continue
 			}
+			pos := info.args[name]
 			msg := fmt.Sprintf("Argument %q is documented but doesn't exist in the function signature.", name)
 			// *args and **kwargs should be documented with asterisks
 			for _, asterisks := range []string{"*", "**"} {
diff --git a/warn/warn_macro.go b/warn/warn_macro.go
index 65b071c..7155ef8 100644
--- a/warn/warn_macro.go
+++ b/warn/warn_macro.go
@@ -20,6 +20,7 @@ package warn
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/bazelbuild/buildtools/build"
@@ -266,6 +267,10 @@ func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
 		}
 	}
 
+	// Check the calls in the order in which they appear, not in the random order of the map.
+	sortFunCalls(knownFunCalls)
+	sortFunCalls(newFunCalls)
+
 	for _, fc := range append(knownFunCalls, newFunCalls...) {
 		if ma.IsMacro(fc.function).isMacro {
 			report.isMacro = true
@@ -277,6 +282,16 @@ func (ma macroAnalyzer) IsMacro(fn function) (report functionReport) {
 	return
 }
 
+// sortFunCalls sorts function calls by the line and by the name.
+func sortFunCalls(funCalls []funCall) {
+	sort.Slice(funCalls, func(i, j int) bool {
+		if funCalls[i].line != funCalls[j].line {
+			return funCalls[i].line < funCalls[j].line
+		}
+		return funCalls[i].nameAlias < funCalls[j].nameAlias
+	})
+}
+
 // newMacroAnalyzer creates and initiates an instance of macroAnalyzer.
 func newMacroAnalyzer(fileReader *FileReader) macroAnalyzer {
 	return macroAnalyzer{
-- 
2.43.0


From 318de13e544d94ca0f6c53307016ec2ca85c534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 29/41] fix: buildozer: replace_load removes all replaced
 symbols, load symbols are added in a fixed order

---
 edit/edit.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/edit/edit.go b/edit/edit.go
index 994a56f..5a2a625 100644
--- a/edit/edit.go
+++ b/edit/edit.go
@@ -24,6 +24,7 @@ import (
 	"path"
 	"path/filepath"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -1100,8 +1101,13 @@ func AppendToLoad(load *build.LoadStmt, from, to []string) bool {
 		return false
 	}
 
-	// Append the remaining loads to the load statement.
+	// Append the remaining loads to the load statement, in a fixed order.
+	remaining := make([]string, 0, len(symbolsToLoad))
 	for s := range symbolsToLoad {
+		remaining = append(remaining, s)
+	}
+	sort.Strings(remaining)
+	for _, s := range remaining {
 		load.From = append(load.From, &build.Ident{Name: symbolsToLoad[s]})
 		load.To = append(load.To, &build.Ident{Name: s})
 	}
@@ -1218,16 +1224,13 @@ func ReplaceLoad(stmts []build.Expr, location string, from, to []string) []build
 			continue
 		}
 
-		for i, to := range load.To {
-			if toSymbols[to.Name] {
-				if i < len(load.From)-1 {
-					load.From = append(load.From[:i], load.From[i+1:]...)
-					load.To = append(load.To[:i], load.To[i+1:]...)
-				} else {
-					load.From = load.From[:i]
-					load.To = load.To[:i]
-				}
+		for i := 0; i < len(load.To); {
+			if !toSymbols[load.To[i].Name] {
+				i++
+				continue
 			}
+			load.From = append(load.From[:i], load.From[i+1:]...)
+			load.To = append(load.To[:i], load.To[i+1:]...)
 		}
 
 		if len(load.To) > 0 {
-- 
2.43.0


From 708b110f614279914c0a9a4b8aaffb93c790ad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:47 +0000
Subject: [PATCH 30/41] fix: warn: don't share the MODULE.bazel mapping between
 linted files

---
 warn/multifile.go      | 16 ++++++++++++++++
 warn/warn_bazel_api.go | 12 +++++-------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/warn/multifile.go b/warn/multifile.go
index 73f5af4..e3c2869 100644
--- a/warn/multifile.go
+++ b/warn/multifile.go
@@ -18,6 +18,7 @@ package warn
 
 import (
 	"github.com/bazelbuild/buildtools/build"
+	"github.com/bazelbuild/buildtools/edit/bzlmod"
 )
 
 // FileReader is a class that can read an arbitrary Starlark file
@@ -25,6 +26,10 @@ import (
 type FileReader struct {
 	cache    map[string]*build.File
 	readFile func(string) ([]byte, error)
+
+	// apparentRepoName caches the result of bzlmod.ExtractModuleToApparentNameMapping
+	// for the root module of the repository.
+	apparentRepoName func(string) string
 }
 
 // NewFileReader creates and initializes a FileReader instance with a
@@ -75,3 +80,14 @@ func (fr *FileReader) GetFile(pkg, label string) *build.File {
 	fr.cache[filename] = file
 	return file
 }
+
+// moduleToApparentRepoName returns the mapping of module names to the apparent repository
+// names used by the root module of the repository the files are read from.
+func (fr *FileReader) moduleToApparentRepoName() func(string) string {
+	if fr.apparentRepoName == nil {
+		fr.apparentRepoName = bzlmod.ExtractModuleToApparentNameMapping(func(relPath string) *build.File {
+			return fr.GetFile("", relPath)
+		})
+	}
+	return fr.apparentRepoName
+}
diff --git a/warn/warn_bazel_api.go b/warn/warn_bazel_api.go
index 61de4e6..5ca6ca6 100644
--- a/warn/warn_bazel_api.go
+++ b/warn/warn_bazel_api.go
@@ -26,7 +26,6 @@ import (
 	"github.com/bazelbuild/buildtools/build"
 	"github.com/bazelbuild/buildtools/bzlenv"
 	"github.com/bazelbuild/buildtools/edit"
-	"github.com/bazelbuild/buildtools/edit/bzlmod"
 	"github.com/bazelbuild/buildtools/labels"
 	"github.com/bazelbuild/buildtools/tables"
 )
@@ -174,7 +173,7 @@ func insertLoad(f *build.File, module string, symbols []string) *LinterReplaceme
 	return &LinterReplacement{&(f.Stmt[i]), edit.NewLoad(module, symbols, symbols)}
 }
 
-// Caches the result of bzlmod.ExtractModuleToApparentNameMapping.
+// moduleToApparentRepoName, if set, is used for all files instead of the mapping of their root module.
 var moduleToApparentRepoName func(string) string
 
 // useApparentRepoNameIfExternal replaces the module name in a load statement with the apparent repository
@@ -184,13 +183,12 @@ func useApparentRepoNameIfExternal(load string, fileReader *FileReader) string {
 		// Not a load from an external repository or we can't load external files.
 		return load
 	}
-	if moduleToApparentRepoName == nil {
-		moduleToApparentRepoName = bzlmod.ExtractModuleToApparentNameMapping(func(relPath string) *build.File {
-			return fileReader.GetFile("", relPath)
-		})
+	apparentRepoName := moduleToApparentRepoName
+	if apparentRepoName == nil {
+		apparentRepoName = fileReader.moduleToApparentRepoName()
 	}
 	l := labels.Parse(load)
-	apparentName := moduleToApparentRepoName(l.Repository)
+	apparentName := apparentRepoName(l.Repository)
 	if apparentName == "" {
 		// The module that hosts the load is not a bazel_dep of the root module. We assume that's
 		// because it is a WORKSPACE repo, which uses the legacy name.
-- 
2.43.0


From fa7afefc24224eb63d011c961a35854a51302465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:28 +0000
Subject: [PATCH 31/41] fix: buildozer: targets after pkg:__pkg__ don't see the
 empty package declaration made for it

---
 edit/buildozer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/edit/buildozer.go b/edit/buildozer.go
index f1a6357..c2bb2ab 100644
--- a/edit/buildozer.go
+++ b/edit/buildozer.go
@@ -1211,6 +1211,7 @@ func rewrite(opts *Options, commandsForFile commandsForFile) *rewriteResult {
 			absPkg = f.Pkg
 		}
 
+		hasPackage := ExistingPackageDeclaration(f) != nil
 		targets, err := expandTargets(f, rule)
 		if err != nil {
 			cerr := commandError(commands, target, err)
@@ -1248,6 +1249,11 @@ func rewrite(opts *Options, commandsForFile commandsForFile) *rewriteResult {
 				}
 			}
 		}
+		if pkg := ExistingPackageDeclaration(f); pkg != nil && !hasPackage && len(pkg.Call.Comments.Before) == 0 {
+			// The package declaration has been created by expandTargets, if it's still empty the
+			// following targets must not see it.
+			f.Stmt = RemoveEmptyPackage(f).Stmt
+		}
 	}
 	if !changed {
 		return &rewriteResult{file: name, errs: errs, records: records}
-- 
2.43.0


From fc2a8f9c4f95f6a5566ce2ab7d99d1e37572f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:11 +0000
Subject: [PATCH 32/41] fix: build: keep the backslash when a line is broken
 inside an unparenthesized tuple

---
 build/print.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/build/print.go b/build/print.go
index 0492dd4..4b263f5 100644
--- a/build/print.go
+++ b/build/print.go
@@ -1043,14 +1043,12 @@ func (p *printer) seq(brack string, start *Position, list *[]Expr, end *End, mod
 
 	if mode != modeSeq {
 		p.printf("%s", brack[:1])
-	}
-	p.depth++
-	defer func() {
-		p.depth--
-		if mode != modeSeq {
+		p.depth++
+		defer func() {
+			p.depth--
 			p.printf("%s", brack[1:])
-		}
-	}()
+		}()
+	}
 
 	if p.useCompactMode(start, args, end, mode, forceCompact, forceMultiLine) {
 		for i, x := range *args {
-- 
2.43.0


From 579594e3dbe2ef1e58759094a7450db53b19c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:15 +0000
Subject: [PATCH 33/41] fix: build: keep the comments of a duplicate at the end
 of a list

---
 build/rewrite.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index e500beb..c79d915 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -537,13 +537,14 @@ func deduplicateStringList(x Expr) {
 		return
 	}
 
-	list.List = deduplicateStringExprs(list.List)
+	list.List = deduplicateStringExprs(list.List, &list.End)
 }
 
 // deduplicateStringExprs removes duplicate string expressions from a slice
 // without reordering its elements.
-// Any suffix-comments are lost, any before- and after-comments are preserved.
-func deduplicateStringExprs(list []Expr) []Expr {
+// Any suffix-comments are lost, any before- and after-comments are preserved: they
+// are moved to the next string or, if there is none, before the end of the list.
+func deduplicateStringExprs(list []Expr, end *End) []Expr {
 	var comments []Comment
 	alreadySeen := make(map[string]bool)
 	var deduplicated []Expr
@@ -569,6 +570,9 @@ func deduplicateStringExprs(list []Expr) []Expr {
 		}
 		deduplicated = append(deduplicated, value)
 	}
+	if len(comments) > 0 {
+		end.Before = append(comments, end.Before...)
+	}
 	return deduplicated
 }
 
@@ -582,7 +586,7 @@ func SortStringList(x Expr) {
 	}
 
 	if doNotSort(list.List[0]) {
-		list.List = deduplicateStringExprs(list.List)
+		list.List = deduplicateStringExprs(list.List, &list.End)
 		return
 	}
 
@@ -1198,7 +1202,7 @@ func sortUseRepoPositionals(f *File, _ *Rewriter) {
 			// Respect the "do not sort" comment on both the first argument and the first repository
 			// name.
 			if doNotSort(call) || doNotSort(call.List[0]) || doNotSort(call.List[1]) {
-				call.List = deduplicateStringExprs(call.List)
+				call.List = deduplicateStringExprs(call.List, &call.End)
 			} else {
 				// Keyword arguments do not have to be sorted here as this has already been done by
 				// the generic callsort rewriter pass.
-- 
2.43.0


From 8320ef600c913efe1792dd9181c1be7f1294e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:57 +0000
Subject: [PATCH 34/41] fix: build: don't write behind the end of the bytes
 that are parsed

---
 build/lex.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build/lex.go b/build/lex.go
index 30639ea..d9c3462 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -213,7 +213,8 @@ func newInput(filename string, data []byte) *input {
 	// The syntax requires that each simple statement ends with '\n', however it's optional at EOF.
 	// If `data` doesn't end with '\n' we add it here to keep parser simple.
 	// It shouldn't affect neither the parsed tree nor its formatting.
-	data = append(data, '\n')
+	// The memory behind `data` may belong to somebody else: always append to a copy.
+	data = append(data[:len(data):len(data)], '\n')
 
 	return &input{
 		filename:  filename,
-- 
2.43.0


From f4d73975ef3f1fd9cf5d0b65ca08b9d9e61ac84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:29 +0000
Subject: [PATCH 35/41] fix: build: reorder arguments before sorting them, the
 second run sorted more

---
 build/rewrite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/rewrite.go b/build/rewrite.go
index c79d915..b1df25a 100644
--- a/build/rewrite.go
+++ b/build/rewrite.go
@@ -125,6 +125,7 @@ var rewrites = []struct {
 	scope FileType
 }{
 	{"removeParens", removeParens, scopeBuild},
+	{"reorderarguments", reorderArguments, scopeBoth},
 	{"callsort", sortCallArgs, scopeBuild},
 	{"label", fixLabels, scopeBuild},
 	{"listsort", sortStringLists, scopeBoth},
@@ -135,7 +136,6 @@ var rewrites = []struct {
 	{"loadsort", sortAllLoadArgs, scopeBoth},
 	{"useRepoPositionalsSort", sortUseRepoPositionals, TypeModule},
 	{"formatdocstrings", formatDocstrings, scopeBoth},
-	{"reorderarguments", reorderArguments, scopeBoth},
 	{"editoctal", editOctals, scopeBoth},
 	{"editfloat", editFloats, scopeBoth},
 	{"collapseEmpty", collapseEmpty, scopeBoth},
-- 
2.43.0


From 320e07c591d579e642166a5ac7b42f93beba42a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:58 +0000
Subject: [PATCH 36/41] fix: build: separate a comment from a preceding
 one-line block like from other blocks

---
 build/print.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index 4b263f5..6ab3ee1 100644
--- a/build/print.go
+++ b/build/print.go
@@ -228,8 +228,13 @@ func (p *printer) statements(rawStmts []Expr) {
 			p.softNewline()
 		}
 
-		for _, com := range stmt.Comment().After {
+		for j, com := range stmt.Comment().After {
 			p.newlineIfNeeded()
+			if j == 0 && isBlockStatement(stmt) {
+				// A comment after a block on one line is separated from it
+				// like a comment after a block on several lines.
+				p.newline()
+			}
 			p.printf("%s", strings.TrimSpace(com.Token))
 			p.softNewline()
 		}
@@ -473,6 +478,15 @@ func isFunctionDefinition(x Expr) bool {
 	return ok
 }
 
+// isBlockStatement checks if the statement contains other statements
+func isBlockStatement(x Expr) bool {
+	switch x.(type) {
+	case *DefStmt, *ForStmt, *IfStmt:
+		return true
+	}
+	return false
+}
+
 // isDifferentLines reports whether two positions belong to different lines.
 // If one of the positions is null (Line == 0), it's not a real position but probably an indicator
 // of manually inserted node. Return false in this case
-- 
2.43.0


From 087778d7f78854d9201f1c95ea16eca02255de74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 37/41] fix: build: keep the comment behind the header of a
 function without parameters there

---
 build/lex.go   | 26 +++++++++++++++++++++++++-
 build/print.go |  6 +++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/build/lex.go b/build/lex.go
index d9c3462..787e55d 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -847,8 +847,9 @@ func (in *input) assignComments() {
 }
 
 func (in *input) assignSuffixComments() {
+	suffix := in.assignHeaderComments()
+
 	// Assign suffix comments to syntax immediately before.
-	suffix := in.suffixComments
 	for i := len(in.post) - 1; i >= 0; i-- {
 		x := in.post[i]
 
@@ -877,6 +878,29 @@ func (in *input) assignSuffixComments() {
 	in.file.Before = append(in.file.Before, suffix...)
 }
 
+// assignHeaderComments assigns suffix comments in headers of definitions without parameters
+// to the definitions, as there's no other syntax there. It returns the other suffix comments.
+func (in *input) assignHeaderComments() []Comment {
+	headers := make(map[int]*DefStmt)
+	for _, x := range in.post {
+		if def, ok := x.(*DefStmt); ok && len(def.Params) == 0 && def.Type == nil {
+			if start, _ := def.Body[0].Span(); start.Line > def.ColonPos.Line {
+				headers[def.ColonPos.Line] = def
+			}
+		}
+	}
+
+	var suffix []Comment
+	for _, com := range in.suffixComments {
+		if def, ok := headers[com.Start.Line]; ok && com.Start.Byte > def.ColonPos.Byte {
+			def.Comment().Suffix = append(def.Comment().Suffix, com)
+		} else {
+			suffix = append(suffix, com)
+		}
+	}
+	return suffix
+}
+
 func (in *input) assignLineComments() {
 	// Assign line comments to syntax immediately following.
 	line := in.lineComments
diff --git a/build/print.go b/build/print.go
index 6ab3ee1..fddfddb 100644
--- a/build/print.go
+++ b/build/print.go
@@ -877,6 +877,8 @@ func (p *printer) expr(v Expr, outerPrec int) {
 			p.expr(v.Type, precLow)
 		}
 		p.printf(":")
+		// The suffix comments of a definition belong to its header
+		p.comment = append(p.comment, v.Comment().Suffix...)
 		p.nestedStatements(v.Body)
 
 	case *ForStmt:
@@ -953,7 +955,9 @@ func (p *printer) expr(v Expr, outerPrec int) {
 
 	// Queue end-of-line comments for printing when we
 	// reach the end of the line.
-	p.comment = append(p.comment, v.Comment().Suffix...)
+	if _, ok := v.(*DefStmt); !ok {
+		p.comment = append(p.comment, v.Comment().Suffix...)
+	}
 }
 
 // A seqMode describes a formatting mode for a sequence of values,
-- 
2.43.0


From 31998ac88735d4428cff7ebf1b81a35f2e08bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:28 +0000
Subject: [PATCH 38/41] fix: build: no blank line at the beginning of a
 function because of a comment in its empty parameter list

---
 build/lex.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/build/lex.go b/build/lex.go
index 787e55d..b4f05c7 100644
--- a/build/lex.go
+++ b/build/lex.go
@@ -918,6 +918,17 @@ func (in *input) assignLineComments() {
 		})
 	}
 
+	// Comments between the parentheses of a definition without parameters have been assigned to its
+	// first statement, blank lines before them are not needed there.
+	for _, x := range in.pre {
+		if def, ok := x.(*DefStmt); ok {
+			com := def.Body[0].Comment()
+			for len(com.Before) > 0 && com.Before[0].Token == "" {
+				com.Before = com.Before[1:]
+			}
+		}
+	}
+
 	// Remaining line comments go at end of file.
 	in.file.After = append(in.file.After, line...)
 }
-- 
2.43.0


From c8c7bfed0898b63ee5ca0b101704392e4982ae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:16 +0000
Subject: [PATCH 39/41] fix: build: keep the indentation of the line if it has
 several comments at its end

---
 build/print.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/build/print.go b/build/print.go
index fddfddb..8a71945 100644
--- a/build/print.go
+++ b/build/print.go
@@ -119,11 +119,18 @@ func (p *printer) indent() int {
 func (p *printer) newline() {
 	p.needsNewLine = false
 	if len(p.comment) > 0 {
+		// Further comments go to lines of their own, at least as indented as this one:
+		// the margin may already be the one of the next line.
+		margin := p.margin
+		line := p.Bytes()[p.Len()-p.indent():]
+		if n := len(line) - len(bytes.TrimLeft(line, " ")); n > margin {
+			margin = n
+		}
 		p.printf("  ")
 		for i, com := range p.comment {
 			if i > 0 {
 				p.trim()
-				p.printf("\n%*s", p.margin, "")
+				p.printf("\n%*s", margin, "")
 			}
 			p.printf("%s", strings.TrimSpace(com.Token))
 		}
-- 
2.43.0


From a8b3a0c2dfd3f3a5b69afc9a5a291d7c963221bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 40/41] fix: buildozer's Node binding: pass several targets of
 a batch as separate arguments, not as one label joined by commas

---
 buildozer/npm/index.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buildozer/npm/index.js b/buildozer/npm/index.js
index fb9b337..083467b 100644
--- a/buildozer/npm/index.js
+++ b/buildozer/npm/index.js
@@ -26,7 +26,7 @@ function runWithOptions(commands, options, flags = []) {
     // for example //path/to/pkg1:rule1 //path/to/pkg2:rule2.
     // Buildozer reads commands from FILE (- for stdin 
     //   (format: |-separated command line arguments to buildozer, excluding flags))
-    const input = commands.map(c => [...c.commands, c.targets.join(',')].join('|')).join('\n');
+    const input = commands.map(c => [...c.commands, ...c.targets].join('|')).join('\n');
     const {stdout, stderr, status, error} = spawnSync(getNativeBinary(), flags.concat([
         '-f', '-' /* read commands from stdin */
     ]), {
-- 
2.43.0


From c4029661606b7f60ab26dc7e32a0c30ee8ad4064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 41/41] fix: buildozer's Node binding: throw an Error, not
 undefined, when buildozer fails or is killed

---
 buildozer/npm/index.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/buildozer/npm/index.js b/buildozer/npm/index.js
index 083467b..b936b4f 100644
--- a/buildozer/npm/index.js
+++ b/buildozer/npm/index.js
@@ -38,7 +38,8 @@ function runWithOptions(commands, options, flags = []) {
     if (status == 0 || status == 3) return stdout.trim().split('\n').filter(l => !!l);
 
     console.error(`buildozer exited with status ${status}\n${stderr}`);
-    throw error;
+    // there is no error object if buildozer was run and failed or was killed
+    throw error || new Error(`buildozer exited with status ${status}`);
 }
 
 module.exports = {
-- 
2.43.0

