From 641dfa56340a314e24eb4514aea5dd7d81b98b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 01/26] fix: lint type-checked files with the checker that
 checked them

With report_semantic, files are type checked by the checker they are associated
with and then linted by whichever checker is free. The answers a checker gives
about nodes it has already checked can differ from what another checker computes
on demand, so rule diagnostics depended on goroutine scheduling.
---
 internal/linter/linter.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index 1e3a6fd..f214e8d 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -374,11 +374,30 @@ func makeSourceFileQueue(files []*ast.SourceFile) chan *ast.SourceFile {
 	return queue
 }
 
-func makeCheckerWorkloadQueue(program *compiler.Program, files []*ast.SourceFile) chan checkerWorkload {
+func makeCheckerWorkloadQueue(program *compiler.Program, files []*ast.SourceFile, typeChecked bool) chan checkerWorkload {
 	queue := makeSourceFileQueue(files)
+
+	// A checker that has already type checked a file answers some queries from the
+	// results it cached, and they can differ from what another checker computes on
+	// demand. Once files have been type checked, each of them has to be linted by the
+	// checker that did it: otherwise diagnostics depend on which checker is free first.
+	var filesByChecker map[*checker.Checker][]*ast.SourceFile
+	if typeChecked {
+		filesByChecker = make(map[*checker.Checker][]*ast.SourceFile)
+		for _, file := range files {
+			ch, done := program.GetTypeCheckerForFile(context.Background(), file)
+			filesByChecker[ch] = append(filesByChecker[ch], file)
+			done()
+		}
+	}
+
 	flatQueue := []checkerWorkload{}
 	var flatQueueMu sync.Mutex
 	program.ForEachCheckerParallel(func(idx int, ch *checker.Checker) {
+		queue := queue
+		if typeChecked {
+			queue = makeSourceFileQueue(filesByChecker[ch])
+		}
 		flatQueueMu.Lock()
 		flatQueue = append(flatQueue, checkerWorkload{ch, program, queue})
 		flatQueueMu.Unlock()
@@ -474,7 +493,7 @@ func RunLinterOnProgram(options RunLinterOnProgramOptions) error {
 	timingStore := options.TimingStore
 
 	reportTypeScriptDiagnostics(program, files, typeErrors, onInternalDiagnostic)
-	workloadQueue := makeCheckerWorkloadQueue(program, files)
+	workloadQueue := makeCheckerWorkloadQueue(program, files, typeErrors.ReportSemantic)
 
 	wg := core.NewWorkGroup(workers == 1)
 	for range workers {
-- 
2.43.0


From 200cb000ea234b7b2b2c993facc7dc29342558ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:06 +0000
Subject: [PATCH 02/26] fix: give the inferred program its root files in a
 fixed order

---
 cmd/tsgolint/headless.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 8ed760f..5153cdd 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -291,6 +291,9 @@ func runHeadless(args []string) int {
 			workload.Programs[tsconfig] = append(workload.Programs[tsconfig], file)
 		}
 	}
+	// These become the root files of the inferred program, and the order of root files
+	// is observable (declaration merging): it must not be the iteration order of a map.
+	slices.Sort(workload.UnmatchedFiles)
 
 	if logLevel == utils.LogLevelDebug {
 		for file, tsconfig := range result {
-- 
2.43.0


From 61263dfbe98664f72a83108e9825a2a91facf0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:32 +0000
Subject: [PATCH 03/26] fix: do not drop diagnostics that quote invalid UTF-8

---
 cmd/tsgolint/headless.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 5153cdd..53a3610 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -13,6 +13,7 @@ import (
 	"sync"
 
 	"github.com/go-json-experiment/json"
+	"github.com/go-json-experiment/json/jsontext"
 
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/bundled"
@@ -193,7 +194,8 @@ func internalToAny(d diagnostic.Internal) anyDiagnostic {
 }
 
 func writeMessage(w io.Writer, messageType headlessMessageType, payload any) error {
-	payloadBytes, err := json.Marshal(payload)
+	// Fixes and messages quote source text, which is not necessarily valid UTF-8.
+	payloadBytes, err := json.Marshal(payload, jsontext.AllowInvalidUTF8(true))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From aa7ef41700b4d1b740a427da5048646a2f4cdc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:53 +0000
Subject: [PATCH 04/26] fix: fail when diagnostics could not be written

---
 cmd/tsgolint/headless.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 53a3610..22721b7 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -202,9 +202,11 @@ func writeMessage(w io.Writer, messageType headlessMessageType, payload any) err
 	var header [5]byte
 	binary.LittleEndian.PutUint32(header[:], uint32(len(payloadBytes)))
 	header[4] = byte(messageType)
-	w.Write(header[:])
-	w.Write(payloadBytes)
-	return nil
+	if _, err := w.Write(header[:]); err != nil {
+		return err
+	}
+	_, err = w.Write(payloadBytes)
+	return err
 }
 
 func writeErrorMessage(text string) error {
@@ -335,10 +337,17 @@ func runHeadless(args []string) int {
 
 	diagnosticsChan := make(chan anyDiagnostic, 4096)
 
+	// First failure to write a diagnostic, valid after wg.Wait().
+	var outputErr error
+
 	// Handle all diagnostics
 	wg.Go(func() {
 		w := bufio.NewWriterSize(os.Stdout, 4096*100)
-		defer w.Flush()
+		defer func() {
+			if err := w.Flush(); err != nil && outputErr == nil {
+				outputErr = err
+			}
+		}()
 		for d := range diagnosticsChan {
 			var hd headlessDiagnostic
 
@@ -399,7 +408,10 @@ func runHeadless(args []string) int {
 				}
 			}
 
-			writeMessage(w, headlessMessageTypeDiagnostic, hd)
+			// Keep receiving after a failure: the linter must not block on the channel.
+			if err := writeMessage(w, headlessMessageTypeDiagnostic, hd); err != nil && outputErr == nil {
+				outputErr = err
+			}
 			if w.Available() < 4096 {
 				w.Flush()
 			}
@@ -463,6 +475,11 @@ func runHeadless(args []string) int {
 
 	wg.Wait()
 
+	if outputErr != nil {
+		log.Printf("ERROR: failed to write diagnostics: %v", outputErr)
+		return 1
+	}
+
 	if opts.debugTimings {
 		if err := writeMessage(os.Stdout, headlessMessageTypeTiming, headlessTimingPayloadFromRecords(timingStore.Collect())); err != nil {
 			log.Printf("ERROR: failed to write timing output: %v", err)
-- 
2.43.0


From d53a45696724b98dd76ae033d77c0ab5336ba857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:55 +0000
Subject: [PATCH 05/26] fix: write pending diagnostics before the error message

---
 cmd/tsgolint/headless.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 22721b7..9b48656 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -467,14 +467,15 @@ func runHeadless(args []string) int {
 	})
 
 	close(diagnosticsChan)
+	// The collector owns stdout until it has written every diagnostic.
+	wg.Wait()
+
 	if err != nil {
 		log.Printf("ERROR: Linter failed: %v", err)
 		writeErrorMessage(fmt.Sprintf("error running linter: %v", err))
 		return 1
 	}
 
-	wg.Wait()
-
 	if outputErr != nil {
 		log.Printf("ERROR: failed to write diagnostics: %v", outputErr)
 		return 1
-- 
2.43.0


From dabe44cb29715fa0e5b4579c1ae0711415e0dcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 06/26] fix: lint files whose requested path is not normalized

---
 cmd/tsgolint/headless.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 9b48656..bb9fe14 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -280,7 +280,8 @@ func runHeadless(args []string) int {
 	fileConfigs := make(map[string][]headlessRule, totalFileCount)
 	for _, config := range payload.Configs {
 		for _, filePath := range config.FilePaths {
-			normalized := tspath.NormalizeSlashes(filePath)
+			// Source files are identified by their normalized absolute path.
+			normalized := tspath.GetNormalizedAbsolutePath(filePath, cwd)
 			normalizedFiles = append(normalizedFiles, normalized)
 
 			fileConfigs[normalized] = config.Rules
-- 
2.43.0


From d0926b6df0ea5180bab5deba868a1f3d24ea139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 07/26] fix: normalize the paths of source overrides like those
 of files

---
 cmd/tsgolint/headless.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index bb9fe14..9ef426b 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -257,7 +257,12 @@ func runHeadless(args []string) int {
 
 	baseFS := osvfs.FS()
 	if len(payload.SourceOverrides) > 0 {
-		baseFS = newOverlayFS(baseFS, payload.SourceOverrides)
+		// The file system is asked for normalized paths.
+		overrides := make(map[string]string, len(payload.SourceOverrides))
+		for filePath, text := range payload.SourceOverrides {
+			overrides[tspath.GetNormalizedAbsolutePath(filePath, cwd)] = text
+		}
+		baseFS = newOverlayFS(baseFS, overrides)
 	}
 	fs := bundled.WrapFS(cachedvfs.From(baseFS))
 
-- 
2.43.0


From 01d218bd70e6f2b5eefdecc5c05bf68fe9524453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:48 +0000
Subject: [PATCH 08/26] fix: visit property names in destructuring assignments

---
 internal/linter/linter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index f214e8d..347939b 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -445,6 +445,7 @@ func visitLintNodes(file *ast.SourceFile, runListeners func(kind ast.Kind, node
 		case ast.KindSpreadElement, ast.KindSpreadAssignment:
 			patternVisitor(node.Expression())
 		case ast.KindPropertyAssignment:
+			childVisitor(node.Name())
 			patternVisitor(node.Initializer())
 		default:
 			node.ForEachChild(childVisitor)
-- 
2.43.0


From 449ae9548f1a42d95652cc6e1fb95894d333ed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 09/26] fix: report files that are in no program as errors
 instead of panicking

---
 internal/linter/linter.go | 4 ++--
 internal/utils/host.go    | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index 347939b..0344ada 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -145,7 +145,7 @@ func RunLinter(options RunLinterOptions) error {
 			}
 			log.Printf("Program source files (%d): %s", len(programFiles), strings.Join(programFiles, ", "))
 
-			panic(fmt.Sprintf("Expected file '%s' to be in program '%s'", unmatchedFilesString, configFileName))
+			return fmt.Errorf("expected file '%s' to be in program '%s'", unmatchedFilesString, configFileName)
 		}
 
 		err = RunLinterOnProgram(RunLinterOnProgramOptions{
@@ -185,7 +185,7 @@ func RunLinter(options RunLinterOptions) error {
 		for _, f := range workload.UnmatchedFiles {
 			sf := program.GetSourceFile(f)
 			if sf == nil {
-				panic(fmt.Sprintf("Expected file '%s' to be in inferred program", f))
+				return fmt.Errorf("expected file '%s' to be in inferred program", f)
 			}
 			files = append(files, sf)
 		}
diff --git a/internal/utils/host.go b/internal/utils/host.go
index 36ddffe..8a5827a 100644
--- a/internal/utils/host.go
+++ b/internal/utils/host.go
@@ -93,7 +93,8 @@ func (h *compilerHost) GetSourceFile(opts ast.SourceFileParseOptions) *ast.Sourc
 
 	scriptKind := core.GetScriptKindFromFileName(opts.FileName)
 	if scriptKind == core.ScriptKindUnknown {
-		panic("Unknown script kind for file  " + opts.FileName)
+		// Not a source file: whoever asked for it is told that it is not in the program.
+		return nil
 	}
 
 	key := GetSourceFileCacheKey(opts, text, scriptKind)
-- 
2.43.0


From b06fa8a91d0d13e2ef76d7dc6cf7b277bfc4d3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:58 +0000
Subject: [PATCH 10/26] fix: report unknown rules before linting instead of
 panicking

---
 cmd/tsgolint/headless.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/cmd/tsgolint/headless.go b/cmd/tsgolint/headless.go
index 9ef426b..e6a430d 100644
--- a/cmd/tsgolint/headless.go
+++ b/cmd/tsgolint/headless.go
@@ -275,6 +275,22 @@ func runHeadless(args []string) int {
 	for _, config := range payload.Configs {
 		totalFileCount += len(config.FilePaths)
 	}
+	allRulesByName := make(map[string]rule.Rule, len(allRules))
+	for _, r := range allRules {
+		allRulesByName[r.Name] = r
+	}
+	for _, config := range payload.Configs {
+		if len(config.FilePaths) == 0 {
+			continue
+		}
+		for _, headlessRule := range config.Rules {
+			if _, ok := allRulesByName[headlessRule.Name]; !ok {
+				writeErrorMessage(fmt.Sprintf("unknown rule: %v", headlessRule.Name))
+				return 1
+			}
+		}
+	}
+
 	if logLevel == utils.LogLevelDebug {
 		log.Printf("Starting to assign files to programs. Total files: %d", totalFileCount)
 	}
@@ -323,11 +339,6 @@ func runHeadless(args []string) int {
 		}
 	}
 
-	allRulesByName := make(map[string]rule.Rule, len(allRules))
-	for _, r := range allRules {
-		allRulesByName[r.Name] = r
-	}
-
 	for _, files := range workload.Programs {
 		slices.SortFunc(files, func(a, b string) int {
 			return len(b) - len(a)
-- 
2.43.0


From 616ccbcfac23229a76a7843fd0773afe5a9f7e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 11/26] fix: turn panics of linter workers into errors

---
 internal/linter/linter.go | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index 0344ada..b121624 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"log"
+	"runtime/debug"
 	"strconv"
 	"strings"
 	"sync"
@@ -496,6 +497,10 @@ func RunLinterOnProgram(options RunLinterOnProgramOptions) error {
 	reportTypeScriptDiagnostics(program, files, typeErrors, onInternalDiagnostic)
 	workloadQueue := makeCheckerWorkloadQueue(program, files, typeErrors.ReportSemantic)
 
+	// First panic of a worker, valid after wg.RunAndWait().
+	var workerErr error
+	var workerErrOnce sync.Once
+
 	wg := core.NewWorkGroup(workers == 1)
 	for range workers {
 		wg.Queue(func() {
@@ -504,6 +509,21 @@ func RunLinterOnProgram(options RunLinterOnProgramOptions) error {
 				onDiagnostic: onDiagnostic,
 			}
 
+			// Rules panic when they cannot understand their options. Ending the process here
+			// would lose the diagnostics reported so far and tear the output stream.
+			defer func() {
+				if r := recover(); r != nil {
+					log.Printf("panic: %v\n%s", r, debug.Stack())
+					fileName := ""
+					if ctxBuilder.file != nil {
+						fileName = ctxBuilder.file.FileName()
+					}
+					workerErrOnce.Do(func() {
+						workerErr = fmt.Errorf("panic while running rule '%s' on file '%s': %v", ctxBuilder.ruleName, fileName, r)
+					})
+				}
+			}()
+
 			// These closures remain valid for the length of linting, as we mutate the fields
 			// of `ctxBuilder`, but `ctxBuilder` itself will not change.
 			ctx := newRuleContext(ctxBuilder)
@@ -636,5 +656,5 @@ func RunLinterOnProgram(options RunLinterOnProgramOptions) error {
 	}
 	wg.RunAndWait()
 
-	return nil
+	return workerErr
 }
-- 
2.43.0


From 1f9599a249f4fff3c459bfb45b29a7a3475d5a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 12/26] fix: print code frames of diagnostics with any line
 terminator

---
 cmd/tsgolint/main.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/cmd/tsgolint/main.go b/cmd/tsgolint/main.go
index 4429b31..e09073b 100644
--- a/cmd/tsgolint/main.go
+++ b/cmd/tsgolint/main.go
@@ -284,14 +284,11 @@ func printDiagnostic(d rule.RuleDiagnostic, w *bufio.Writer, comparePathOptions
 	}
 
 	for i, char := range text[codeboxStart:codeboxEnd] {
-		if char == '\n' {
-			if line != codeboxEndLine {
-				lineIndentCalculated = false
-				lineEnds[line-codeboxStartLine] = lastNonSpaceIndex - int(lineMap[line]) + codeboxStart
-				lastNonSpaceIndex = -1
-				line++
-			}
-			continue
+		for line != codeboxEndLine && codeboxStart+i >= int(lineMap[line+1]) {
+			lineIndentCalculated = false
+			lineEnds[line-codeboxStartLine] = lastNonSpaceIndex - int(lineMap[line]) + codeboxStart
+			lastNonSpaceIndex = -1
+			line++
 		}
 
 		if !lineIndentCalculated && !unicode.IsSpace(char) {
@@ -304,8 +301,10 @@ func printDiagnostic(d rule.RuleDiagnostic, w *bufio.Writer, comparePathOptions
 			lastNonSpaceIndex = i + 1
 		}
 	}
-	if line == codeboxEndLine {
-		lineEnds[line-codeboxStartLine] = lastNonSpaceIndex - int(lineMap[line]) + codeboxStart
+	lineEnds[line-codeboxStartLine] = lastNonSpaceIndex - int(lineMap[line]) + codeboxStart
+	if indentSize == math.MaxInt {
+		// There is nothing but whitespace.
+		indentSize = 0
 	}
 
 	diagnosticHighlightActive := false
-- 
2.43.0


From fdb35b1f9a896c387a3c64acd6d49f94117b1daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 13/26] fix: ignore the byte order mark of source overrides

---
 cmd/tsgolint/overlayfs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/tsgolint/overlayfs.go b/cmd/tsgolint/overlayfs.go
index 228f268..99e4052 100644
--- a/cmd/tsgolint/overlayfs.go
+++ b/cmd/tsgolint/overlayfs.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"strings"
 	"time"
 
 	"github.com/microsoft/typescript-go/shim/vfs"
@@ -31,7 +32,8 @@ func (o *overlayFS) FileExists(path string) bool {
 
 func (o *overlayFS) ReadFile(path string) (string, bool) {
 	if content, ok := o.overrides[path]; ok {
-		return content, true
+		// The file system does not hand out byte order marks either.
+		return strings.TrimPrefix(content, "\ufeff"), true
 	}
 	return o.underlying.ReadFile(path)
 }
-- 
2.43.0


From 08a359dafb50881373d6b136435cf1ad8f39e059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 14/26] fix: keep the ranges of missing nodes in order

---
 internal/utils/utils.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/utils/utils.go b/internal/utils/utils.go
index 5d71d0e..9b2d7f5 100644
--- a/internal/utils/utils.go
+++ b/internal/utils/utils.go
@@ -13,7 +13,9 @@ import (
 )
 
 func TrimNodeTextRange(sourceFile *ast.SourceFile, node *ast.Node) core.TextRange {
-	return scanner.GetRangeOfTokenAtPosition(sourceFile, node.Pos()).WithEnd(node.End())
+	start := scanner.GetRangeOfTokenAtPosition(sourceFile, node.Pos()).Pos()
+	// The next token lies behind a node that is missing in the source.
+	return core.NewTextRange(min(start, node.End()), node.End())
 }
 
 func GetCommentsInRange(sourceFile *ast.SourceFile, inRange core.TextRange) iter.Seq[ast.CommentRange] {
-- 
2.43.0


From de161c20e8e9aba8cda87e7bb95cc9dde02f64b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 15/26] fix: no-deprecated: stop at circular aliases

---
 internal/rules/no_deprecated/no_deprecated.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/rules/no_deprecated/no_deprecated.go b/internal/rules/no_deprecated/no_deprecated.go
index ad824b1..eb15528 100644
--- a/internal/rules/no_deprecated/no_deprecated.go
+++ b/internal/rules/no_deprecated/no_deprecated.go
@@ -158,7 +158,14 @@ var NoDeprecatedRule = rule.Rule{
 
 			targetSymbol := ctx.TypeChecker.GetAliasedSymbol(symbol)
 
+			// Aliases can be circular: modules may re-export each other's exports.
+			visited := map[*ast.Symbol]struct{}{}
 			for utils.IsSymbolFlagSet(symbol, ast.SymbolFlagsAlias) {
+				if _, ok := visited[symbol]; ok {
+					break
+				}
+				visited[symbol] = struct{}{}
+
 				isDeprecated, reason := getJsDocDeprecation(symbol)
 				if isDeprecated {
 					return true, reason
-- 
2.43.0


From 743db17373f249cd2da56f7e471a22e16c980fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 16/26] fix: no-mixed-enums: allow enums merged with namespaces
 or empty enums

---
 internal/rules/no_mixed_enums/no_mixed_enums.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_mixed_enums/no_mixed_enums.go b/internal/rules/no_mixed_enums/no_mixed_enums.go
index c2ac6ee..7bc6d33 100644
--- a/internal/rules/no_mixed_enums/no_mixed_enums.go
+++ b/internal/rules/no_mixed_enums/no_mixed_enums.go
@@ -51,9 +51,16 @@ var NoMixedEnumsRule = rule.Rule{
 		getDesiredTypeForDefinition := func(node *ast.Node) allowedType {
 			symbol := ctx.TypeChecker.GetSymbolAtLocation(node.Name())
 
-			declaration := symbol.Declarations[0]
+			// The enum may be merged with namespaces and with enums that have no members.
+			if symbol != nil {
+				for _, declaration := range symbol.Declarations {
+					if ast.IsEnumDeclaration(declaration) && len(declaration.Members()) > 0 {
+						return getMemberType(declaration.Members()[0])
+					}
+				}
+			}
 
-			return getMemberType(declaration.Members()[0])
+			return getMemberType(node.Members()[0])
 		}
 		return rule.RuleListeners{
 			ast.KindEnumDeclaration: func(node *ast.Node) {
-- 
2.43.0


From 8eba29e0db0cefc68a217f9d928fd05025879bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 17/26] fix: no-unnecessary-template-expression: skip
 interpolations without a closing brace

---
 .../no_unnecessary_template_expression.go                    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
index 845c323..bd19196 100644
--- a/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
+++ b/internal/rules/no_unnecessary_template_expression/no_unnecessary_template_expression.go
@@ -214,7 +214,7 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 		}
 
 		isTrivialInterpolation := func(templateSpans *ast.NodeList, head *ast.TemplateHeadNode, firstSpanLiteral *ast.Node) bool {
-			return len(templateSpans.Nodes) == 1 && head.AsTemplateHead().Text == "" && firstSpanLiteral.Text() == "" && !utils.HasCommentsInRange(ctx.SourceFile, core.NewTextRange(head.End(), firstSpanLiteral.Pos())) && !utils.HasCommentsInRange(ctx.SourceFile, core.NewTextRange(firstSpanLiteral.Pos(), utils.TrimNodeTextRange(ctx.SourceFile, firstSpanLiteral).Pos()))
+			return len(templateSpans.Nodes) == 1 && !ast.NodeIsMissing(firstSpanLiteral) && head.AsTemplateHead().Text == "" && firstSpanLiteral.Text() == "" && !utils.HasCommentsInRange(ctx.SourceFile, core.NewTextRange(head.End(), firstSpanLiteral.Pos())) && !utils.HasCommentsInRange(ctx.SourceFile, core.NewTextRange(firstSpanLiteral.Pos(), utils.TrimNodeTextRange(ctx.SourceFile, firstSpanLiteral).Pos()))
 		}
 
 		isEnumMemberType := func(t *checker.Type) bool {
@@ -248,7 +248,8 @@ var NoUnnecessaryTemplateExpressionRule = rule.Rule{
 					literal = s.Literal
 				}
 
-				if !isUnnecessaryValueInterpolation(expr, prevQuasiEnd, literal) {
+				// The closing brace may be missing in damaged source text.
+				if ast.NodeIsMissing(literal) || !isUnnecessaryValueInterpolation(expr, prevQuasiEnd, literal) {
 					continue
 				}
 
-- 
2.43.0


From 60b6808f063467026d9cfaf7997eece9bcfb4d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 18/26] fix: use-unknown-in-catch-callback-variable: allow rest
 parameters of an empty tuple type

---
 .../use_unknown_in_catch_callback_variable.go              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go b/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
index 4d46911..83fe96e 100644
--- a/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
+++ b/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
@@ -79,7 +79,12 @@ var UseUnknownInCatchCallbackVariableRule = rule.Rule{
 						if !checker.Checker_isArrayOrTupleType(ctx.TypeChecker, firstParamType) {
 							return true
 						}
-						firstParamType = checker.Checker_getTypeArguments(ctx.TypeChecker, firstParamType)[0]
+						typeArguments := checker.Checker_getTypeArguments(ctx.TypeChecker, firstParamType)
+						if len(typeArguments) == 0 {
+							// An empty tuple does not take the error.
+							continue
+						}
+						firstParamType = typeArguments[0]
 					}
 
 					if !utils.IsTypeFlagSet(firstParamType, checker.TypeFlagsUnknown) {
-- 
2.43.0


From a6b9780a7d1cd8b21e144fc2eb9dd0a27d063223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 19/26] fix: unbound-method: allow `this` parameters without a
 type

---
 internal/rules/unbound_method/unbound_method.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/rules/unbound_method/unbound_method.go b/internal/rules/unbound_method/unbound_method.go
index 38218f0..b9b8611 100644
--- a/internal/rules/unbound_method/unbound_method.go
+++ b/internal/rules/unbound_method/unbound_method.go
@@ -164,7 +164,7 @@ func checkMethod(valueDeclaration *ast.Node, ignoreStatic bool) ( /* dangerous *
 
 	firstParamIsThis := len(params) > 0 && ast.IsParameterDeclaration(params[0]) && ast.IsIdentifier(params[0].Name()) && params[0].Name().Text() == "this"
 
-	thisArgIsVoid := firstParamIsThis && params[0].Type().Kind == ast.KindVoidKeyword
+	thisArgIsVoid := firstParamIsThis && params[0].Type() != nil && params[0].Type().Kind == ast.KindVoidKeyword
 
 	dangerous := !thisArgIsVoid && (!ignoreStatic || !utils.IncludesModifier(valueDeclaration, ast.KindStaticKeyword))
 
-- 
2.43.0


From f4b72ea848d472c7e2c23c75238a843296efa019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:59 +0000
Subject: [PATCH 20/26] fix: require-await: find the closing angle bracket of
 the return type

---
 internal/rules/require_await/require_await.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/rules/require_await/require_await.go b/internal/rules/require_await/require_await.go
index ff624f5..7104b75 100644
--- a/internal/rules/require_await/require_await.go
+++ b/internal/rules/require_await/require_await.go
@@ -175,10 +175,14 @@ func buildRemoveAsyncFixes(sourceFile *ast.SourceFile, node *ast.Node, asyncToke
 	case !isGenerator && isTypeReferenceNamed(typeRef, "Promise") && typeRef.TypeArguments != nil && len(typeRef.TypeArguments.Nodes) > 0:
 		// Unwrap `Promise<T>` to `T` by deleting `Promise<` and the trailing `>`.
 		// `TypeArguments.Loc` spans the content between the angle brackets, so
-		// `Pos()-1` is the `<` and `End()` is the `>` (same invariant as parameter
-		// lists; `parseBracketedList` sets these bounds).
+		// `Pos()-1` is the `<` and the next token after `End()` is the `>` (same
+		// invariant as parameter lists; `parseBracketedList` sets these bounds).
 		openAnglePos := typeRef.TypeArguments.Loc.Pos() - 1
-		closeAnglePos := typeRef.TypeArguments.Loc.End()
+		closeAnglePos := scanner.SkipTrivia(text, typeRef.TypeArguments.Loc.End())
+		if closeAnglePos >= len(text) || text[closeAnglePos] != '>' {
+			// The source text is damaged.
+			break
+		}
 		fixes = append(fixes,
 			rule.RuleFixRemoveRange(core.NewTextRange(closeAnglePos, closeAnglePos+1)),
 			rule.RuleFixRemoveRange(core.NewTextRange(typeNameStart, openAnglePos+1)),
-- 
2.43.0


From 38618461dba93cc122593362e3dcb7bbcfdffcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:00 +0000
Subject: [PATCH 21/26] fix: do not let a fixed statement continue the one
 before it

---
 .../rules/await_thenable/await_thenable.go    | 38 +++++++++++++++++--
 .../rules/no_array_delete/no_array_delete.go  |  7 +++-
 .../no_meaningless_void_operator.go           |  6 ++-
 .../prefer_regexp_exec/prefer_regexp_exec.go  |  3 ++
 internal/utils/utils.go                       | 27 +++++++++++++
 5 files changed, 75 insertions(+), 6 deletions(-)

diff --git a/internal/rules/await_thenable/await_thenable.go b/internal/rules/await_thenable/await_thenable.go
index e9cdd39..24365c9 100644
--- a/internal/rules/await_thenable/await_thenable.go
+++ b/internal/rules/await_thenable/await_thenable.go
@@ -94,6 +94,29 @@ var promiseAggregatorMethods = []string{
 	"race",
 }
 
+// needsParenthesesWithoutAwait reports whether the operand of an await expression would be
+// taken for a block or a declaration if it stood in the place of the whole expression.
+func needsParenthesesWithoutAwait(sourceFile *ast.SourceFile, node *ast.Node) bool {
+	switch scanner.ScanTokenAtPosition(sourceFile, node.AsAwaitExpression().Expression.Pos()) {
+	case ast.KindOpenBraceToken, ast.KindFunctionKeyword, ast.KindClassKeyword:
+	default:
+		return false
+	}
+	start := node.Pos()
+	for current, parent := node, node.Parent; parent != nil; current, parent = parent, parent.Parent {
+		if ast.IsArrowFunction(parent) {
+			return parent.Body() == current
+		}
+		if parent.Pos() != start {
+			return false
+		}
+		if ast.IsExpressionStatement(parent) {
+			return true
+		}
+	}
+	return false
+}
+
 var AwaitThenableRule = rule.Rule{
 	Name: "await-thenable",
 	Run: func(ctx rule.RuleContext, options any) rule.RuleListeners {
@@ -110,11 +133,18 @@ var AwaitThenableRule = rule.Rule{
 						buildAwaitMessage(),
 						utils.TrimNodeTextRange(ctx.SourceFile, awaitArgument),
 					), func() []rule.RuleSuggestion {
+						fixes := []rule.RuleFix{rule.RuleFixRemoveRange(awaitTokenRange)}
+						if needsParenthesesWithoutAwait(ctx.SourceFile, node) {
+							fixes = []rule.RuleFix{
+								rule.RuleFixReplaceRange(awaitTokenRange, "("),
+								rule.RuleFixInsertAfter(awaitArgument, ")"),
+							}
+						} else if utils.ContinuesPreviousStatement(ctx.SourceFile, node, ctx.SourceFile.Text()[utils.TrimNodeTextRange(ctx.SourceFile, awaitArgument).Pos():]) {
+							fixes = []rule.RuleFix{rule.RuleFixReplaceRange(awaitTokenRange, ";")}
+						}
 						return []rule.RuleSuggestion{{
-							Message: buildRemoveAwaitMessage(),
-							FixesArr: []rule.RuleFix{
-								rule.RuleFixRemoveRange(awaitTokenRange),
-							},
+							Message:  buildRemoveAwaitMessage(),
+							FixesArr: fixes,
 						}}
 					})
 				}
diff --git a/internal/rules/no_array_delete/no_array_delete.go b/internal/rules/no_array_delete/no_array_delete.go
index f7b2206..9af0fcf 100644
--- a/internal/rules/no_array_delete/no_array_delete.go
+++ b/internal/rules/no_array_delete/no_array_delete.go
@@ -77,10 +77,15 @@ var NoArrayDeleteRule = rule.Rule{
 					leftBracketTokenRange := scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, arrayExprRange.End())
 					rightBracketTokenRange := scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, argumentRange.End())
 
+					separator := ""
+					if utils.ContinuesPreviousStatement(ctx.SourceFile, node, ctx.SourceFile.Text()[arrayExprRange.Pos():]) {
+						separator = ";"
+					}
+
 					return []rule.RuleSuggestion{{
 						Message: buildUseSpliceMessage(),
 						FixesArr: []rule.RuleFix{
-							rule.RuleFixRemoveRange(deleteTokenRange),
+							rule.RuleFixReplaceRange(deleteTokenRange, separator),
 							rule.RuleFixReplaceRange(leftBracketTokenRange, ".splice("),
 							rule.RuleFixReplaceRange(rightBracketTokenRange, ", 1)"),
 						},
diff --git a/internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go b/internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go
index b5a29e1..41a009e 100644
--- a/internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go
+++ b/internal/rules/no_meaningless_void_operator/no_meaningless_void_operator.go
@@ -42,7 +42,11 @@ var NoMeaninglessVoidOperatorRule = rule.Rule{
 				})
 
 				fixRemoveVoidKeyword := func() rule.RuleFix {
-					return rule.RuleFixRemoveRange(utils.TrimNodeTextRange(ctx.SourceFile, node).WithEnd(arg.Pos()))
+					separator := ""
+					if utils.ContinuesPreviousStatement(ctx.SourceFile, node, ctx.SourceFile.Text()[utils.TrimNodeTextRange(ctx.SourceFile, arg).Pos():]) {
+						separator = ";"
+					}
+					return rule.RuleFixReplaceRange(utils.TrimNodeTextRange(ctx.SourceFile, node).WithEnd(arg.Pos()), separator)
 				}
 
 				if isAlwaysVoidLike {
diff --git a/internal/rules/prefer_regexp_exec/prefer_regexp_exec.go b/internal/rules/prefer_regexp_exec/prefer_regexp_exec.go
index 4939f75..44b2856 100644
--- a/internal/rules/prefer_regexp_exec/prefer_regexp_exec.go
+++ b/internal/rules/prefer_regexp_exec/prefer_regexp_exec.go
@@ -99,6 +99,9 @@ var PreferRegexpExecRule = rule.Rule{
 			if isWeakPrecedenceParent(node) && !isNodeParenthesized(node) {
 				code = "(" + code + ")"
 			}
+			if utils.ContinuesPreviousStatement(ctx.SourceFile, node, code) {
+				code = ";" + code
+			}
 
 			return rule.RuleFixReplace(ctx.SourceFile, node, code)
 		}
diff --git a/internal/utils/utils.go b/internal/utils/utils.go
index 9b2d7f5..c5b7bb1 100644
--- a/internal/utils/utils.go
+++ b/internal/utils/utils.go
@@ -3,6 +3,7 @@ package utils
 import (
 	"iter"
 	"slices"
+	"strings"
 	"unicode"
 
 	"github.com/go-json-experiment/json"
@@ -305,3 +306,29 @@ func (b BoolOr[T]) MarshalJSON() ([]byte, error) {
 func BoolOrValue[T any](val bool) BoolOr[T] {
 	return BoolOr[T]{isSet: true, boolVal: val}
 }
+
+// ContinuesPreviousStatement reports whether the given text, put in the place of the expression,
+// would be taken for the rest of the statement before it because that one has no semicolon.
+func ContinuesPreviousStatement(sourceFile *ast.SourceFile, node *ast.Node, text string) bool {
+	if text == "" || !strings.ContainsRune("([`/+-", rune(text[0])) {
+		return false
+	}
+	start := node.Pos()
+	for node.Parent != nil && node.Parent.Pos() == start && !ast.IsExpressionStatement(node) {
+		node = node.Parent
+	}
+	if !ast.IsExpressionStatement(node) || !node.Parent.CanHaveStatements() {
+		return false
+	}
+	statements := node.Parent.Statements()
+	index := slices.Index(statements, node)
+	if index <= 0 {
+		return false
+	}
+	previous := statements[index-1]
+	switch previous.Kind {
+	case ast.KindBlock, ast.KindFunctionDeclaration, ast.KindClassDeclaration, ast.KindInterfaceDeclaration, ast.KindEnumDeclaration:
+		return false
+	}
+	return previous.End() > previous.Pos() && sourceFile.Text()[previous.End()-1] != ';'
+}
-- 
2.43.0


From 29ef630f5aae5c12f799f3634b07b221330efc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:00 +0000
Subject: [PATCH 22/26] fix: promise-function-async: keep `async` and
 `function` on one line

---
 .../rules/promise_function_async/promise_function_async.go   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/rules/promise_function_async/promise_function_async.go b/internal/rules/promise_function_async/promise_function_async.go
index 1f6844e..960c9cc 100644
--- a/internal/rules/promise_function_async/promise_function_async.go
+++ b/internal/rules/promise_function_async/promise_function_async.go
@@ -3,6 +3,7 @@ package promise_function_async
 import (
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/checker"
+	"github.com/microsoft/typescript-go/shim/scanner"
 	"github.com/typescript-eslint/tsgolint/internal/rule"
 	"github.com/typescript-eslint/tsgolint/internal/utils"
 )
@@ -146,7 +147,9 @@ var PromiseFunctionAsyncRule = rule.Rule{
 				if modifiers != nil && len(modifiers.NodeList.Nodes) > 0 {
 					lastModifier := modifiers.NodeList.Nodes[len(modifiers.NodeList.Nodes)-1]
 					insertAsyncFix = func() rule.RuleFix {
-						return rule.RuleFixInsertAfter(lastModifier, " async")
+						// There must not be a line break between `async` and `function`.
+						functionKeyword := scanner.GetRangeOfTokenAtPosition(ctx.SourceFile, lastModifier.End())
+						return rule.RuleFixReplaceRange(functionKeyword.WithEnd(functionKeyword.Pos()), "async ")
 					}
 				}
 			}
-- 
2.43.0


From fb949862394b48597993b611440d737c58abc73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:00 +0000
Subject: [PATCH 23/26] fix: do not suggest TypeScript syntax in JavaScript
 files

---
 .../no_unnecessary_type_conversion.go         | 57 +++++++++----------
 .../no_useless_default_assignment.go          |  3 +-
 .../use_unknown_in_catch_callback_variable.go |  8 +++
 3 files changed, 37 insertions(+), 31 deletions(-)

diff --git a/internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go b/internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go
index c3f6bcf..317433d 100644
--- a/internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go
+++ b/internal/rules/no_unnecessary_type_conversion/no_unnecessary_type_conversion.go
@@ -170,23 +170,28 @@ var NoUnnecessaryTypeConversionRule = rule.Rule{
 			return rule.RuleFixReplace(ctx.SourceFile, node, code)
 		}
 
+		suggestRemoveOrSatisfies := func(removeFix rule.RuleFix, satisfiesFix rule.RuleFix) []rule.RuleSuggestion {
+			suggestions := []rule.RuleSuggestion{{
+				Message:  buildSuggestRemoveMessage(),
+				FixesArr: []rule.RuleFix{removeFix},
+			}}
+			// `satisfies` is a syntax error in JavaScript files
+			if !ast.IsSourceFileJS(ctx.SourceFile) {
+				suggestions = append(suggestions, rule.RuleSuggestion{
+					Message:  buildSuggestSatisfiesMessage(),
+					FixesArr: []rule.RuleFix{satisfiesFix},
+				})
+			}
+			return suggestions
+		}
+
 		buildSuggestions := func(node *ast.Node, primitiveType string, innerNodes ...*ast.Node) []rule.RuleSuggestion {
-			return []rule.RuleSuggestion{
-				{
-					Message: buildSuggestRemoveMessage(),
-					FixesArr: []rule.RuleFix{
-						buildWrappingFix(node, innerNodes, nil),
-					},
-				},
-				{
-					Message: buildSuggestSatisfiesMessage(),
-					FixesArr: []rule.RuleFix{
-						buildWrappingFix(node, innerNodes, func(code ...string) string {
-							return code[0] + " satisfies " + primitiveType
-						}),
-					},
-				},
-			}
+			return suggestRemoveOrSatisfies(
+				buildWrappingFix(node, innerNodes, nil),
+				buildWrappingFix(node, innerNodes, func(code ...string) string {
+					return code[0] + " satisfies " + primitiveType
+				}),
+			)
 		}
 
 		reportBinaryPlus := func(node *ast.Node) {
@@ -252,20 +257,12 @@ var NoUnnecessaryTypeConversionRule = rule.Rule{
 						removeFix = rule.RuleFixRemove(ctx.SourceFile, node.Parent)
 					}
 
-					return []rule.RuleSuggestion{
-						{
-							Message:  buildSuggestRemoveMessage(),
-							FixesArr: []rule.RuleFix{removeFix},
-						},
-						{
-							Message: buildSuggestSatisfiesMessage(),
-							FixesArr: []rule.RuleFix{
-								buildWrappingFix(node, []*ast.Node{expr.Left}, func(code ...string) string {
-									return code[0] + " satisfies string"
-								}),
-							},
-						},
-					}
+					return suggestRemoveOrSatisfies(
+						removeFix,
+						buildWrappingFix(node, []*ast.Node{expr.Left}, func(code ...string) string {
+							return code[0] + " satisfies string"
+						}),
+					)
 				},
 			)
 		}
diff --git a/internal/rules/no_useless_default_assignment/no_useless_default_assignment.go b/internal/rules/no_useless_default_assignment/no_useless_default_assignment.go
index a9147a9..d8a08ad 100644
--- a/internal/rules/no_useless_default_assignment/no_useless_default_assignment.go
+++ b/internal/rules/no_useless_default_assignment/no_useless_default_assignment.go
@@ -404,7 +404,8 @@ var NoUselessDefaultAssignmentRule = rule.Rule{
 			ctx.ReportNodeWithFixes(initializer, buildPreferOptionalSyntaxMessage(), func() []rule.RuleFix {
 				fixes := []rule.RuleFix{buildRemoveDefaultFix(node)}
 
-				if ast.IsParameterDeclaration(node) {
+				// `?` is a syntax error in JavaScript files, where every parameter is optional anyway
+				if ast.IsParameterDeclaration(node) && !ast.IsSourceFileJS(ctx.SourceFile) {
 					parameter := node.AsParameterDeclaration()
 					if name := parameter.Name(); ast.IsIdentifier(name) {
 						identifierRange := utils.TrimNodeTextRange(ctx.SourceFile, name)
diff --git a/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go b/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
index 83fe96e..684f00e 100644
--- a/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
+++ b/internal/rules/use_unknown_in_catch_callback_variable/use_unknown_in_catch_callback_variable.go
@@ -171,6 +171,10 @@ var UseUnknownInCatchCallbackVariableRule = rule.Rule{
 
 					if catchParam.DotDotDotToken != nil {
 						if catchTypeAnnotation == nil {
+							if ast.IsSourceFileJS(ctx.SourceFile) {
+								ctx.ReportNode(catchParamNode, buildUseUnknownMessage(method))
+								continue
+							}
 							ctx.ReportNodeWithSuggestions(catchParamNode, buildUseUnknownMessage(method), func() []rule.RuleSuggestion {
 								return []rule.RuleSuggestion{{
 									Message:  buildAddUnknownRestTypeAnnotationSuggestionMessage(),
@@ -194,6 +198,10 @@ var UseUnknownInCatchCallbackVariableRule = rule.Rule{
 					switch catchVariable.Kind {
 					case ast.KindIdentifier:
 						if catchTypeAnnotation == nil {
+							if ast.IsSourceFileJS(ctx.SourceFile) {
+								ctx.ReportNode(catchParamNode, buildUseUnknownMessage(method))
+								break
+							}
 							var fixes []rule.RuleFix
 							if utils.IsParenlessArrowFunction(flagged) {
 								fixes = []rule.RuleFix{
-- 
2.43.0


From 204b12b7e81b079680e7e343d14668423a155f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:00 +0000
Subject: [PATCH 24/26] fix: prefer-readonly: do not fix JavaScript files

---
 internal/rules/prefer_readonly/prefer_readonly.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/rules/prefer_readonly/prefer_readonly.go b/internal/rules/prefer_readonly/prefer_readonly.go
index 3b5d8be..ffcc715 100644
--- a/internal/rules/prefer_readonly/prefer_readonly.go
+++ b/internal/rules/prefer_readonly/prefer_readonly.go
@@ -461,6 +461,11 @@ var PreferReadonlyRule = rule.Rule{
 			}
 
 			for _, report := range reports {
+				// `readonly` is a syntax error in JavaScript files
+				if ast.IsSourceFileJS(ctx.SourceFile) {
+					ctx.ReportNode(report.reportNode, report.message)
+					continue
+				}
 				ctx.ReportNodeWithFixes(report.reportNode, report.message, func() []rule.RuleFix { return report.fixes })
 			}
 		}
-- 
2.43.0


From 6c45c2aecd994089b076834b766d838f7d39e4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:00 +0000
Subject: [PATCH 25/26] fix: do not join words when fixing

---
 .../consistent_type_exports.go                     |  7 ++++++-
 .../no_unnecessary_type_parameters.go              | 14 +++++++++++++-
 internal/rules/prefer_readonly/prefer_readonly.go  |  9 ++++++++-
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/internal/rules/consistent_type_exports/consistent_type_exports.go b/internal/rules/consistent_type_exports/consistent_type_exports.go
index f462f33..0b668fa 100644
--- a/internal/rules/consistent_type_exports/consistent_type_exports.go
+++ b/internal/rules/consistent_type_exports/consistent_type_exports.go
@@ -198,8 +198,13 @@ var ConsistentTypeExportsRule = rule.Rule{
 				for {
 					if s.Token() == ast.KindAsteriskToken {
 						tokenRange := s.TokenRange()
+						modifier := "type "
+						if tokenRange.Pos() == exportKeywordRange.End() {
+							// e.g. `export*from 'foo'`
+							modifier = " type "
+						}
 						return []rule.RuleFix{
-							rule.RuleFixReplaceRange(tokenRange.WithEnd(tokenRange.Pos()), "type "),
+							rule.RuleFixReplaceRange(tokenRange.WithEnd(tokenRange.Pos()), modifier),
 						}
 					}
 					if s.Token() == ast.KindEndOfFile || s.TokenRange().Pos() >= node.End() {
diff --git a/internal/rules/no_unnecessary_type_parameters/no_unnecessary_type_parameters.go b/internal/rules/no_unnecessary_type_parameters/no_unnecessary_type_parameters.go
index 7126797..1862df6 100644
--- a/internal/rules/no_unnecessary_type_parameters/no_unnecessary_type_parameters.go
+++ b/internal/rules/no_unnecessary_type_parameters/no_unnecessary_type_parameters.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"math"
 	"sort"
+	"unicode/utf8"
 
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/checker"
@@ -133,6 +134,13 @@ func getTypeParameterConstraintText(ctx rule.RuleContext, typeParameter *ast.Nod
 	return scanner.GetSourceTextOfNodeFromSourceFile(ctx.SourceFile, constraintNode, false /* includeTrivia */), constraintNode
 }
 
+// removesLastSeparator tells whether removing the range joins two words, e.g. `class Foo<T>extends Bar {}`
+func removesLastSeparator(text string, removalRange core.TextRange) bool {
+	before, _ := utf8.DecodeLastRuneInString(text[:removalRange.Pos()])
+	after, _ := utf8.DecodeRuneInString(text[removalRange.End():])
+	return scanner.IsIdentifierPart(before) && scanner.IsIdentifierPart(after)
+}
+
 func getTypeParameterListRemovalRange(ctx rule.RuleContext, typeParameters []*ast.Node, targetTypeParameter *ast.Node) core.TextRange {
 	index := findTypeParameterIndex(typeParameters, targetTypeParameter)
 	if index < 0 {
@@ -643,7 +651,11 @@ func checkNoUnnecessaryTypeParametersNode(ctx rule.RuleContext, node *ast.Node,
 					fixes = append(fixes, rule.RuleFixReplace(ctx.SourceFile, reference, replacement))
 				}
 
-				fixes = append(fixes, rule.RuleFixRemoveRange(removalRange))
+				separator := ""
+				if removesLastSeparator(ctx.SourceFile.Text(), removalRange) {
+					separator = " "
+				}
+				fixes = append(fixes, rule.RuleFixReplaceRange(removalRange, separator))
 
 				return []rule.RuleSuggestion{{
 					Message:  buildReplaceUsagesWithConstraintMessage(),
diff --git a/internal/rules/prefer_readonly/prefer_readonly.go b/internal/rules/prefer_readonly/prefer_readonly.go
index ffcc715..c5f0730 100644
--- a/internal/rules/prefer_readonly/prefer_readonly.go
+++ b/internal/rules/prefer_readonly/prefer_readonly.go
@@ -2,10 +2,12 @@ package prefer_readonly
 
 import (
 	"fmt"
+	"unicode/utf8"
 
 	"github.com/microsoft/typescript-go/shim/ast"
 	"github.com/microsoft/typescript-go/shim/checker"
 	"github.com/microsoft/typescript-go/shim/core"
+	"github.com/microsoft/typescript-go/shim/scanner"
 	"github.com/typescript-eslint/tsgolint/internal/rule"
 	"github.com/typescript-eslint/tsgolint/internal/utils"
 )
@@ -419,7 +421,12 @@ var PreferReadonlyRule = rule.Rule{
 				nameText := ctx.SourceFile.Text()[nameRange.Pos():nameRange.End()]
 				reportNode := getCustomReportNode(ctx.SourceFile, violatingNode, nameNode)
 
-				fixes := []rule.RuleFix{rule.RuleFixInsertBefore(ctx.SourceFile, nameNode, "readonly ")}
+				modifier := "readonly "
+				if previous, _ := utf8.DecodeLastRuneInString(ctx.SourceFile.Text()[:nameRange.Pos()]); scanner.IsIdentifierPart(previous) {
+					// e.g. `static#foo = 1`
+					modifier = " readonly "
+				}
+				fixes := []rule.RuleFix{rule.RuleFixInsertBefore(ctx.SourceFile, nameNode, modifier)}
 
 				if ast.IsPropertyDeclaration(violatingNode) {
 					property := violatingNode.AsPropertyDeclaration()
-- 
2.43.0


From bc53ec7d6dd786f5e252a072f09ae7d696de438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:22 +0000
Subject: [PATCH 26/26] fix: keep the ranges of TypeScript diagnostics at
 missing nodes in order

---
 internal/linter/linter.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/linter/linter.go b/internal/linter/linter.go
index b121624..0a1cbc4 100644
--- a/internal/linter/linter.go
+++ b/internal/linter/linter.go
@@ -325,7 +325,7 @@ func reportTypeScriptDiagnostics(program *compiler.Program, files []*ast.SourceF
 			for _, d := range syntacticDiagnostics {
 				if d.File() != nil && d.File().FileName() == fileName {
 					onInternalDiagnostic(diagnostic.Internal{
-						Range:       d.Loc(),
+						Range:       rangeOfDiagnostic(d),
 						Id:          "TS" + strconv.Itoa(int(d.Code())),
 						Description: utils.GetDiagnosticMessage(d),
 						FilePath:    &fileName,
@@ -355,7 +355,7 @@ func reportTypeScriptDiagnostics(program *compiler.Program, files []*ast.SourceF
 			for _, d := range finalDiagnostics {
 				if d.File() != nil && d.File().FileName() == fileName {
 					onInternalDiagnostic(diagnostic.Internal{
-						Range:       d.Loc(),
+						Range:       rangeOfDiagnostic(d),
 						Id:          "TS" + strconv.Itoa(int(d.Code())),
 						Description: utils.GetDiagnosticMessage(d),
 						FilePath:    &fileName,
@@ -366,6 +366,12 @@ func reportTypeScriptDiagnostics(program *compiler.Program, files []*ast.SourceF
 	}
 }
 
+// rangeOfDiagnostic returns the range of a diagnostic. For nodes that are missing in the source,
+// TypeScript may have skipped trivia behind their end.
+func rangeOfDiagnostic(d *ast.Diagnostic) core.TextRange {
+	return core.NewTextRange(min(d.Pos(), d.End()), d.End())
+}
+
 func makeSourceFileQueue(files []*ast.SourceFile) chan *ast.SourceFile {
 	queue := make(chan *ast.SourceFile, len(files))
 	for _, file := range files {
-- 
2.43.0

