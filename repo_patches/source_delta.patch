From 47ae18087291fe90d59a652fa87db49bc0f919f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 01/71] fix: don't skip or overrun chars after an escaped
 sequence separator

---
 pkg/core/parser/sequence.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/core/parser/sequence.go b/pkg/core/parser/sequence.go
index cda7e53..c8589c3 100644
--- a/pkg/core/parser/sequence.go
+++ b/pkg/core/parser/sequence.go
@@ -43,6 +43,8 @@ func (self *SequenceParser) Normalize(argv []string) []string {
 			//  2. this is a workaround, we also need to handle '\\', '\\\', ... things like that
 			if searchIdx >= 1 && "\\" == arg[searchIdx-1:searchIdx] {
 				arg = arg[0:searchIdx-1] + arg[searchIdx:]
+				// The separator moved back by one since the escape char was removed
+				searchIdx -= 1
 				continue
 			}
 			unbreakable := false
-- 
2.43.0


From ce5a88890b0d9ab6f64a0cabce8e9679794d0d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 02/71] fix: keep an escaped separator as a word when it is a
 whole arg

---
 pkg/core/parser/sequence.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pkg/core/parser/sequence.go b/pkg/core/parser/sequence.go
index c8589c3..5d4c195 100644
--- a/pkg/core/parser/sequence.go
+++ b/pkg/core/parser/sequence.go
@@ -23,8 +23,15 @@ func NewSequenceParser(
 }
 
 func (self *SequenceParser) Normalize(argv []string) []string {
+	res, _ := self.normalize(argv)
+	return res
+}
+
+// The result 'isSep' tells real separators from args which are equal to the separator (by escaping)
+func (self *SequenceParser) normalize(argv []string) (res []string, isSep map[int]bool) {
 	sepN := len(self.sep)
-	res := []string{}
+	res = []string{}
+	isSep = map[int]bool{}
 	for _, arg := range argv {
 		if len(arg) == 0 {
 			res = append(res, arg)
@@ -71,25 +78,26 @@ func (self *SequenceParser) Normalize(argv []string) []string {
 			if handledIdx != searchIdx {
 				res = append(res, arg[handledIdx:searchIdx])
 			}
+			isSep[len(res)] = true
 			res = append(res, self.sep)
 			handledIdx = searchIdx + sepN
 		}
 	}
-	return res
+	return
 }
 
 func (self *SequenceParser) Parse(argv []string) (parsed [][]string, firstIsGlobal bool) {
-	argv = self.Normalize(argv)
+	argv, isSep := self.normalize(argv)
 
 	firstIsGlobal = true
-	if len(argv) != 0 && argv[0] == self.sep {
+	if len(argv) != 0 && isSep[0] {
 		firstIsGlobal = false
 	}
 
 	parsed = [][]string{}
 	curr := []string{}
-	for _, arg := range argv {
-		if arg != self.sep {
+	for i, arg := range argv {
+		if !isSep[i] {
 			arg = strings.TrimSpace(arg)
 			//if len(arg) != 0 {
 			curr = append(curr, arg)
-- 
2.43.0


From 282f8d2af3cc06b7e895d161f9a84e5547f044af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 03/71] fix: report unparsed args as the rest words, not skip
 words or crash

---
 pkg/core/parser/env.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/core/parser/env.go b/pkg/core/parser/env.go
index 9a6ce2b..a790e28 100644
--- a/pkg/core/parser/env.go
+++ b/pkg/core/parser/env.go
@@ -79,7 +79,8 @@ func (self *EnvParser) TryParseRaw(
 		}
 		originIdx := normalized.originIdx[normalizedIdx]
 		originStrIdx := normalized.originStrIdx[normalizedIdx]
-		return tryTrimStrings(input[originIdx:][originStrIdx:])
+		rest := append([]string{input[originIdx][originStrIdx:]}, input[originIdx+1:]...)
+		return tryTrimStrings(rest)
 	}
 
 	// It's non-args env definition
-- 
2.43.0


From 1b7db9ab0ff27be775f8434e7a4d8d53be23e20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:47 +0000
Subject: [PATCH 04/71] fix: quote flow values so that the saved text reads
 back to the same values

---
 pkg/core/model/flow.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/core/model/flow.go b/pkg/core/model/flow.go
index 5bbb3b8..b9918fa 100644
--- a/pkg/core/model/flow.go
+++ b/pkg/core/model/flow.go
@@ -6,8 +6,6 @@ import (
 	"io"
 	"sort"
 	"strings"
-
-	"github.com/innerr/ticat/pkg/utils"
 )
 
 func SaveFlowToStr(flow *ParsedCmds, cmdPathSep string, trivialMark string, env *Env) string {
@@ -107,8 +105,7 @@ func SaveFlowEnv(
 		if strings.HasPrefix(k, prefix) && len(k) != len(prefix) {
 			k = strings.Join(v.MatchedPath[len(prefixPath):], pathSep)
 		}
-		val := normalizeEnvVal(v.Val, seqSep)
-		kv := fmt.Sprintf("%v%s%v", k, envKeyValSep, utils.QuoteStrIfHasSpace(val))
+		kv := fmt.Sprintf("%v%s%v", k, envKeyValSep, quoteFlowVal(v.Val, seqSep))
 		kvs = append(kvs, kv)
 	}
 
@@ -120,6 +117,16 @@ func SaveFlowEnv(
 	return true
 }
 
+// Make sure the value could be read back by 'cmd.go#FlowStrToStrs' and the sequence parser
+func quoteFlowVal(v string, seqSep string) string {
+	if strings.IndexAny(v, flowSpecialChars) < 0 {
+		return normalizeEnvVal(v, seqSep)
+	}
+	v = strings.ReplaceAll(v, seqSep, BackSlash+seqSep)
+	v = strings.ReplaceAll(v, BackSlash, BackSlash+BackSlash)
+	return "\"" + strings.ReplaceAll(v, "\"", BackSlash+"\"") + "\""
+}
+
 func normalizeEnvVal(v string, seqSep string) string {
 	i := 0
 	for i < len(v) {
@@ -143,3 +150,6 @@ func normalizeEnvVal(v string, seqSep string) string {
 // TODO: put '\' to env
 // TODO: too many related logic: here, parser, shellwords
 const BackSlash = "\\"
+
+// The chars which have special meaning to shellwords
+const flowSpecialChars = " \t\r\n\"'`;&|<>()" + BackSlash
-- 
2.43.0


From aeca8ab641a957c631913f69c362e1800a12e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 05/71] fix: don't lose or corrupt metadata values at an
 unfinished continuation or a blank last line

---
 pkg/mods/persist/meta_file/meta_file.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index 6ae526d..960f006 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -244,6 +244,11 @@ func (self *MetaFile) parse(lines []string) {
 		}
 		section.Set(k, v)
 	}
+
+	// The last line of the file still has a multi-line mark
+	if len(multiLineKey) != 0 {
+		section.Set(multiLineKey, strings.Join(multiLineValue, "\n"))
+	}
 }
 
 func (self *MetaFile) Save() {
@@ -259,8 +264,12 @@ func (self *MetaFile) Save() {
 func (self *MetaFile) save(w io.Writer) {
 	saveKey := func(key string, val string) (multiLine bool) {
 		lines := strings.Split(val, self.lineSep)
+		// A blank line in the end will make the following keys be parsed as part of this value
+		for len(lines) > 1 && len(strings.TrimSpace(lines[len(lines)-1])) == 0 {
+			lines = lines[:len(lines)-1]
+		}
 		if len(lines) == 1 {
-			fmt.Fprintf(w, "%s %s %s\n", key, self.kvSep, val)
+			fmt.Fprintf(w, "%s %s %s\n", key, self.kvSep, lines[0])
 			return false
 		} else {
 			fmt.Fprintf(w, "%s %s %s %c\n", key, self.kvSep, lines[0], MultiLineBreaker)
-- 
2.43.0


From 411b8d55db9967248e37e9ab93dab239e71b682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 06/71] fix: go on correctly after a tolerated failure, don't
 rerun commands or break the stack and the session record

---
 pkg/core/model/cmd.go       | 54 ++++++++++++++++++++++++++-----------
 pkg/core/model/executing.go | 14 ++++++++++
 pkg/core/model/forest.go    | 11 ++++++++
 3 files changed, 63 insertions(+), 16 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index db61fae..f4eafb4 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -242,28 +242,50 @@ func (self *Cmd) execute(
 
 	logFilePath := self.genLogFilePath(env)
 
+	// If the error is tolerated, the flow should go on from this command, with the original status
+	newCurrCmdIdx = currCmdIdx
+	stackEnv := env.GetLayer(EnvLayerSession)
+	stack, stackDepth := stackEnv.GetRaw("sys.stack"), stackEnv.GetRaw("sys.stack-depth")
+	forestDepth := cc.ForestMode.Depth()
+	statusLevel := 0
 	if cc.FlowStatus != nil {
+		statusLevel = cc.FlowStatus.Level()
 		cc.FlowStatus.OnCmdStart(flow, currCmdIdx, env, logFilePath)
-		defer func() {
-			r := recover()
-			handledErr := false
-			var err error
-			isAbort := false
-			if r != nil {
-				handledErr = cc.HandledErrors[r]
-				err = r.(error)
-				_, isAbort = err.(*AbortByUserErr)
+	}
+	defer func() {
+		r := recover()
+		handledErr := false
+		var err error
+		isAbort := false
+		if r != nil {
+			handledErr = cc.HandledErrors[r]
+			var isErr bool
+			if err, isErr = r.(error); !isErr {
+				err = fmt.Errorf("%v", r)
 			}
+			_, isAbort = err.(*AbortByUserErr)
+		}
+		tolerated := r != nil && !isAbort && (allowError || self.flags.quietError)
 
-			if (r == nil || !handledErr) && !isAbort {
-				cc.FlowStatus.OnCmdFinish(flow, currCmdIdx, env, succeeded, err, !shouldExecByMask(mask) && !executedAndSucceeded(mask))
-				cc.HandledErrors[r] = true
+		if cc.FlowStatus != nil && !isAbort && (!handledErr || tolerated) {
+			if handledErr {
+				err = nil
 			}
-			if r != nil && !self.flags.quietError && !allowError {
-				panic(r)
+			cc.FlowStatus.FinishFailedSubFlows(env, statusLevel)
+			cc.FlowStatus.OnCmdFinish(flow, currCmdIdx, env, succeeded, err, !shouldExecByMask(mask) && !executedAndSucceeded(mask))
+			if r != nil {
+				cc.HandledErrors[r] = true
 			}
-		}()
-	}
+		}
+		if !succeeded && allowError && !isAbort {
+			stackEnv.Set("sys.stack", stack)
+			stackEnv.Set("sys.stack-depth", stackDepth)
+			cc.ForestMode.ShrinkTo(forestDepth)
+		}
+		if r != nil && !tolerated {
+			panic(r)
+		}
+	}()
 
 	if mask != nil && mask.OverWriteFinishEnv != nil {
 		p := env
diff --git a/pkg/core/model/executing.go b/pkg/core/model/executing.go
index 0bdeaea..c1d8ced 100644
--- a/pkg/core/model/executing.go
+++ b/pkg/core/model/executing.go
@@ -163,6 +163,20 @@ func (self *ExecutingFlow) OnSubFlowFinish(env *Env, succeeded bool, skipped boo
 	writeStatusContent(self.path, buf.String())
 }
 
+func (self *ExecutingFlow) Level() int {
+	return self.level
+}
+
+// A failed subflow doesn't finish by itself, do it before writing the result of the command who owns it
+func (self *ExecutingFlow) FinishFailedSubFlows(env *Env, level int) {
+	for self.level > level {
+		self.OnSubFlowFinish(env, false, false)
+		if env.GetBool("sys.unlog-status") {
+			self.level = level
+		}
+	}
+}
+
 func (self *ExecutingFlow) OnFlowFinish(env *Env, succeeded bool) {
 	if env.GetBool("sys.unlog-status") {
 		return
diff --git a/pkg/core/model/forest.go b/pkg/core/model/forest.go
index 625ace3..5b1b374 100644
--- a/pkg/core/model/forest.go
+++ b/pkg/core/model/forest.go
@@ -32,6 +32,17 @@ func (self *ForestMode) Push(frame string) {
 	self.stack = append(self.stack, frame)
 }
 
+func (self *ForestMode) Depth() int {
+	return len(self.stack)
+}
+
+// Discard the frames which can't be popped since their flows are failed
+func (self *ForestMode) ShrinkTo(depth int) {
+	if len(self.stack) > depth {
+		self.stack = self.stack[0:depth]
+	}
+}
+
 func (self *ForestMode) Clone() *ForestMode {
 	stack := []string{}
 	for _, it := range self.stack {
-- 
2.43.0


From 5aa0eea73da54cf699f0f4e53ec9685d4a4b5919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 07/71] fix: don't crash when a command is delayed and there is
 no session dir

---
 pkg/core/execute/executor.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index e4e0d61..270bb6b 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -511,16 +511,21 @@ func asyncExecute(
 		realName := cmd.LastCmdNode().DisplayPath()
 		tid := utils.GoRoutineIdStr()
 
+		bgSessionEnv := env.GetLayer(model.EnvLayerSession)
+
+		// There is no session dir when the session is disabled or not needed
 		sessionDir := env.GetRaw("session")
-		sessionDir = filepath.Join(sessionDir, tid)
-		os.MkdirAll(sessionDir, os.ModePerm)
+		if len(sessionDir) != 0 {
+			sessionDir = filepath.Join(sessionDir, tid)
+			os.MkdirAll(sessionDir, os.ModePerm)
 
-		statusFileName := env.GetRaw("strs.session-status-file")
-		statusPath := filepath.Join(sessionDir, statusFileName)
-		cc.SetFlowStatusWriter(model.NewExecutingFlow(statusPath, flow, env))
+			statusFileName := env.GetRaw("strs.session-status-file")
+			statusPath := filepath.Join(sessionDir, statusFileName)
+			cc.SetFlowStatusWriter(model.NewExecutingFlow(statusPath, flow, env))
+
+			bgSessionEnv.Set("session", sessionDir)
+		}
 
-		bgSessionEnv := env.GetLayer(model.EnvLayerSession)
-		bgSessionEnv.Set("session", sessionDir)
 		bgSessionEnv.SetBool("display.one-cmd", true)
 		bgSessionEnv.SetBool("sys.in-bg-task", true)
 
@@ -569,7 +574,9 @@ func asyncExecute(
 				env, ok, elapsed, flow.Cmds, currCmdIdx, cc.Cmds.Strs)
 			display.RenderCmdResult(resultLines, env, cc.Screen, width)
 		}
-		cc.FlowStatus.OnFlowFinish(env, ok)
+		if cc.FlowStatus != nil {
+			cc.FlowStatus.OnFlowFinish(env, ok)
+		}
 
 	}(dur, argv, cc, env, flow, currCmdIdx)
 
-- 
2.43.0


From 881553ee71560538fe4dc71e7cb21aa7cbdbe4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 08/71] fix: don't duplicate commands when several blender
 rules are live, and count down their times

---
 pkg/core/model/blender.go | 49 ++++++++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/pkg/core/model/blender.go b/pkg/core/model/blender.go
index cc80245..cda983f 100644
--- a/pkg/core/model/blender.go
+++ b/pkg/core/model/blender.go
@@ -7,6 +7,7 @@ import (
 
 type BlenderInvoker interface {
 	Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool)
+	Clone() BlenderInvoker
 }
 
 type BlenderInvokerReplace struct {
@@ -15,7 +16,7 @@ type BlenderInvokerReplace struct {
 	dest ParsedCmd
 }
 
-func (self BlenderInvokerReplace) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
+func (self *BlenderInvokerReplace) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
 	if self.src.LastCmdNode() != cmd.LastCmdNode() {
 		return []ParsedCmd{cmd}, false, 0, false
 	}
@@ -25,12 +26,17 @@ func (self BlenderInvokerReplace) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, origi
 	return []ParsedCmd{self.dest}, true, -1, self.cnt == 0
 }
 
+func (self *BlenderInvokerReplace) Clone() BlenderInvoker {
+	cloned := *self
+	return &cloned
+}
+
 type BlenderInvokerRemove struct {
 	cnt    int
 	target ParsedCmd
 }
 
-func (self BlenderInvokerRemove) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
+func (self *BlenderInvokerRemove) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
 	if self.target.LastCmdNode() != cmd.LastCmdNode() {
 		return []ParsedCmd{cmd}, false, 0, false
 	}
@@ -40,13 +46,18 @@ func (self BlenderInvokerRemove) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, origin
 	return nil, true, -1, self.cnt == 0
 }
 
+func (self *BlenderInvokerRemove) Clone() BlenderInvoker {
+	cloned := *self
+	return &cloned
+}
+
 type BlenderInvokerInsert struct {
 	cnt    int
 	target ParsedCmd
 	newCmd ParsedCmd
 }
 
-func (self BlenderInvokerInsert) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
+func (self *BlenderInvokerInsert) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
 	if self.target.LastCmdNode() != cmd.LastCmdNode() {
 		return []ParsedCmd{cmd}, false, 0, false
 	}
@@ -56,13 +67,18 @@ func (self BlenderInvokerInsert) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, origin
 	return []ParsedCmd{self.newCmd, cmd}, true, 1, self.cnt == 0
 }
 
+func (self *BlenderInvokerInsert) Clone() BlenderInvoker {
+	cloned := *self
+	return &cloned
+}
+
 type BlenderInvokerInsertAfter struct {
 	cnt    int
 	target ParsedCmd
 	newCmd ParsedCmd
 }
 
-func (self BlenderInvokerInsertAfter) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
+func (self *BlenderInvokerInsertAfter) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, originDeleted bool, originPosDelta int, finished bool) {
 	if self.target.LastCmdNode() != cmd.LastCmdNode() {
 		return []ParsedCmd{cmd}, false, 0, false
 	}
@@ -72,6 +88,11 @@ func (self BlenderInvokerInsertAfter) Invoke(cmd ParsedCmd) (cmds []ParsedCmd, o
 	return []ParsedCmd{cmd, self.newCmd}, false, 0, self.cnt == 0
 }
 
+func (self *BlenderInvokerInsertAfter) Clone() BlenderInvoker {
+	cloned := *self
+	return &cloned
+}
+
 type Blender struct {
 	invokers []BlenderInvoker
 }
@@ -85,7 +106,7 @@ func NewBlender() *Blender {
 func (self *Blender) Clone() *Blender {
 	invokers := []BlenderInvoker{}
 	for _, info := range self.invokers {
-		invokers = append(invokers, info)
+		invokers = append(invokers, info.Clone())
 	}
 	return &Blender{
 		invokers,
@@ -154,23 +175,17 @@ func (self *Blender) Invoke(cc *Cli, env *Env, flow *ParsedCmds) (changed bool)
 
 		originDeleted := false
 		originPosDelta := 0
-		addedCmdCnt := 0
+		expanded := []ParsedCmd{parsedCmd}
 		for j := 0; j < len(self.invokers); j++ {
 			invoker := self.invokers[j]
 			cmds, deleted, posDelta, finished := invoker.Invoke(parsedCmd)
 			if finished {
-				if j == len(self.invokers)-1 {
-					self.invokers = self.invokers[0:j]
-				} else {
-					self.invokers = append(self.invokers[0:j], self.invokers[j+1:]...)
-				}
-				j += 1
+				self.invokers = append(self.invokers[0:j], self.invokers[j+1:]...)
+				j -= 1
 			}
 
-			addedCmdCnt += len(cmds) - 1
-			if len(cmds) > 0 {
-				result = append(result, cmds...)
-			}
+			// Keep the commands which were inserted after the origin one
+			expanded = append(append([]ParsedCmd{}, cmds...), expanded[1:]...)
 			if deleted {
 				originDeleted = true
 				break
@@ -178,6 +193,8 @@ func (self *Blender) Invoke(cc *Cli, env *Env, flow *ParsedCmds) (changed bool)
 				originPosDelta += posDelta
 			}
 		}
+		result = append(result, expanded...)
+		addedCmdCnt := len(expanded) - 1
 
 		if originDeleted || originPosDelta != 0 {
 			changed = true
-- 
2.43.0


From a3a77ae47b9b90748c88e318334d471abc3a89b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 09/71] fix: read saved env values longer than 64K

---
 pkg/core/model/proto.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 1db1472..e15ab22 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -35,6 +36,8 @@ func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDe
 
 func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 	scanner := bufio.NewScanner(reader)
+	// The default max line length is 64K, values could be longer than that
+	scanner.Buffer(nil, math.MaxInt)
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		text := scanner.Text()
@@ -55,7 +58,7 @@ func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 		}
 	}
 
-	return nil
+	return scanner.Err()
 }
 
 func saveEnvToFile(env *Env, path string, sep string, filtered []string, skipDefault bool) {
-- 
2.43.0


From 9bbe7b0a2d5d87990801cadf36c3dc12e957ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 10/71] fix: don't refuse a sequence by an optional read after
 a satisfied read

---
 pkg/core/model/env_ops.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/core/model/env_ops.go b/pkg/core/model/env_ops.go
index 859f161..1a09de1 100644
--- a/pkg/core/model/env_ops.go
+++ b/pkg/core/model/env_ops.go
@@ -185,16 +185,16 @@ func (self EnvOpsChecker) OnCallCmd(
 			res.Cmd = cmd.Owner()
 			if (before.val&EnvOpTypeWrite) == 0 &&
 				(before.val&EnvOpTypeMayWrite) == 0 {
-				if (before.val & EnvOpTypeRead) != 0 {
+				if (curr & EnvOpTypeRead) != 0 {
 					res.ReadNotExist = true
-				} else if (before.val & EnvOpTypeMayRead) != 0 {
+				} else if (curr & EnvOpTypeMayRead) != 0 {
 					res.MayReadNotExist = true
 				}
 			} else if (before.val & EnvOpTypeMayWrite) != 0 {
-				if (before.val & EnvOpTypeRead) != 0 {
+				if (curr & EnvOpTypeRead) != 0 {
 					res.ReadMayWrite = true
 					res.MayWriteCmdsBefore = before.mayWriteCmds
-				} else if (before.val & EnvOpTypeMayRead) != 0 {
+				} else if (curr & EnvOpTypeMayRead) != 0 {
 					res.MayReadMayWrite = true
 					res.MayWriteCmdsBefore = before.mayWriteCmds
 				}
-- 
2.43.0


From d2fd902a347b2e715aee162528aae341c92c2ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 11/71] fix: env-ops check should remove a key from all the
 layers as env.remove does

---
 pkg/mods/builtin/misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/misc.go b/pkg/mods/builtin/misc.go
index 95c99b9..35aa1db 100644
--- a/pkg/mods/builtin/misc.go
+++ b/pkg/mods/builtin/misc.go
@@ -245,7 +245,7 @@ func EnvOpCmds() []model.EnvOpCmd {
 				if checker != nil {
 					checker.RemoveKeyStat(key)
 				}
-				env.GetLayer(model.EnvLayerSession).Delete(key)
+				env.DeleteEx(key, model.EnvLayerDefault)
 			}},
 		model.EnvOpCmd{RemoveEnvValAndSaveToLocal,
 			func(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
-- 
2.43.0


From e38c085e3d4a9cff29fbed8c4dd089d0925a049f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 12/71] fix: env-ops check should keep the keys excluded from
 env.reset-session

---
 pkg/core/model/env_ops.go | 10 ++++++++--
 pkg/mods/builtin/misc.go  | 17 ++++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/pkg/core/model/env_ops.go b/pkg/core/model/env_ops.go
index 1a09de1..f24b5d2 100644
--- a/pkg/core/model/env_ops.go
+++ b/pkg/core/model/env_ops.go
@@ -138,8 +138,14 @@ type EnvOpCmd struct {
 	Action func(*EnvOpsChecker, ArgVals, *Env)
 }
 
-func (self *EnvOpsChecker) Reset() {
-	*self = EnvOpsChecker{}
+func (self *EnvOpsChecker) Reset(excludes map[string]string) {
+	kept := EnvOpsChecker{}
+	for key, info := range *self {
+		if _, ok := excludes[key]; ok {
+			kept[key] = info
+		}
+	}
+	*self = kept
 }
 
 func (self *EnvOpsChecker) RemoveKeyStat(key string) {
diff --git a/pkg/mods/builtin/misc.go b/pkg/mods/builtin/misc.go
index 35aa1db..955a756 100644
--- a/pkg/mods/builtin/misc.go
+++ b/pkg/mods/builtin/misc.go
@@ -182,16 +182,27 @@ func EnvOpCmds() []model.EnvOpCmd {
 		model.EnvOpCmd{
 			ResetSessionEnv,
 			func(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
+				excludes := map[string]string{}
+				excludeStr := argv.GetRaw("exclude-keys")
+				if len(excludeStr) != 0 {
+					for _, key := range strings.Split(excludeStr, env.GetRaw("strs.list-sep")) {
+						excludes[key] = env.GetRaw(key)
+					}
+				}
 				if checker != nil {
-					checker.Reset()
+					checker.Reset(excludes)
+				}
+				sessionEnv := env.GetLayer(model.EnvLayerSession)
+				sessionEnv.Clear(false)
+				for key, val := range excludes {
+					sessionEnv.Set(key, val)
 				}
-				env.GetLayer(model.EnvLayerSession).Clear(false)
 			}},
 		model.EnvOpCmd{
 			ResetLocalEnv,
 			func(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
 				if checker != nil {
-					checker.Reset()
+					checker.Reset(nil)
 				}
 				env.GetLayer(model.EnvLayerSession).Clear(false)
 			}},
-- 
2.43.0


From c32b7a41e56abb74174f33f8f7739af9f21bcb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 13/71] fix: template rendering should not loop forever on a
 value which refers to itself

---
 pkg/core/model/template.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/template.go b/pkg/core/model/template.go
index 7b6686f..2e02ed5 100644
--- a/pkg/core/model/template.go
+++ b/pkg/core/model/template.go
@@ -143,6 +143,26 @@ func tryRenderTemplate(
 	templBracketLeft := cmd.owner.Strs.FlowTemplateBracketLeft
 	templBracketRight := cmd.owner.Strs.FlowTemplateBracketRight
 
+	// The keys being expanded, a value could contain other templates.
+	// A key's expanding is done when the rendering passed the end of its value
+	type expandingKey struct {
+		key     string
+		tailLen int
+	}
+	var expanding []expandingKey
+
+	isExpanding := func(key string, tailLen int) bool {
+		for len(expanding) > 0 && tailLen <= expanding[len(expanding)-1].tailLen {
+			expanding = expanding[:len(expanding)-1]
+		}
+		for _, it := range expanding {
+			if it.key == key {
+				return true
+			}
+		}
+		return false
+	}
+
 	findPos := 0
 	for {
 		str := in[findPos:]
@@ -156,6 +176,15 @@ func tryRenderTemplate(
 			break
 		}
 		key := tail[0:j]
+		if isExpanding(key, len(str)-i) {
+			hasError = true
+			if allowError {
+				findPos += i + len(templBracketLeft) + j + len(templBracketRight)
+				continue
+			}
+			panic(fmt.Errorf("[%s] render %s template failed, the value of '%s' refers to itself",
+				cmd.owner.DisplayPath(), targetName, key))
+		}
 		var valStr string
 		val, ok := env.GetEx(key)
 		valStr = val.Raw
@@ -170,12 +199,14 @@ func tryRenderTemplate(
 		if !ok {
 			hasError = true
 			if allowError {
-				findPos += j + len(templBracketRight)
+				findPos += i + len(templBracketLeft) + j + len(templBracketRight)
 				continue
 			}
 			templateRenderPanic(in, cmd, targetName, key, false)
 		}
-		in = in[:findPos] + str[0:i] + valStr + tail[j+len(templBracketRight):]
+		tail = tail[j+len(templBracketRight):]
+		expanding = append(expanding, expandingKey{key, len(tail)})
+		in = in[:findPos] + str[0:i] + valStr + tail
 	}
 	return in, hasError
 }
-- 
2.43.0


From 85c6dd6168e316ec34bca397feded6df337c3b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:46 +0000
Subject: [PATCH 14/71] fix: joined run should reject bad ranges and stop at
 the first failure

---
 pkg/mods/builtin/join.go | 48 +++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/pkg/mods/builtin/join.go b/pkg/mods/builtin/join.go
index 92aabcf..272614e 100644
--- a/pkg/mods/builtin/join.go
+++ b/pkg/mods/builtin/join.go
@@ -3,6 +3,7 @@ package builtin
 import (
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 
@@ -49,19 +50,42 @@ func JoinNew(
 			endStr = val[j+1 : len(val)-1]
 			stepStr = "1"
 		}
+		badRange := func(reason string) {
+			panic(model.NewCmdError(flow.Cmds[currCmdIdx],
+				fmt.Sprintf("bad range '%s': %s", val, reason)))
+		}
 		if strings.Contains(val, ".") {
-			start, _ := strconv.ParseFloat(startStr, 64)
-			end, _ := strconv.ParseFloat(endStr, 64)
-			step, _ := strconv.ParseFloat(stepStr, 64)
+			parse := func(str string) float64 {
+				num, err := strconv.ParseFloat(strings.TrimSpace(str), 64)
+				if err != nil || math.IsNaN(num) || math.IsInf(num, 0) {
+					badRange("'" + str + "' is not a number")
+				}
+				return num
+			}
+			start, end, step := parse(startStr), parse(endStr), parse(stepStr)
+			if step <= 0 || start+step == start || end+step == end {
+				badRange("step is too small")
+			}
 			for ; start <= end; start += step {
 				vals = append(vals, fmt.Sprintf("%f", start))
 			}
 		} else {
-			start, _ := strconv.Atoi(startStr)
-			end, _ := strconv.Atoi(endStr)
-			step, _ := strconv.Atoi(stepStr)
+			parse := func(str string) int {
+				num, err := strconv.Atoi(strings.TrimSpace(str))
+				if err != nil {
+					badRange("'" + str + "' is not an integer")
+				}
+				return num
+			}
+			start, end, step := parse(startStr), parse(endStr), parse(stepStr)
+			if step <= 0 {
+				badRange("step is not positive")
+			}
 			for ; start <= end; start += step {
 				vals = append(vals, strconv.Itoa(start))
+				if start > math.MaxInt-step {
+					break
+				}
 			}
 		}
 	} else {
@@ -110,6 +134,12 @@ func JoinRun(
 		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
 			"can't execute null ticat command"))
 	}
+	for _, kv := range kvs {
+		// One of the ranges is empty, so there are no combinations
+		if len(kv.Vals) == 0 {
+			return currCmdIdx, true
+		}
+	}
 	iter := newJoinKvsIter(kvs)
 	for {
 		args := []string{cmd}
@@ -117,8 +147,10 @@ func JoinRun(
 		for i, key := range keys {
 			args = append(args, key+"="+vals[i])
 		}
-		cc.Executor.Execute(flow.Cmds[currCmdIdx].DisplayPath(cc.Cmds.Strs.PathSep, false),
-			true, cc, env, nil, args...)
+		if !cc.Executor.Execute(flow.Cmds[currCmdIdx].DisplayPath(cc.Cmds.Strs.PathSep, false),
+			true, cc, env, nil, args...) {
+			return currCmdIdx, false
+		}
 		if !iter.next() {
 			break
 		}
-- 
2.43.0


From 60a1bd464ee7ed486ef598d2ce88599d235eac92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 15/71] fix: an env key with an abbreviation as segment should
 not crash every run

---
 pkg/core/execute/executor.go | 12 ++++++------
 pkg/core/model/env_abbr.go   | 29 +++++++++++++++++++----------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 270bb6b..6b2e70e 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -423,12 +423,12 @@ func useCmdsAbbrs(abbrs *model.EnvAbbrs, cmds *model.CmdTree) {
 		return
 	}
 	for _, subName := range cmds.SubNames() {
-		subAbbrs := cmds.SubAbbrs(subName)
-		subEnv := abbrs.GetSub(subName)
-		if subEnv == nil {
-			subEnv = abbrs.AddSub(subName, subAbbrs...)
-		} else {
-			abbrs.AddSubAbbrs(subName, subAbbrs...)
+		subEnv := abbrs.GetOrAddSub(subName)
+		for _, abbr := range cmds.SubAbbrs(subName) {
+			// The env keys' own abbrs have priority
+			if !abbrs.HasSubAbbr(abbr) {
+				subEnv.AddAbbrs(abbr)
+			}
 		}
 		subTree := cmds.GetSub(subName)
 		useCmdsAbbrs(subEnv, subTree)
diff --git a/pkg/core/model/env_abbr.go b/pkg/core/model/env_abbr.go
index d40a378..247dfd2 100644
--- a/pkg/core/model/env_abbr.go
+++ b/pkg/core/model/env_abbr.go
@@ -29,41 +29,47 @@ func NewEnvAbbrs(rootDisplayName string) *EnvAbbrs {
 }
 
 func (self *EnvAbbrs) AddSub(name string, abbrs ...string) *EnvAbbrs {
-	if old, ok := self.subs[name]; ok && old.name != name {
+	if _, ok := self.subs[name]; ok {
 		panic(fmt.Errorf("[EnvAbbrs.AddSub] %s: sub-node name conflicted: %s",
 			self.DisplayPath(), name))
 	}
+	self.AddSubAbbrs(name, abbrs...)
 	sub := NewEnvAbbrs(self.rootDisplayName)
 	sub.name = name
 	sub.parent = self
 	self.subs[name] = sub
 	self.subOrderedNames = append(self.subOrderedNames, name)
-	self.AddSubAbbrs(name, abbrs...)
 	self.subAbbrsRevIdx[name] = name
 	return sub
 }
 
 func (self *EnvAbbrs) AddSubAbbrs(name string, abbrs ...string) {
-	for _, abbr := range append([]string{name}, abbrs...) {
-		if len(abbr) == 0 {
-			continue
-		}
+	abbrs = append([]string{name}, abbrs...)
+	// Check all before adding any of them
+	for _, abbr := range abbrs {
 		old, ok := self.subAbbrsRevIdx[abbr]
-		if old == name {
-			continue
-		}
-		if ok {
+		if ok && old != name {
 			panic(fmt.Errorf(
 				"[EnvAbbrs.AddSubAbbrs] %s: command abbr name '%s' conflicted, "+
 					"old for '%s', new for '%s'",
 				self.DisplayPath(), abbr, old, name))
 		}
+	}
+	for _, abbr := range abbrs {
+		if len(abbr) == 0 || self.subAbbrsRevIdx[abbr] == name {
+			continue
+		}
 		self.subAbbrsRevIdx[abbr] = name
 		olds, _ := self.subAbbrs[name]
 		self.subAbbrs[name] = append(olds, abbr)
 	}
 }
 
+func (self *EnvAbbrs) HasSubAbbr(abbr string) bool {
+	_, ok := self.subAbbrsRevIdx[abbr]
+	return ok
+}
+
 func (self *EnvAbbrs) AddAbbrs(abbrs ...string) *EnvAbbrs {
 	if self.parent == nil {
 		panic(fmt.Errorf("[EnvAbbrs.AddAbbr] can't add abbrs %v to root", abbrs))
@@ -107,6 +113,9 @@ func (self *EnvAbbrs) TryMatch(path string, sep string) (matchedPath []string, m
 }
 
 func (self *EnvAbbrs) GetOrAddSub(name string) *EnvAbbrs {
+	if realName, ok := self.subAbbrsRevIdx[name]; ok {
+		name = realName
+	}
 	sub, _ := self.subs[name]
 	if sub == nil {
 		sub = self.AddSub(name)
-- 
2.43.0


From bf78933670ccd1f4f3cf5be39480be24b301ff38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:17 +0000
Subject: [PATCH 16/71] fix: a refused command or arg registration should not
 change the existing ones

---
 pkg/core/model/args.go | 11 ++++++++++-
 pkg/core/model/cmds.go | 21 +++++++++++----------
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/pkg/core/model/args.go b/pkg/core/model/args.go
index 590301f..19eb988 100644
--- a/pkg/core/model/args.go
+++ b/pkg/core/model/args.go
@@ -44,15 +44,24 @@ func (self *Args) AddArg(owner *CmdTree, name string, defVal string, abbrs ...st
 			owner.DisplayPath(), name))
 	}
 	abbrs = append([]string{name}, abbrs...)
+	// Check all before adding any of them
+	news := map[string]bool{}
 	for _, abbr := range abbrs {
 		if len(abbr) == 0 {
 			continue
 		}
-		if old, ok := self.abbrsRevIdx[abbr]; ok {
+		old, ok := self.abbrsRevIdx[abbr]
+		if news[abbr] {
+			old, ok = name, true
+		}
+		if ok {
 			panic(fmt.Errorf("[Args.AddArg] %s: arg abbr name '%s' conflicted,"+
 				" old for '%s', new for '%s'",
 				owner.DisplayPath(), abbr, old, name))
 		}
+		news[abbr] = true
+	}
+	for abbr, _ := range news {
 		self.abbrsRevIdx[abbr] = name
 	}
 	self.abbrs[name] = abbrs
diff --git a/pkg/core/model/cmds.go b/pkg/core/model/cmds.go
index 16aa5b9..9eabf95 100644
--- a/pkg/core/model/cmds.go
+++ b/pkg/core/model/cmds.go
@@ -248,7 +248,7 @@ func (self *CmdTree) ReplaceCmdWithPowerCmd(cmd PowerCmd) (old *Cmd) {
 }
 
 func (self *CmdTree) AddSub(name string, abbrs ...string) *CmdTree {
-	if old, ok := self.subs[name]; ok && old.name != name {
+	if old, ok := self.subs[name]; ok {
 		err := &CmdTreeErrSubCmdConflicted{
 			fmt.Sprintf("sub-cmd name conflicted: %s", name),
 			self.Path(),
@@ -257,12 +257,12 @@ func (self *CmdTree) AddSub(name string, abbrs ...string) *CmdTree {
 		}
 		panic(err)
 	}
+	self.addSubAbbrs(name, abbrs...)
 	sub := NewCmdTree(self.Strs)
 	sub.name = name
 	sub.parent = self
 	self.subs[name] = sub
 	self.subOrderedNames = append(self.subOrderedNames, name)
-	self.addSubAbbrs(name, abbrs...)
 	self.subAbbrsRevIdx[name] = name
 	return sub
 }
@@ -487,15 +487,11 @@ func (self *CmdTree) SetSource(s string) {
 }
 
 func (self *CmdTree) addSubAbbrs(name string, abbrs ...string) {
-	for _, abbr := range append([]string{name}, abbrs...) {
-		if len(abbr) == 0 {
-			continue
-		}
+	abbrs = append([]string{name}, abbrs...)
+	// Check all before adding any of them
+	for _, abbr := range abbrs {
 		old, ok := self.subAbbrsRevIdx[abbr]
-		if old == name {
-			continue
-		}
-		if ok {
+		if ok && old != name {
 			err := &CmdTreeErrSubAbbrConflicted{
 				fmt.Sprintf("%s: sub command abbr name '%s' conflicted, "+
 					"old for '%s', new for '%s'",
@@ -508,6 +504,11 @@ func (self *CmdTree) addSubAbbrs(name string, abbrs ...string) {
 			}
 			panic(err)
 		}
+	}
+	for _, abbr := range abbrs {
+		if len(abbr) == 0 || self.subAbbrsRevIdx[abbr] == name {
+			continue
+		}
 		self.subAbbrsRevIdx[abbr] = name
 		olds, _ := self.subAbbrs[name]
 		self.subAbbrs[name] = append(olds, abbr)
-- 
2.43.0


From 7a736fdc8ffa5e3c914f495c45f65742127535e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 17/71] fix: mask sensitive argument values in the flow
 descriptions

---
 pkg/cli/display/args.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/cli/display/args.go b/pkg/cli/display/args.go
index 7395118..5e0b51d 100644
--- a/pkg/cli/display/args.go
+++ b/pkg/cli/display/args.go
@@ -50,7 +50,7 @@ func DumpEffectedArgs(
 		line := ColorArg(k, env) + " " + ColorSymbol("=", env) + " "
 		v, provided := argv[k]
 		if provided && v.Provided {
-			line += mayQuoteStr(v.Raw)
+			line += mayQuoteStr(mayMaskSensitiveVal(env, k, v.Raw))
 		} else {
 			if len(defV) == 0 {
 				continue
@@ -63,7 +63,7 @@ func DumpEffectedArgs(
 			if hasMapping && writtenKeys[key] {
 				continue
 			}
-			line += mayQuoteStr(defV)
+			line += mayQuoteStr(mayMaskSensitiveVal(env, k, defV))
 		}
 		output = append(output, line)
 	}
-- 
2.43.0


From eb6d0517a5f2a5e1b84ec6e72a19ef2a9be3d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 18/71] fix: 'write' as a search word matched commands that
 write nothing

---
 pkg/core/model/env_mapper.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/env_mapper.go b/pkg/core/model/env_mapper.go
index 39047b2..0d9f285 100644
--- a/pkg/core/model/env_mapper.go
+++ b/pkg/core/model/env_mapper.go
@@ -71,7 +71,7 @@ func (self *Val2Env) Has(envKey string) bool {
 }
 
 func (self *Val2Env) MatchFind(findStr string) bool {
-	if strings.Index("write", findStr) >= 0 {
+	if len(self.orderedKeys) != 0 && strings.Index("write", findStr) >= 0 {
 		return true
 	}
 	for _, envKey := range self.orderedKeys {
@@ -158,7 +158,7 @@ func (self *Arg2Env) GetEnvKey(argName string) (string, bool) {
 }
 
 func (self *Arg2Env) MatchFind(findStr string) bool {
-	if strings.Index("write", findStr) >= 0 {
+	if len(self.orderedKeys) != 0 && strings.Index("write", findStr) >= 0 {
 		return true
 	}
 	for argName, envKey := range self.nameKeys {
-- 
2.43.0


From c9713aae233198dcd310cb86a1758381d4da1f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 19/71] fix: collecting an argument the flow already declares
 crashed every start

---
 pkg/core/model/args_auto_map.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/args_auto_map.go b/pkg/core/model/args_auto_map.go
index 6a1e9e7..4d8ce68 100644
--- a/pkg/core/model/args_auto_map.go
+++ b/pkg/core/model/args_auto_map.go
@@ -285,9 +285,14 @@ func (self *ArgsAutoMapStatus) FlushCache(owner *Cmd) {
 func (self *ArgsAutoMapStatus) reorderArgs(owner *Cmd) {
 	ownerArgs := owner.Args()
 	origin := ownerArgs.Names()[:self.originArgCnt]
+	added := map[string]bool{}
+	for _, it := range origin {
+		added[it] = true
+	}
 	var reorderedArgs []string
 	for _, it := range self.reorderedArgs {
-		if ownerArgs.Has(it) {
+		if ownerArgs.Has(it) && !added[it] {
+			added[it] = true
 			reorderedArgs = append(reorderedArgs, it)
 		}
 	}
-- 
2.43.0


From de69503659f3752c0ac2b002804a4d681bd1f938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:28 +0000
Subject: [PATCH 20/71] fix: repeated automatic arguments lost the later ones,
 a misplaced '*' crashed every start

---
 pkg/core/model/args_auto_map.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/core/model/args_auto_map.go b/pkg/core/model/args_auto_map.go
index 4d8ce68..01e1a5f 100644
--- a/pkg/core/model/args_auto_map.go
+++ b/pkg/core/model/args_auto_map.go
@@ -143,8 +143,15 @@ func (self *ArgsAutoMapStatus) AddDefinitions(owner *Cmd, args ...string) {
 
 	keyValSep := owner.Owner().Strs.EnvKeyValSep
 
-	for i, argDefinition := range args {
+	for _, argDefinition := range args {
 		argDefinition = strings.TrimSpace(argDefinition)
+		if self.argSet[argDefinition] {
+			continue
+		}
+		i := len(self.argList)
+		if i > 0 && (self.argList[i-1] == "*" || self.argList[i-1] == "**") {
+			panic(fmt.Errorf("[%s] '*' or '**' can only at the end of args auto mapping definition", owner.Owner().DisplayPath()))
+		}
 		fields := strings.Split(argDefinition, keyValSep)
 		if len(fields) == 1 {
 			if argDefinition == "*" {
@@ -160,10 +167,8 @@ func (self *ArgsAutoMapStatus) AddDefinitions(owner *Cmd, args ...string) {
 			argName := self.addNotAutoArg(owner, argDefinition)
 			self.reorderedArgs = append(self.reorderedArgs, argName)
 		}
-		if _, ok := self.argSet[argDefinition]; !ok {
-			self.argList = append(self.argList, argDefinition)
-			self.argSet[argDefinition] = true
-		}
+		self.argList = append(self.argList, argDefinition)
+		self.argSet[argDefinition] = true
 	}
 }
 
-- 
2.43.0


From 84a245168b95c1ef8c99174776ac53c04f04b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:15 +0000
Subject: [PATCH 21/71] fix: breakpoint choices: continue drops earlier
 requests, step-over at a flow's last command still pauses next

---
 pkg/core/execute/executor.go    | 19 ++++++++++----
 pkg/core/execute/interactive.go | 44 +++++++++++++++++----------------
 2 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 6b2e70e..241b26c 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -247,6 +247,10 @@ func (self *Executor) executeCmd(
 	last := cmd.LastCmdNode()
 
 	// TODO: change name `IsDelay`, maybe `IsBackgroundCmd`
+	if sysArgv.IsDelay() || cmd.IsQuiet() {
+		// Never pause here, leave the request to the next command
+		breakAtNext = breakByPrev
+	}
 	if !sysArgv.IsDelay() {
 		bpa := tryWaitSecAndBreakBefore(cc, env, cmd, mask, breakByPrev, lastCmdInFlow, bootstrap, showStack)
 		if bpa == BPASkip {
@@ -278,7 +282,7 @@ func (self *Executor) executeCmd(
 					cmdEnv.SetInt("display.executor.displayed", cmdEnv.GetInt("sys.stack-depth"))
 				}
 				tryBreakInsideFileNFlowWrap := func(cc *model.Cli, env *model.Env, cmd *model.Cmd) bool {
-					return tryBreakInsideFileNFlow(cc, env, cmd, breakByPrev, showStack)
+					return tryBreakInsideFileNFlow(cc, env, cmd, showStack)
 				}
 				newCurrCmdIdx, succeeded = last.Execute(argv, sysArgv, cc, cmdEnv, mask, flow, currCmdIdx, tryBreakInsideFileNFlowWrap)
 				cmdEnv.SetInt("display.executor.displayed", 0)
@@ -317,14 +321,19 @@ func (self *Executor) executeCmd(
 	}
 
 	if !sysArgv.IsDelay() {
-		bpa := tryWaitSecAndBreakAfter(cc, env, cmd, bootstrap, lastCmdInFlow, showStack)
-		if bpa == BPAStepOver {
+		bpa, paused := tryWaitSecAndBreakAfter(cc, env, cmd, bootstrap, showStack)
+		if paused {
 			// Use `breakAtNext = true` to do step-over to not affect subflow
-			breakAtNext = true
-		} else if bpa != BPAContinue {
+			breakAtNext = bpa == BPAStepOver
+		}
+		if bpa != BPAStepOver && bpa != BPAContinue {
 			return
 		}
 	}
+	if breakAtNext && lastCmdInFlow {
+		// The next command is in an outer flow
+		env.GetLayer(model.EnvLayerSession).SetBool("sys.breakpoint.status.step-out", true)
+	}
 	return
 }
 
diff --git a/pkg/core/execute/interactive.go b/pkg/core/execute/interactive.go
index 4e5c8cc..29c1604 100644
--- a/pkg/core/execute/interactive.go
+++ b/pkg/core/execute/interactive.go
@@ -109,32 +109,30 @@ func tryBreakBefore(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, mask *mo
 	return readUserBPAChoice(reason, choices, bpas, true, cc, env, showStack)
 }
 
-func tryWaitSecAndBreakAfter(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, bootstrap bool, lastCmdInFlow bool, showStack func()) BreakPointAction {
-	bpa := tryBreakAfter(cc, env, cmd, showStack)
-	if bpa == BPAStepOver {
-		if lastCmdInFlow && (cmd.LastCmd() == nil || !cmd.LastCmd().HasSubFlow(false)) {
-			env.GetLayer(model.EnvLayerSession).SetBool("sys.breakpoint.status.step-out", true)
-		}
-	} else if bpa == BPAContinue && !bootstrap && cmd.LastCmdNode() != nil && !cmd.LastCmdNode().IsQuiet() {
+func tryWaitSecAndBreakAfter(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, bootstrap bool,
+	showStack func()) (bpa BreakPointAction, paused bool) {
+
+	bpa, paused = tryBreakAfter(cc, env, cmd, showStack)
+	if bpa == BPAContinue && !bootstrap && cmd.LastCmdNode() != nil && !cmd.LastCmdNode().IsQuiet() {
 		tryWaitSec(cc, env, "sys.execute-wait-sec.at-end")
 	}
-	return bpa
+	return
 }
 
-func tryBreakAfter(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, showStack func()) BreakPointAction {
+func tryBreakAfter(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, showStack func()) (bpa BreakPointAction, paused bool) {
 	name := strings.Join(cmd.Path(), cc.Cmds.Strs.PathSep)
 	if !cc.BreakPoints.BreakAfter(name) {
-		return BPAContinue
+		return BPAContinue, false
 	}
 	reason := display.ColorTip("break-point: after command ", env) + display.ColorCmd("["+name+"]", env)
 	bpas := getAllBPAs()
 	// Use BPAStepToNext instead of BPAStepOver for display
 	bpas["d"] = BPAStepToNext
-	bpa := readUserBPAChoice(reason, []string{"d", "c", "i", "q"}, bpas, true, cc, env, showStack)
+	bpa = readUserBPAChoice(reason, []string{"d", "c", "i", "q"}, bpas, true, cc, env, showStack)
 	if bpa == BPAStepToNext {
 		bpa = BPAStepOver
 	}
-	return bpa
+	return bpa, true
 }
 
 func tryBreakAtEnd(cc *model.Cli, env *model.Env) {
@@ -175,8 +173,8 @@ func tryWaitSec(cc *model.Cli, env *model.Env, waitSecKey string) {
 	}
 }
 
-func tryBreakInsideFileNFlow(cc *model.Cli, env *model.Env, cmd *model.Cmd, breakByPrev bool, showStack func()) (shouldExec bool) {
-	breakByPrev = breakByPrev || env.GetBool("sys.breakpoint.at-next")
+func tryBreakInsideFileNFlow(cc *model.Cli, env *model.Env, cmd *model.Cmd, showStack func()) (shouldExec bool) {
+	breakByPrev := env.GetBool("sys.breakpoint.at-next")
 
 	if env.GetBool("sys.in-bg-task") {
 		return true
@@ -204,13 +202,10 @@ func tryBreakInsideFileNFlow(cc *model.Cli, env *model.Env, cmd *model.Cmd, brea
 		env,
 		showStack)
 	if bpa == BPAContinue {
-		env.GetLayer(model.EnvLayerSession).Delete("sys.breakpoint.status.step-out")
 		return true
 	}
-	if bpa == BPAStepOver {
-		return true
-	}
-	return false
+	env.GetLayer(model.EnvLayerSession).SetBool("sys.breakpoint.at-next", true)
+	return bpa == BPAStepOver
 }
 
 func clearBreakPointStatusInEnv(env *model.Env) {
@@ -220,6 +215,13 @@ func clearBreakPointStatusInEnv(env *model.Env) {
 	env.Delete("sys.breakpoint.status.step-out")
 }
 
+func clearPendingBreaks(env *model.Env) {
+	env = env.GetLayer(model.EnvLayerSession)
+	env.Delete("sys.breakpoint.at-next")
+	env.Delete("sys.breakpoint.status.step-in")
+	env.Delete("sys.breakpoint.status.step-out")
+}
+
 func readUserBPAChoice(reason string, choices []string, actions BPAs, lowerInput bool,
 	cc *model.Cli, env *model.Env, showStack func()) BreakPointAction {
 
@@ -263,9 +265,9 @@ func readUserBPAChoice(reason string, choices []string, actions BPAs, lowerInput
 				}
 				showTitle()
 				continue
-			} else if action == BPAContinue {
-				env.GetLayer(model.EnvLayerSession).SetBool("sys.breakpoint.at-next", false)
 			}
+			// This pause has served all the earlier choices
+			clearPendingBreaks(env)
 			return action
 		}
 		cc.Screen.Print(display.ColorExplain("(not valid input: "+line+")\n", env))
-- 
2.43.0


From 1dff9eff7283496c804a5e65aa23786f91a7c21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 22/71] fix: a saved environment snapshot held the arguments of
 the save command as values

---
 pkg/mods/builtin/env_snapshot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/env_snapshot.go b/pkg/mods/builtin/env_snapshot.go
index 1f73c0d..da158ad 100644
--- a/pkg/mods/builtin/env_snapshot.go
+++ b/pkg/mods/builtin/env_snapshot.go
@@ -30,7 +30,7 @@ func EnvSaveToSnapshot(
 		panic(model.NewCmdError(cmd, "env snapshot '"+name+"' already exists"))
 	}
 
-	model.SaveEnvToFile(env, path, kvSep, true)
+	model.SaveEnvToFile(env.GetLayer(model.EnvLayerSession), path, kvSep, true)
 	display.PrintTipTitle(cc.Screen, env,
 		"session env are saved to snapshot '"+name+"', could be use by:",
 		"",
-- 
2.43.0


From 6ae395a3658f28fd11cddefd01989d9e36b505a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 23/71] fix: saved environments dropped every key whose name
 only begins like a runtime key (sessions, session-x)

---
 pkg/core/model/proto.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index e15ab22..1340a86 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -14,9 +14,12 @@ import (
 func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDefault bool) error {
 	defEnv := env.GetLayer(EnvLayerDefault)
 
-	flatten := env.Flatten(true, filtered, false)
+	flatten := env.Flatten(true, nil, false)
 	var keys []string
 	for k, v := range flatten {
+		if isFilteredKey(k, filtered) {
+			continue
+		}
 		if skipDefault && defEnv.GetRaw(k) == v {
 			continue
 		}
@@ -34,6 +37,16 @@ func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDe
 	return nil
 }
 
+// A filter is the full name of a key, or all the leading segments of it
+func isFilteredKey(key string, filtered []string) bool {
+	for _, it := range filtered {
+		if key == it || strings.HasPrefix(key, strings.TrimSuffix(it, ".")+".") {
+			return true
+		}
+	}
+	return false
+}
+
 func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 	scanner := bufio.NewScanner(reader)
 	// The default max line length is 64K, values could be longer than that
-- 
2.43.0


From 2f328b6093c46cd6f03508b9803e76b4a8a6c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:48 +0000
Subject: [PATCH 24/71] fix: renaming or moving a saved flow overwrote an
 existing flow without confirmation, or hid behind a builtin command

---
 pkg/mods/builtin/flow.go | 20 +++++++++++++++++++-
 pkg/mods/builtin/hub.go  |  3 +++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index 2855106..48ab757 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -102,7 +102,7 @@ func RenameFlow(
 	assertNotTailMode(flow, currCmdIdx)
 
 	argSrcCmdPath, srcCmdPath, srcFilePath, _ := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, true, "src")
-	argDestCmdPath, destCmdPath, destFilePath, _ := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, false, "dest")
+	argDestCmdPath, destCmdPath, destFilePath, destCmdExists := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, false, "dest")
 
 	_, err := os.Stat(srcFilePath)
 	if os.IsNotExist(err) {
@@ -110,6 +110,13 @@ func RenameFlow(
 			fmt.Sprintf("path '%s' does not exist", srcFilePath)))
 	}
 
+	if fileExists(destFilePath) {
+		confirmOverwriteFlow(cc, env, flow.Cmds[currCmdIdx], destCmdPath, destFilePath)
+	} else if destCmdExists {
+		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
+			fmt.Sprintf("cmd '%s' exists but it is not a saved flow in default place", destCmdPath)))
+	}
+
 	err = os.Rename(srcFilePath, destFilePath)
 	if err != nil {
 		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
@@ -489,6 +496,17 @@ func getFlowCmdPath(
 	return
 }
 
+func confirmOverwriteFlow(cc *model.Cli, env *model.Env, cmd model.ParsedCmd, cmdPath string, filePath string) {
+	if !env.GetBool("sys.confirm.ask") {
+		panic(model.NewCmdError(cmd, fmt.Sprintf("path '%s' exists", filePath)))
+	}
+	cc.Screen.Print(fmt.Sprintf(display.ColorTip("[confirm]", env)+
+		" flow file of '%s' exists, "+
+		"type "+display.ColorWarn("'y'", env)+" and press enter to "+
+		display.ColorWarn("overwrite:", env)+"\n", cmdPath))
+	utils.UserConfirm()
+}
+
 func checkAndConfirmIfFlowHasParseError(screen model.Screen, flow *model.ParsedCmds, env *model.Env) bool {
 	for _, cmd := range flow.Cmds {
 		if cmd.ParseResult.Error == nil {
diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index 92a6d28..83053a4 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -765,6 +765,9 @@ func moveSavedFlowsToLocalDir(toDir string, cc *model.Cli, env *model.Env, cmd m
 		// This dir is managed, so will be no sub-dir
 		destPath := filepath.Join(toDir, filepath.Base(path))
 
+		if fileExists(destPath) {
+			confirmOverwriteFlow(cc, env, cmd, getCmdPath(path, flowExt, cmd), destPath)
+		}
 		err = utils.MoveFile(path, destPath)
 		if err != nil {
 			panic(model.NewCmdError(cmd, fmt.Sprintf("rename file '%s' to '%s' failed: %v",
-- 
2.43.0


From 15a3cb29dd871a974db01da233277fd0522cf3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 25/71] fix: setting the help of a flow dropped its other
 properties (tags, args, ...) and changed args.auto

---
 pkg/mods/builtin/flow.go                |  4 ++--
 pkg/mods/persist/flow_file/flow_file.go | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index 48ab757..085e2e6 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -292,8 +292,8 @@ func SetFlowHelpStr(
 
 	help := argv.GetRaw("help-str")
 	argCmdPath, cmdPath, filePath, _ := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, true, "cmd-path")
-	flowStrs, oldHelp, abbrsStr, trivial, autoArgs, packSub := flow_file.LoadFlowFile(filePath)
-	flow_file.SaveFlowFile(filePath, flowStrs, help, abbrsStr, trivial, autoArgs, packSub)
+	flowStrs, oldHelp, _, _, _, _ := flow_file.LoadFlowFile(filePath)
+	flow_file.SetFlowFileHelp(filePath, help)
 
 	realCmdStr := ""
 	if argCmdPath != cmdPath {
diff --git a/pkg/mods/persist/flow_file/flow_file.go b/pkg/mods/persist/flow_file/flow_file.go
index 4a74455..8f56623 100644
--- a/pkg/mods/persist/flow_file/flow_file.go
+++ b/pkg/mods/persist/flow_file/flow_file.go
@@ -59,3 +59,14 @@ func SaveFlowFile(path string, flow []string, help string, abbrs string,
 	}
 	meta.Save()
 }
+
+// Everything else in the file stays as it is
+func SetFlowFileHelp(path string, help string) {
+	metas := meta_file.NewMetaFile(path)
+	if len(metas) != 1 {
+		panic(fmt.Errorf("can't load content for edit from a combined flow file"))
+	}
+	meta := metas[0].Meta
+	meta.GetGlobalSection().Set("help", help)
+	meta.Save()
+}
-- 
2.43.0


From 300d506bc3018b32c3aafae787411c5d9920d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 26/71] fix: a parsed meta file lost all its sections when
 saved

---
 pkg/mods/persist/meta_file/meta_file.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index 960f006..a33ede8 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -136,11 +136,18 @@ func (self *MetaFile) GetAll() SectionMap {
 	return self.sections
 }
 
+func (self *MetaFile) setSection(key string, section *Section) {
+	if _, ok := self.sections[key]; !ok {
+		self.orderedKeys = append(self.orderedKeys, key)
+	}
+	self.sections[key] = section
+}
+
 func (self *MetaFile) parse(lines []string) {
 	var sectionName string
 	section := NewSection()
 	global := section
-	self.sections[sectionName] = section
+	self.setSection(sectionName, section)
 
 	var multiLineKey string
 	var multiLineValue []string
@@ -227,7 +234,7 @@ func (self *MetaFile) parse(lines []string) {
 			} else {
 				sectionName = line[1 : size-1]
 				section = NewSection()
-				self.sections[sectionName] = section
+				self.setSection(sectionName, section)
 			}
 			continue
 		}
-- 
2.43.0


From ce4dd41051df0f39500634678997fe457680cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 27/71] fix: a repository reached through several lists (or a
 list naming itself) was recorded more than once in the hub

---
 pkg/mods/builtin/hub.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index 83053a4..bc86225 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -316,6 +316,7 @@ func UpdateHub(
 			}
 			repoPath := meta.GetRepoPath(path, addr)
 			infos = append(infos, meta.RepoInfo{addr, info.Addr.Str(), repoPath, helpStrs[i], "on"})
+			oldList[addr.Str()] = true
 		}
 	}
 
@@ -839,6 +840,7 @@ func addRepoToHubAndLoadMods(
 		info := meta.RepoInfo{addr, gitAddr.Str(), repoPath, helpStrs[i], "on"}
 		loadRepoMods(cc, env, info)
 		infos = append(infos, info)
+		oldList[addr.Str()] = true
 	}
 
 	infos = append(oldInfos, infos...)
-- 
2.43.0


From de44040eb7f3f07e3c74eb2e3489c0b324e97a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 28/71] fix: purging by the exact address of an enabled
 repository dropped it from the hub and doubled another one

---
 pkg/mods/builtin/hub.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index bc86225..0c15356 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -646,7 +646,8 @@ func exactMatchHubRepo(infos []meta.RepoInfo, findStrs ...string) (info meta.Rep
 	}
 	for i, info := range infos {
 		if info.Addr.Str() == findStr {
-			return info, append(infos[:i], infos[i+1:]...), true
+			rest = append(rest, infos[:i]...)
+			return info, append(rest, infos[i+1:]...), true
 		}
 	}
 	return
-- 
2.43.0


From 95d6658320e19ee9b44d284caaa72434b489082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 29/71] fix: a tab or line break in a repository's description
 or a directory's path made the hub list unreadable

---
 pkg/mods/builtin/hub.go               | 3 +++
 pkg/mods/persist/hub_meta/hub_meta.go | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index 0c15356..248d2e5 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -464,6 +464,9 @@ func addLocalDirToHub(
 
 	metaPath := getReposInfoPath(env, cmd)
 	fieldSep := env.GetRaw("strs.proto-sep")
+	if strings.Index(path, fieldSep) >= 0 || strings.IndexAny(path, "\r\n") >= 0 {
+		panic(model.NewCmdError(cmd, fmt.Sprintf("path %q has chars can't be recorded in hub", path)))
+	}
 	hubDir := env.GetRaw("sys.paths.hub")
 	infos, _ := meta.ReadReposInfoFile(hubDir, metaPath, true, fieldSep)
 	found := false
diff --git a/pkg/mods/persist/hub_meta/hub_meta.go b/pkg/mods/persist/hub_meta/hub_meta.go
index a8520be..8364895 100644
--- a/pkg/mods/persist/hub_meta/hub_meta.go
+++ b/pkg/mods/persist/hub_meta/hub_meta.go
@@ -59,8 +59,10 @@ func WriteReposInfoFile(
 	defer file.Close()
 
 	for _, info := range infos {
+		// A help str comes from the repo, it should not break the whole list
+		helpStr := strings.ReplaceAll(info.HelpStr, sep, " ")
 		_, err = fmt.Fprintf(file, "%s%s%s%s%s%s%s%s%s\n", info.Addr.Str(), sep, info.AddReason, sep,
-			tryConvAbsPathToRelPath(hubRootPath, info.Path), sep, info.HelpStr, sep, info.OnOff)
+			tryConvAbsPathToRelPath(hubRootPath, info.Path), sep, helpStr, sep, info.OnOff)
 		if err != nil {
 			panic(fmt.Errorf("[WriteReposInfoFile] write file '%s' failed: %v", tmp, err))
 		}
-- 
2.43.0


From 5df1cd94c6f395a642778693b5a864203134a637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 30/71] fix: hub entries after a line longer than 64K were
 dropped silently

---
 pkg/mods/persist/hub_meta/hub_meta.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/mods/persist/hub_meta/hub_meta.go b/pkg/mods/persist/hub_meta/hub_meta.go
index 8364895..e4d6f7b 100644
--- a/pkg/mods/persist/hub_meta/hub_meta.go
+++ b/pkg/mods/persist/hub_meta/hub_meta.go
@@ -3,6 +3,7 @@ package hub_meta
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -94,6 +95,8 @@ func ReadReposInfoFile(
 	defer file.Close()
 
 	scanner := bufio.NewScanner(file)
+	// The default max line length is 64K, the rest of the list would be dropped silently
+	scanner.Buffer(nil, math.MaxInt)
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		line := strings.Trim(scanner.Text(), "\n\r")
@@ -112,6 +115,9 @@ func ReadReposInfoFile(
 		infos = append(infos, info)
 		list[info.Addr.Str()] = true
 	}
+	if err = scanner.Err(); err != nil {
+		panic(fmt.Errorf("[ReadReposInfoFile] read file '%s' failed: %v", path, err))
+	}
 	return
 }
 
-- 
2.43.0


From 7fd7d23cbaddd0895a68417e6be0d78c693110b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:02 +0000
Subject: [PATCH 31/71] fix: load modules from a hidden repo root, and skip
 hidden files in repos

---
 pkg/mods/builtin/mod.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/mods/builtin/mod.go b/pkg/mods/builtin/mod.go
index 0482ded..cf72ce9 100644
--- a/pkg/mods/builtin/mod.go
+++ b/pkg/mods/builtin/mod.go
@@ -45,14 +45,18 @@ func loadLocalMods(
 
 	// TODO: return filepath.SkipDir to avoid some non-sense scanning
 	filepath.Walk(root, func(metaPath string, info fs.FileInfo, err error) error {
+		// Skip hidden file or dir, the root itself could be hidden
+		base := filepath.Base(metaPath)
+		hidden := metaPath != root && len(base) > 0 && base[0] == '.'
 		if info != nil && info.IsDir() {
-			// Skip hidden file or dir
-			base := filepath.Base(metaPath)
-			if len(base) > 0 && base[0] == '.' {
+			if hidden {
 				return filepath.SkipDir
 			}
 			return nil
 		}
+		if hidden {
+			return nil
+		}
 		if metaPath == filepath.Join(root, reposFileName) {
 			return nil
 		}
-- 
2.43.0


From c6de8416adee5f3701d2846dafeb5d686b137183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:05 +0000
Subject: [PATCH 32/71] fix: a bad help file in a repo should not stop loading

---
 pkg/core/model/helps.go |  3 +++
 pkg/mods/builtin/mod.go | 14 +++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/helps.go b/pkg/core/model/helps.go
index 0d7be08..c7652c7 100644
--- a/pkg/core/model/helps.go
+++ b/pkg/core/model/helps.go
@@ -33,6 +33,9 @@ func (self *Helps) RegHelpFile(path string) {
 		lines = append(lines, scanner.Text())
 	}
 
+	if len(lines) == 0 {
+		return
+	}
 	self.RegHelp(lines[0], lines[1:])
 }
 
diff --git a/pkg/mods/builtin/mod.go b/pkg/mods/builtin/mod.go
index cf72ce9..2ec4d9c 100644
--- a/pkg/mods/builtin/mod.go
+++ b/pkg/mods/builtin/mod.go
@@ -27,6 +27,18 @@ func SetExtExec(
 	return currCmdIdx, true
 }
 
+func regHelpFile(cc *model.Cli, path string, source string, panicRecover bool) {
+	defer func() {
+		if !panicRecover {
+			return
+		}
+		if err := recover(); err != nil {
+			cc.TolerableErrs.OnErr(err, source, path, "help file loading failed")
+		}
+	}()
+	cc.Helps.RegHelpFile(path)
+}
+
 func loadLocalMods(
 	cc *model.Cli,
 	root string,
@@ -62,7 +74,7 @@ func loadLocalMods(
 		}
 
 		if strings.HasSuffix(metaPath, helpExt) {
-			cc.Helps.RegHelpFile(metaPath)
+			regHelpFile(cc, metaPath, source, panicRecover)
 			return nil
 		}
 
-- 
2.43.0


From 086c0760c2794d0804175d9e827db04113e11d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:07 +0000
Subject: [PATCH 33/71] fix: meta file of a dir should not change an existing
 command

---
 pkg/mods/persist/mod_meta/mod_reg.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/mods/persist/mod_meta/mod_reg.go b/pkg/mods/persist/mod_meta/mod_reg.go
index 499c954..5b1a6ca 100644
--- a/pkg/mods/persist/mod_meta/mod_reg.go
+++ b/pkg/mods/persist/mod_meta/mod_reg.go
@@ -83,7 +83,13 @@ func regModFile(
 	panicRecover bool) {
 
 	mod := cc.Cmds.GetOrAddSubEx(source, cmdPath...)
+	old := mod.Cmd()
 	cmd := regMod(meta, mod, executablePath, isDir, source)
+	if old != nil && cmd == old {
+		// An empty dir register is ignored, it should not change the existing command
+		regModAbbrs(meta, mod)
+		return
+	}
 	mod.SetSource(source)
 	cmd.SetMetaFile(metaPath)
 
-- 
2.43.0


From 83c310324e9f098e57996a18a3a18c667e4d5130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 34/71] fix: an empty dir command should give way to a real one

---
 pkg/core/model/cmd.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index f4eafb4..2c6d029 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -662,7 +662,8 @@ func (self *Cmd) IsTotallyEmpty() bool {
 		self.argsAutoMap.IsEmpty() &&
 		len(self.macros) == 0 &&
 		len(self.orderedMacros) == 0 &&
-		len(self.cmdLine) == 0 &&
+		// The cmd-line of an empty dir is only the path of the dir
+		(self.ty == CmdTypeEmptyDir || len(self.cmdLine) == 0) &&
 		len(self.flow) == 0 &&
 		len(self.depends) == 0 &&
 		self.adhotFlow == nil &&
-- 
2.43.0


From 0c128435e343e50a957c9ac9244e98323fb1f117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 35/71] fix: env op 'r' with spaces around it is ignored in
 meta file

---
 pkg/mods/persist/mod_meta/mod_reg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mods/persist/mod_meta/mod_reg.go b/pkg/mods/persist/mod_meta/mod_reg.go
index 5b1a6ca..5929aa3 100644
--- a/pkg/mods/persist/mod_meta/mod_reg.go
+++ b/pkg/mods/persist/mod_meta/mod_reg.go
@@ -610,7 +610,7 @@ func regEnvKeyAbbrs(
 }
 
 func regEnvOp(cmd *model.Cmd, key string, opOrigin string) {
-	op := strings.ToLower(opOrigin)
+	op := strings.ToLower(strings.TrimSpace(opOrigin))
 	may := strings.Index(op, "may") >= 0 || strings.Index(op, "opt") >= 0
 	write := strings.Index(op, "w") >= 0
 	read := strings.Index(op, "rd") >= 0 ||
-- 
2.43.0


From 61b0c906224f853aac8c0115b973be50213c98db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:10 +0000
Subject: [PATCH 36/71] fix: an error value which is not an error type no
 longer crashes the program before the exit hooks

---
 pkg/ticat/ticat.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/ticat/ticat.go b/pkg/ticat/ticat.go
index c8b3dee..7b242b0 100644
--- a/pkg/ticat/ticat.go
+++ b/pkg/ticat/ticat.go
@@ -200,7 +200,7 @@ func (ticat *TiCat) run(args ...string) bool {
 			return
 		}
 		if env.GetBool("sys.panic.recover") {
-			display.PrintError(ticat.cc, env, recovered.(error))
+			display.PrintError(ticat.cc, env, recoveredToErr(recovered))
 		}
 		// Exit point: panic
 		ticat.exitEventHook("sys.event.hook.error")
@@ -252,7 +252,7 @@ func (ticat *TiCat) exitEventHook(hookKeyName string) (ok bool) {
 		// Exit point: panic when executing exit-event-hook
 		// TODO: need to check this flag doesn't from user-level persisted env
 		if env.GetBool("sys.panic.recover") {
-			display.PrintError(ticat.cc, env, recovered.(error))
+			display.PrintError(ticat.cc, env, recoveredToErr(recovered))
 			os.Exit(-2)
 		} else {
 			// Re-throw
@@ -268,3 +268,11 @@ func (ticat *TiCat) exitEventHook(hookKeyName string) (ok bool) {
 
 	return true
 }
+
+// A panic may carry any value, not only an error
+func recoveredToErr(recovered interface{}) error {
+	if err, ok := recovered.(error); ok {
+		return err
+	}
+	return fmt.Errorf("%v", recovered)
+}
-- 
2.43.0


From fca92b6f114da6d54d65be8ffe831e1c8cb9da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:26 +0000
Subject: [PATCH 37/71] fix: a background command failing with a non-error
 value is reported as failed instead of crashing the program

---
 pkg/core/execute/executor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 241b26c..9e96169 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -553,7 +553,10 @@ func asyncExecute(
 				// TODO: not sure how to handle if config is not-recover
 			} else {
 				if r := recover(); r != nil {
-					err = r.(error)
+					var isErr bool
+					if err, isErr = r.(error); !isErr {
+						err = fmt.Errorf("%v", r)
+					}
 				}
 			}
 			task.OnFinish(err)
-- 
2.43.0


From 442ceaa6a4429ec57b6e806a4f952eb97b838d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:41 +0000
Subject: [PATCH 38/71] fix: a flow failed by panic waits for its background
 tasks before the exit hooks

---
 pkg/core/execute/executor.go | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 9e96169..f56c4ba 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -56,19 +56,21 @@ func (self *Executor) Run(cc *model.Cli, env *model.Env, bootstrap string, input
 	// Do arg2env auto mapping between bootstrap (commands are loaded after this point) and executing
 	cc.Arg2EnvAutoMapCmds.AutoMapArg2Env(cc, env, builtin.EnvOpCmds(), env.GetInt("sys.stack-depth"))
 
+	defer func() {
+		// The background tasks should be waited too when the flow is failed by panic
+		if r := recover(); r != nil {
+			if _, isAbort := r.(*model.AbortByUserErr); !isAbort {
+				waitBgTasks(cc, env)
+			}
+			panic(r)
+		}
+	}()
+
 	ok := self.execute(self.callerNameEntry, cc, env, nil, false, false, input...)
 
 	tryBreakAtEnd(cc, env)
 
-	var errs []error
-	if env.GetBool("sys.bg.wait") {
-		errs = builtin.WaitBgTasks(cc, env, false)
-		for _, err := range errs {
-			display.PrintError(cc, env, err)
-		}
-	}
-
-	ok = ok && len(errs) == 0
+	ok = waitBgTasks(cc, env) && ok
 
 	if cc.FlowStatus != nil {
 		cc.FlowStatus.OnFlowFinish(env, ok)
@@ -76,6 +78,17 @@ func (self *Executor) Run(cc *model.Cli, env *model.Env, bootstrap string, input
 	return ok
 }
 
+func waitBgTasks(cc *model.Cli, env *model.Env) bool {
+	if !env.GetBool("sys.bg.wait") {
+		return true
+	}
+	errs := builtin.WaitBgTasks(cc, env, false)
+	for _, err := range errs {
+		display.PrintError(cc, env, err)
+	}
+	return len(errs) == 0
+}
+
 // Implement model.Executor
 func (self *Executor) Execute(caller string, innerCall bool, cc *model.Cli, env *model.Env,
 	masks []*model.ExecuteMask, input ...string) bool {
-- 
2.43.0


From 0ef8bc4983c2ec7ae27e8e3499d31a5d547cf882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:09 +0000
Subject: [PATCH 39/71] fix: the exit hooks of a run are not triggered again by
 the program calls inside its scripts

---
 pkg/core/model/proto.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 1340a86..8de7ce3 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -152,6 +152,9 @@ func saveEnvToSessionFile(cc *Cli, env *Env, parsedCmd ParsedCmd, skipDefault bo
 		//"sys.stack-depth",
 		//"sys.session.",
 		//"sys.interact",
+
+		// The exit hooks belong to the outer run, should not be triggered again by the recursive ticat calls
+		"sys.event.",
 	}
 	saveEnvToFile(env.GetLayer(EnvLayerSession), sessionPath, sep, filtered, skipDefault)
 	return
-- 
2.43.0


From 92bf6a8cabbbf46deaf2fb7d644252b55be0982e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 40/71] fix: listing or removing sessions works when there is
 no session directory yet

---
 pkg/core/model/session.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/session.go b/pkg/core/model/session.go
index d333351..4efbfd5 100644
--- a/pkg/core/model/session.go
+++ b/pkg/core/model/session.go
@@ -42,8 +42,12 @@ func ListSessions(
 	}
 
 	entrys, err := os.ReadDir(sessionsRoot)
+	if os.IsNotExist(err) {
+		// No session is executed yet
+		return
+	}
 	if err != nil {
-		panic(fmt.Sprintf("[ListSessions] can't read sessions' root path '%s'\n", sessionsRoot))
+		panic(fmt.Errorf("[ListSessions] can't read sessions' root path '%s'\n", sessionsRoot))
 	}
 	dirs := make([]string, len(entrys))
 	for i, it := range entrys {
@@ -115,8 +119,11 @@ func CleanSessions(env *Env) (cleaned uint, runnings uint) {
 	}
 
 	dirs, err := os.ReadDir(sessionsRoot)
+	if os.IsNotExist(err) {
+		return
+	}
 	if err != nil {
-		panic(fmt.Sprintf("[ListSessions] can't read sessions' root path '%s'\n", sessionsRoot))
+		panic(fmt.Errorf("[ListSessions] can't read sessions' root path '%s'\n", sessionsRoot))
 	}
 
 	for _, dir := range dirs {
-- 
2.43.0


From fb6336091e232a7fb38e68f59d23a4a45097fc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 41/71] fix: a crash or a full disk while saving a flow no
 longer leaves a truncated flow file

---
 pkg/mods/persist/meta_file/meta_file.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index a33ede8..f7aa277 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -259,13 +259,27 @@ func (self *MetaFile) parse(lines []string) {
 }
 
 func (self *MetaFile) Save() {
-	file, err := os.OpenFile(self.path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
+	tmp := self.path + ".tmp"
+	file, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		panic(fmt.Errorf("[MetaFile.Save] open mod meta file '%s' for save failed: %v",
-			self.path, err))
+			tmp, err))
 	}
 	defer file.Close()
-	self.save(file)
+
+	buf := bytes.NewBuffer(nil)
+	self.save(buf)
+	_, err = file.Write(buf.Bytes())
+	if err != nil {
+		panic(fmt.Errorf("[MetaFile.Save] write mod meta file '%s' failed: %v", tmp, err))
+	}
+	file.Close()
+
+	err = os.Rename(tmp, self.path)
+	if err != nil {
+		panic(fmt.Errorf("[MetaFile.Save] rename mod meta file '%s' to '%s' failed: %v",
+			tmp, self.path, err))
+	}
 }
 
 func (self *MetaFile) save(w io.Writer) {
-- 
2.43.0


From 0fcb3ab9dbc5e2016fd2e4fab3fb7ffb3aa21e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:05 +0000
Subject: [PATCH 42/71] fix: a session record cut off right after a start mark
 should still be readable

---
 pkg/core/model/executed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index db692b3..8f51a8a 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -181,7 +181,7 @@ func (self *ExecutedFlow) GetCmd(idx int) *ExecutedCmd {
 	if !cmd.IsDelay {
 		return cmd
 	}
-	if len(cmd.SubFlow.Cmds) == 0 {
+	if cmd.SubFlow == nil || len(cmd.SubFlow.Cmds) == 0 {
 		return nil
 	}
 	return cmd.SubFlow.Cmds[0]
@@ -266,7 +266,7 @@ func parseExecutedCmds(path ExecutedStatusFilePath, lines []string,
 				return cmds, hasDelayCmd, lines, lastActiveTs, false
 			}
 		}
-		if cmd.IsDelay {
+		if cmd != nil && cmd.IsDelay {
 			hasDelayCmd = true
 		}
 		if cmd != nil {
-- 
2.43.0


From 9b4055d6f94e95d7f92880d54105068f9fc94452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:07 +0000
Subject: [PATCH 43/71] fix: retrying a session should not run the succeeded
 background commands again

---
 pkg/core/model/executed.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index 8f51a8a..2046304 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -130,6 +130,11 @@ func ParseExecutedFlow(path ExecutedStatusFilePath) (lastActiveTs time.Time, exe
 
 func (self *ExecutedFlow) GenExecMasks() (masks []*ExecuteMask) {
 	for _, cmd := range self.Cmds {
+		if cmd.IsDelay && cmd.SubFlow != nil && len(cmd.SubFlow.Cmds) == 1 {
+			// The subflow of a background command is the record of the command itself
+			masks = append(masks, cmd.SubFlow.GenExecMasks()...)
+			continue
+		}
 		var subMasks []*ExecuteMask
 		if cmd.SubFlow != nil {
 			subMasks = cmd.SubFlow.GenExecMasks()
-- 
2.43.0


From 8de529c9b87661f170d36ced50b3bf1984faa889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:09 +0000
Subject: [PATCH 44/71] fix: commands without status record should not shift
 the records of the following commands in retrying and displaying

---
 pkg/cli/display/flow.go      | 9 ++++++---
 pkg/core/execute/executor.go | 8 ++++++--
 pkg/core/model/parsing.go    | 6 ++++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkg/cli/display/flow.go b/pkg/cli/display/flow.go
index 218e132..5792faa 100644
--- a/pkg/cli/display/flow.go
+++ b/pkg/cli/display/flow.go
@@ -113,14 +113,17 @@ func dumpFlow(
 
 	metFailedOrRunning := false
 
+	recordedCnt := 0
+
 	for i, cmd := range flow.Cmds[fromCmdIdx:] {
 		if cmd.IsEmpty() {
 			continue
 		}
 		var executedCmd *model.ExecutedCmd
-		if executedFlow != nil {
-			if i < len(executedFlow.Cmds) {
-				executedCmd = executedFlow.GetCmd(i)
+		if executedFlow != nil && cmd.HasExecutedRecord() {
+			if recordedCnt < len(executedFlow.Cmds) {
+				executedCmd = executedFlow.GetCmd(recordedCnt)
+				recordedCnt += 1
 			} else {
 				// TODO: better display
 				name := strings.Join(cmd.Path(), sep)
diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index f56c4ba..3d3fd33 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -204,12 +204,16 @@ func (self *Executor) executeFlow(
 	input []string) bool {
 
 	breakAtNext := false
+	recordedCnt := 0
 	for i := 0; i < len(flow.Cmds); i++ {
 		cmd := flow.Cmds[i]
 		var succeeded bool
 		var mask *model.ExecuteMask
-		if i < len(masks) {
-			mask = masks[i]
+		if cmd.HasExecutedRecord() {
+			if recordedCnt < len(masks) {
+				mask = masks[recordedCnt]
+			}
+			recordedCnt += 1
 		}
 		cmdEnv := env
 		if cc.ForestMode.AtForestTopLvl(env) {
diff --git a/pkg/core/model/parsing.go b/pkg/core/model/parsing.go
index daedb31..11662fe 100644
--- a/pkg/core/model/parsing.go
+++ b/pkg/core/model/parsing.go
@@ -125,6 +125,12 @@ func (self ParsedCmd) Clone() ParsedCmd {
 	}
 }
 
+// Env definitions and directories without command are not recorded in the executed status
+func (self ParsedCmd) HasExecutedRecord() bool {
+	last := self.LastCmdNode()
+	return last != nil && !last.IsNoExecutableCmd()
+}
+
 func (self ParsedCmd) IsEmpty() bool {
 	return len(self.Segments) == 0
 }
-- 
2.43.0


From 3f1cf228b61efe991c70369824928fb462dead67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:02 +0000
Subject: [PATCH 45/71] fix: the last executed command should not disappear
 from a half written session record

---
 pkg/core/model/executed.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index 2046304..5f1bb31 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -268,6 +268,10 @@ func parseExecutedCmds(path ExecutedStatusFilePath, lines []string,
 				break
 			}
 			if len(lines) != 0 {
+				// The last record could be half written, the command was still executed
+				if cmd != nil {
+					cmds = append(cmds, cmd)
+				}
 				return cmds, hasDelayCmd, lines, lastActiveTs, false
 			}
 		}
-- 
2.43.0


From e3fd9267344a1af9b7c15ad6c2b84ce7d77450e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:41 +0000
Subject: [PATCH 46/71] fix: retrying a session should execute the unfinished
 commands from their start env, and pass on the finish env of the succeeded
 ones

---
 pkg/core/model/cmd.go      | 24 +++++++++++++-----------
 pkg/core/model/executed.go |  8 +++++++-
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 2c6d029..a6d6e0f 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -287,17 +287,6 @@ func (self *Cmd) execute(
 		}
 	}()
 
-	if mask != nil && mask.OverWriteFinishEnv != nil {
-		p := env
-		for p != nil && p.LayerType() != EnvLayerSession {
-			p.CleanCurrLayer()
-			p = p.Parent()
-		}
-		if p != nil {
-			mask.OverWriteFinishEnv.WriteCurrLayerTo(p)
-		}
-	}
-
 	disableQuietKey := "display.executor"
 	envSession := env.GetLayer(EnvLayerSession)
 	originQuiet := envSession.GetRaw(disableQuietKey)
@@ -309,6 +298,19 @@ func (self *Cmd) execute(
 	newCurrCmdIdx, succeeded = self.executeByType(argv, cc, env, mask, flow,
 		allowError, currCmdIdx, logFilePath, tryBreakInsideFileNFlow)
 
+	// Only a succeeded command has the finish env, the others are executed from the start env
+	if succeeded && mask != nil && mask.OverWriteFinishEnv != nil && mask.ExecutedCmd != nil &&
+		mask.ExecutedCmd.OwnResult == ExecutedResultSucceeded {
+		p := env
+		for p != nil && p.LayerType() != EnvLayerSession {
+			p.CleanCurrLayer()
+			p = p.Parent()
+		}
+		if p != nil {
+			mask.OverWriteFinishEnv.WriteCurrLayerTo(p)
+		}
+	}
+
 	if shouldQuietSubFlow {
 		envSession.Set(disableQuietKey, originQuiet)
 	}
diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index 5f1bb31..e402b6b 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -36,6 +36,9 @@ type ExecutedCmd struct {
 	FinishTs    time.Time
 	Result      ExecutedResult
 	ErrStrs     []string
+
+	// The recorded result of the command itself, regardless of the results in the subflow
+	OwnResult ExecutedResult
 }
 
 func NewExecutedCmd(cmd string) *ExecutedCmd {
@@ -141,7 +144,7 @@ func (self *ExecutedFlow) GenExecMasks() (masks []*ExecuteMask) {
 		}
 		policy := ExecPolicyExec
 		fileNFlowPolicy := ExecPolicyExec
-		if cmd.Result == ExecutedResultSucceeded {
+		if cmd.OwnResult == ExecutedResultSucceeded {
 			if cmd.SubFlow == nil {
 				policy = ExecPolicySkip
 			} else {
@@ -354,6 +357,9 @@ func parseExecutedCmd(path ExecutedStatusFilePath, lines []string,
 	lastActiveTs = cmd.FinishTs
 
 	cmd.Result, lines, ok = parseCmdOrFlowResult(path, lines, "cmd-result", level, ExecutedResultError)
+	if ok {
+		cmd.OwnResult = cmd.Result
+	}
 	cmd.CalResultInCaseIncompleted()
 	if !ok {
 		return cmd, lines, lastActiveTs, false
-- 
2.43.0


From 3d6a676507c142b412c011dc3591550847fae253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 47/71] fix: the record of a session should be readable when a
 value in the flow has line breaks

---
 pkg/core/model/executed.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index e402b6b..21942cf 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -225,8 +225,11 @@ func tryParseExecutedFlow(path ExecutedStatusFilePath, lines []string,
 
 	executed = NewExecutedFlow(path.DirName)
 
-	executed.Flow, lines, ok = parseMarkedOneLineContent(path, lines, "flow", level)
+	// The flow has more than one lines when there are line breaks in the values
+	flowLines, lines, ok := parseMarkedContent(path, lines, "flow", level)
+	executed.Flow = strings.Join(flowLines, "\n")
 	if !ok {
+		executed.Flow = ""
 		return executed, hasDelayCmd, lines, lastActiveTs, false
 	}
 	executed.StartTs, lines, ok = parseMarkedTime(path, lines, "flow-start-time", level)
-- 
2.43.0


From 8ba06369f74461cf6832abfa31b29d8ee25917d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 48/71] fix: retrying the last session after a failed retry
 should go on with the same flow instead of retrying itself forever

---
 pkg/core/model/cmd.go        | 11 +++++++-
 pkg/core/model/flow.go       |  8 +++++-
 pkg/mods/builtin/sessions.go | 50 ++++++++++++++++++++++++++++++------
 3 files changed, 59 insertions(+), 10 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index a6d6e0f..db6640d 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -918,6 +918,15 @@ func FlowStrToStrs(flowStr string) []string {
 	return flowStrs
 }
 
+// The result could be parsed back to the same strings by 'FlowStrToStrs'
+func FlowStrsToQuotedStr(flowStrs []string) string {
+	quoteds := make([]string, len(flowStrs))
+	for i, str := range flowStrs {
+		quoteds[i] = quoteFlowStr(str)
+	}
+	return FlowStrsToStr(quoteds)
+}
+
 func FlowStrsToStr(flowStrs []string) string {
 	return strings.Join(flowStrs, " ")
 }
@@ -954,7 +963,7 @@ func (self *Cmd) executeFlow(argv ArgVals, cc *Cli, env *Env, mask *ExecuteMask)
 	flowEnv.Set("sys.subflow", flowStrEnvVal)
 
 	if cc.FlowStatus != nil {
-		cc.FlowStatus.OnSubFlowStart(flowEnv, flowStr)
+		cc.FlowStatus.OnSubFlowStart(flowEnv, FlowStrsToQuotedStr(flow))
 		defer func() {
 			if succeeded {
 				cc.FlowStatus.OnSubFlowFinish(flowEnv, succeeded, skipped)
diff --git a/pkg/core/model/flow.go b/pkg/core/model/flow.go
index b9918fa..b51998c 100644
--- a/pkg/core/model/flow.go
+++ b/pkg/core/model/flow.go
@@ -122,7 +122,13 @@ func quoteFlowVal(v string, seqSep string) string {
 	if strings.IndexAny(v, flowSpecialChars) < 0 {
 		return normalizeEnvVal(v, seqSep)
 	}
-	v = strings.ReplaceAll(v, seqSep, BackSlash+seqSep)
+	return quoteFlowStr(strings.ReplaceAll(v, seqSep, BackSlash+seqSep))
+}
+
+func quoteFlowStr(v string) string {
+	if strings.IndexAny(v, flowSpecialChars) < 0 {
+		return v
+	}
 	v = strings.ReplaceAll(v, BackSlash, BackSlash+BackSlash)
 	return "\"" + strings.ReplaceAll(v, "\"", BackSlash+"\"") + "\""
 }
diff --git a/pkg/mods/builtin/sessions.go b/pkg/mods/builtin/sessions.go
index 5dbeb18..c99ef58 100644
--- a/pkg/mods/builtin/sessions.go
+++ b/pkg/mods/builtin/sessions.go
@@ -519,23 +519,23 @@ func SessionRetry(argv model.ArgVals, cc *model.Cli, env *model.Env) (flow []str
 	if len(sessions) > 1 {
 		panic(fmt.Errorf("[SessionRetry] should never happen"))
 	}
-	return retrySession(sessions[0], false)
+	return retrySession(cc, sessions[0], false)
 }
 
 func LastSessionRetry(argv model.ArgVals, cc *model.Cli, env *model.Env) (flow []string, masks []*model.ExecuteMask, ok bool) {
-	session, ok := getLastSession(cc, env, true, true, true)
+	session, ok := getLastSessionEx(cc, env, true, true, true, isSessionNothingToRetry)
 	if !ok {
 		panic(fmt.Errorf("no executed sessions"))
 	}
-	return retrySession(session, false)
+	return retrySession(cc, session, false)
 }
 
 func LastErrorSessionRetry(argv model.ArgVals, cc *model.Cli, env *model.Env) (flow []string, masks []*model.ExecuteMask, ok bool) {
-	session, ok := getLastSession(cc, env, true, false, false)
+	session, ok := getLastSessionEx(cc, env, true, false, false, isSessionNothingToRetry)
 	if !ok {
 		panic(fmt.Errorf("no executed sessions"))
 	}
-	return retrySession(session, false)
+	return retrySession(cc, session, false)
 }
 
 func findSessions(
@@ -650,6 +650,12 @@ func descSession(session model.SessionStatus, argv model.ArgVals, cc *model.Cli,
 func getLastSession(cc *model.Cli, env *model.Env, includeError bool, includeDone bool,
 	includeRunning bool) (session model.SessionStatus, ok bool) {
 
+	return getLastSessionEx(cc, env, includeError, includeDone, includeRunning, isSessionShouldHideInLast)
+}
+
+func getLastSessionEx(cc *model.Cli, env *model.Env, includeError bool, includeDone bool, includeRunning bool,
+	shouldHide func(*model.Cli, model.SessionStatus) bool) (session model.SessionStatus, ok bool) {
+
 	var sessions []model.SessionStatus
 	currSession := env.GetRaw("sys.session.id")
 	cntLimit := 16
@@ -668,7 +674,7 @@ func getLastSession(cc *model.Cli, env *model.Env, includeError bool, includeDon
 		if session.SessionId() == currSession {
 			continue
 		}
-		if isSessionShouldHideInLast(cc, session) {
+		if shouldHide(cc, session) {
 			continue
 		}
 		return session, true
@@ -689,11 +695,39 @@ func isSessionShouldHideInLast(cc *model.Cli, session model.SessionStatus) bool
 	return false
 }
 
-func retrySession(session model.SessionStatus, errSessionOnly bool) (flow []string, masks []*model.ExecuteMask, ok bool) {
+// A retrying session without any record of the retried flow has nothing to go on with
+func isSessionNothingToRetry(cc *model.Cli, session model.SessionStatus) bool {
+	return isSessionShouldHideInLast(cc, session) || isRetryFlow(cc, getRetriedFlow(cc, session.Status))
+}
+
+// If a session retried another one, get the record of the retried flow
+func getRetriedFlow(cc *model.Cli, status *model.ExecutedFlow) *model.ExecutedFlow {
+	for len(status.Cmds) == 1 && status.Cmds[0].SubFlow != nil && isRetryFlow(cc, status) {
+		status = status.Cmds[0].SubFlow
+	}
+	return status
+}
+
+func isRetryFlow(cc *model.Cli, status *model.ExecutedFlow) bool {
+	parsedCmd, ok := cc.ParseCmd(false, model.FlowStrToStrs(status.Flow)...)
+	if !ok || parsedCmd.LastCmd() == nil {
+		return false
+	}
+	for _, it := range []interface{}{SessionRetry, LastSessionRetry, LastErrorSessionRetry} {
+		if parsedCmd.LastCmd().IsTheSameFunc(it) {
+			return true
+		}
+	}
+	return false
+}
+
+func retrySession(cc *model.Cli, session model.SessionStatus, errSessionOnly bool) (flow []string, masks []*model.ExecuteMask, ok bool) {
 	if errSessionOnly && session.Status != nil && session.Status.Result == model.ExecutedResultSucceeded {
 		panic(fmt.Errorf("session [%s] had succeeded, nothing to retry", session.DirName))
 	}
-	return []string{session.Status.Flow}, session.Status.GenExecMasks(), true
+	// Retrying a retry goes on with the same flow, executing it as it is could find itself again
+	status := getRetriedFlow(cc, session.Status)
+	return []string{status.Flow}, status.GenExecMasks(), true
 }
 
 func normalizeSid(id string) string {
-- 
2.43.0


From 8c754fa53748d25490f8d1fa746b76013434bf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:03 +0000
Subject: [PATCH 49/71] fix: sessions of the same second should be ordered by
 pid number, or the last session could be a wrong one

---
 pkg/core/model/session.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/session.go b/pkg/core/model/session.go
index 4efbfd5..c21492b 100644
--- a/pkg/core/model/session.go
+++ b/pkg/core/model/session.go
@@ -54,7 +54,9 @@ func ListSessions(
 		dirs[i] = it.Name()
 	}
 	total = len(dirs)
-	sort.Sort(sort.Reverse(sort.StringSlice(dirs)))
+	sort.Slice(dirs, func(i, j int) bool {
+		return sessionDirNameLess(dirs[j], dirs[i])
+	})
 
 	keepDur := env.GetDur("sys.sessions.keep-status-duration")
 	statusFileName := env.GetRaw("strs.session-status-file")
@@ -287,6 +289,16 @@ func parseSessionDirName(dirName string) (pid int, startTs time.Time, ok bool) {
 	return pid, startTs, true
 }
 
+// Sessions of the same second are ordered by pid (as a number)
+func sessionDirNameLess(l string, r string) bool {
+	lPid, lTs, lOk := parseSessionDirName(l)
+	rPid, rTs, rOk := parseSessionDirName(r)
+	if lOk && rOk && lTs.Equal(rTs) && lPid != rPid {
+		return lPid < rPid
+	}
+	return l < r
+}
+
 const SessionDirTimeFormat = "20060102-150405"
 const SessionTimeFormat = "2006-01-02 15:04:05"
 const SessionTimeShortFormat = "02-15:04:05"
-- 
2.43.0


From 1afb0afac9879dcba39ed67a6ad2a3a23a8a4528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:32 +0000
Subject: [PATCH 50/71] fix: the env of a background command should not be read
 by the main thread after the command started, it may crash the program

---
 pkg/core/execute/executor.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 3d3fd33..e6ca7a1 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -523,6 +523,9 @@ func asyncExecute(
 
 	tidChan := make(chan string, 1)
 
+	// The original env is owned by the background task after it starts
+	displayEnv := env.Clone()
+
 	// TODO: fixme, do real clone for ready-only instances
 	go func(
 		dur time.Duration,
@@ -610,7 +613,7 @@ func asyncExecute(
 	}(dur, argv, cc, env, flow, currCmdIdx)
 
 	tid = <-tidChan
-	screen.Print(display.ColorExplain("(current command scheduled to thread "+tid+")\n", env))
+	screen.Print(display.ColorExplain("(current command scheduled to thread "+tid+")\n", displayEnv))
 	return tid, true
 }
 
-- 
2.43.0


From 6bd081c3e1234d6d913883bba72778be4e938059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 51/71] fix: waiting for background commands by name or for the
 latest one should not crash when they are not the earliest, or there are
 others with the same name

---
 pkg/core/model/bg_tasks.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/pkg/core/model/bg_tasks.go b/pkg/core/model/bg_tasks.go
index 94f7839..6a1044e 100644
--- a/pkg/core/model/bg_tasks.go
+++ b/pkg/core/model/bg_tasks.go
@@ -96,17 +96,19 @@ type BgTaskInfo struct {
 
 type BgTask struct {
 	info           BgTaskInfo
+	realName       string
 	stdout         *BgStdout
 	finishNotifier chan error
 	lock           sync.Mutex
 }
 
-func NewBgTask(tid string, cmd string, stdout *BgStdout) *BgTask {
+func NewBgTask(tid string, cmd string, realName string, stdout *BgStdout) *BgTask {
 	return &BgTask{
 		info: BgTaskInfo{
 			Tid: tid,
 			Cmd: cmd,
 		},
+		realName:       realName,
 		stdout:         stdout,
 		finishNotifier: make(chan error),
 	}
@@ -159,9 +161,8 @@ func (self *BgTasks) GetOrAddTask(tid string, displayName string, realName strin
 		return task
 	}
 	self.tids = append(self.tids, tid)
-	task = NewBgTask(tid, displayName, stdout)
+	task = NewBgTask(tid, displayName, realName, stdout)
 	self.tasks[tid] = task
-	println(realName)
 	self.name2task[realName] = task
 	return task
 }
@@ -224,14 +225,32 @@ func (self *BgTasks) BringBgTaskToFront(tid string, stdout io.Writer) {
 func (self *BgTasks) RemoveTask(tid string) {
 	self.lock.Lock()
 	defer self.lock.Unlock()
-	_, ok := self.tasks[tid]
+	task, ok := self.tasks[tid]
 	if len(self.tids) == 0 || !ok {
 		panic(fmt.Errorf("[BgTasks.RemoveTask] task '%s' not found", tid))
 	}
-	if self.tids[0] != tid {
-		panic(fmt.Errorf("[BgTasks.RemoveTask] removing task '%s' is not the earliest", tid))
+	// Any task could be waited for, not only the earliest one
+	tids := []string{}
+	for _, it := range self.tids {
+		if it != tid {
+			tids = append(tids, it)
+		}
 	}
-	self.tids = self.tids[1:]
+	self.tids = tids
 	delete(self.tasks, tid)
-	// TODO: remove it from name2task
+	self.removeFromName2Task(task)
+}
+
+func (self *BgTasks) removeFromName2Task(removed *BgTask) {
+	if self.name2task[removed.realName] != removed {
+		return
+	}
+	delete(self.name2task, removed.realName)
+	// The name still points to the latest one of the other tasks with the same name
+	for _, tid := range self.tids {
+		task := self.tasks[tid]
+		if task.realName == removed.realName {
+			self.name2task[task.realName] = task
+		}
+	}
 }
-- 
2.43.0


From 83a44578c3fa56ec3482061bd146fad4c88fe295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:57 +0000
Subject: [PATCH 52/71] fix: a command skipped at a breakpoint should be
 recorded as skipped, not as succeeded

---
 pkg/core/model/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index db6640d..d8a5a44 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -1116,5 +1116,5 @@ func shouldExecByMask(mask *ExecuteMask) bool {
 }
 
 func executedAndSucceeded(mask *ExecuteMask) bool {
-	return (mask != nil || mask.ResultIfExecuted == ExecutedResultSucceeded)
+	return (mask != nil && mask.ResultIfExecuted == ExecutedResultSucceeded)
 }
-- 
2.43.0


From b0626990a381d6fc0149fdfcbcb52f49efa4fe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:05 +0000
Subject: [PATCH 53/71] fix: a line being only an empty command in tail-mode
 form should not crash

---
 pkg/core/execute/cmd_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/execute/cmd_type.go b/pkg/core/execute/cmd_type.go
index ac86176..7b17dd9 100644
--- a/pkg/core/execute/cmd_type.go
+++ b/pkg/core/execute/cmd_type.go
@@ -105,7 +105,7 @@ func noSessionCmds(flow *model.ParsedCmds) bool {
 		}
 		ignore := false
 		for _, it := range funcs {
-			if cmd.Cmd() != nil && cmd.Cmd().IsTheSameFunc(it) {
+			if cmd != nil && cmd.Cmd() != nil && cmd.Cmd().IsTheSameFunc(it) {
 				ignore = true
 				break
 			}
-- 
2.43.0


From c1acfd32788aae92ebbae80c965a46dc2aeda3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:05 +0000
Subject: [PATCH 54/71] fix: listing commands with a depth which shows none
 should not panic

---
 pkg/cli/display/cmds.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/cli/display/cmds.go b/pkg/cli/display/cmds.go
index e53e5f4..734efd9 100644
--- a/pkg/cli/display/cmds.go
+++ b/pkg/cli/display/cmds.go
@@ -75,6 +75,8 @@ func DumpCmdsWithTips(
 	} else {
 		if len(filterLines) != 0 {
 			title = "no commands matched:"
+		} else if !allShown {
+			title = "no commands:"
 		} else {
 			panic(fmt.Errorf("should never happen, no loaded commands"))
 		}
-- 
2.43.0


From 44424a69f465622f69ae6779c6e59282545b2020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:05 +0000
Subject: [PATCH 55/71] fix: wrapping texts should not break when the display
 width is very small

---
 pkg/cli/display/tip.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/cli/display/tip.go b/pkg/cli/display/tip.go
index 896e065..370ff2e 100644
--- a/pkg/cli/display/tip.go
+++ b/pkg/cli/display/tip.go
@@ -33,6 +33,9 @@ func printTipTitle(screen model.Screen, env *model.Env, isErr bool, msgs ...inte
 	printer.Finish()
 }
 
+// The text won't be wrapped to narrower than this, however small the display width is
+const minTipBoxWidth = 16
+
 type TipBoxPrinter struct {
 	screen   model.Screen
 	env      *model.Env
@@ -43,13 +46,17 @@ type TipBoxPrinter struct {
 }
 
 func NewTipBoxPrinter(screen model.Screen, env *model.Env, isErr bool) *TipBoxPrinter {
+	maxWidth := env.GetInt("display.width") - 4 - 2
+	if maxWidth < minTipBoxWidth {
+		maxWidth = minTipBoxWidth
+	}
 	return &TipBoxPrinter{
 		screen,
 		env,
 		isErr,
 		false,
 		NewCacheScreen(),
-		env.GetInt("display.width") - 4 - 2,
+		maxWidth,
 	}
 }
 
-- 
2.43.0


From 3db0b029c1a5a486490cd14e5f5893c73d9181bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:05 +0000
Subject: [PATCH 56/71] fix: showing an error should not crash when the display
 settings are unusable

---
 pkg/ticat/ticat.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pkg/ticat/ticat.go b/pkg/ticat/ticat.go
index 7b242b0..31b7d0d 100644
--- a/pkg/ticat/ticat.go
+++ b/pkg/ticat/ticat.go
@@ -200,7 +200,7 @@ func (ticat *TiCat) run(args ...string) bool {
 			return
 		}
 		if env.GetBool("sys.panic.recover") {
-			display.PrintError(ticat.cc, env, recoveredToErr(recovered))
+			ticat.printError(env, recoveredToErr(recovered))
 		}
 		// Exit point: panic
 		ticat.exitEventHook("sys.event.hook.error")
@@ -252,7 +252,7 @@ func (ticat *TiCat) exitEventHook(hookKeyName string) (ok bool) {
 		// Exit point: panic when executing exit-event-hook
 		// TODO: need to check this flag doesn't from user-level persisted env
 		if env.GetBool("sys.panic.recover") {
-			display.PrintError(ticat.cc, env, recoveredToErr(recovered))
+			ticat.printError(env, recoveredToErr(recovered))
 			os.Exit(-2)
 		} else {
 			// Re-throw
@@ -269,6 +269,21 @@ func (ticat *TiCat) exitEventHook(hookKeyName string) (ok bool) {
 	return true
 }
 
+// Displaying an error relies on the env, the values in it may be unusable (eg: 'display.width' is not a number),
+// then show the error in the plainest way
+func (ticat *TiCat) printError(env *model.Env, err error) {
+	defer func() {
+		if recovered := recover(); recovered != nil {
+			ticat.cc.Screen.Error(err.Error() + "\n")
+			displayErr := recoveredToErr(recovered).Error()
+			if displayErr != err.Error() {
+				ticat.cc.Screen.Error(displayErr + "\n")
+			}
+		}
+	}()
+	display.PrintError(ticat.cc, env, err)
+}
+
 // A panic may carry any value, not only an error
 func recoveredToErr(recovered interface{}) error {
 	if err, ok := recovered.(error); ok {
-- 
2.43.0


From 9245ce1c70b3c67eaf21f49b5963797b9362d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:59 +0000
Subject: [PATCH 57/71] fix: the description of a sequence should use the
 values changed by folded or duplicated sub flows

---
 pkg/cli/display/flow.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/pkg/cli/display/flow.go b/pkg/cli/display/flow.go
index 5792faa..af76f08 100644
--- a/pkg/cli/display/flow.go
+++ b/pkg/cli/display/flow.go
@@ -239,12 +239,13 @@ func dumpFlowCmd(
 			if err != nil {
 				panic(err.Error)
 			}
-			parsedFlow.GlobalEnv.WriteNotArgTo(env, cc.Cmds.Strs.EnvValDelAllMark)
+			subflowEnv := cmdEnv.NewLayer(model.EnvLayerSubFlow)
+			parsedFlow.GlobalEnv.WriteNotArgTo(subflowEnv, cc.Cmds.Strs.EnvValDelAllMark)
 			var executedFlow *model.ExecutedFlow
 			if executedCmd != nil {
 				executedFlow = executedCmd.SubFlow
 			}
-			return cmdInBg, dumpFlow(cc, env, envOpCmds, parsedFlow, 0, args, executedFlow, procRunning,
+			return cmdInBg, dumpFlow(cc, subflowEnv, envOpCmds, parsedFlow, 0, args, executedFlow, procRunning,
 				cmdInBg, writtenKeys, maxDepth-1, maxTrivial-trivialDelta, depth+1, cmdFailed() || parentIncompleted)
 		}
 		return cmdInBg, !cmdFailed()
@@ -292,8 +293,8 @@ func dumpFlowCmd(
 		dumpCmdTypeAndSource(cmd, cmdEnv, prt, args)
 	}
 
+	metFlow := false
 	if !foldSubFlow() && !cic.IsBuiltinCmd() && (cic.HasCmdLine() || cic.HasSubFlow(false)) {
-		metFlow := false
 		if cic.HasSubFlow(false) {
 			flowStrs, _, _ := cic.RenderedFlowStrs(argv, cc, cmdEnv, true, true)
 			flowStr := strings.Join(flowStrs, " ")
@@ -376,6 +377,22 @@ func dumpFlowCmd(
 		}
 	}
 
+	// The sub flow is not displayed, but the values it changes will be used in displaying the following commands
+	if executedCmd == nil && !cic.IsBuiltinCmd() && (foldSubFlow() || metFlow) && cic.HasSubFlow(false) {
+		subFlow, _, rendered := cic.Flow(argv, cc, cmdEnv, true, true)
+		if rendered && len(subFlow) != 0 {
+			parsedFlow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, subFlow...)
+			err := parsedFlow.FirstErr()
+			if err != nil {
+				panic(err.Error)
+			}
+			subflowEnv := cmdEnv.NewLayer(model.EnvLayerSubFlow)
+			parsedFlow.GlobalEnv.WriteNotArgTo(subflowEnv, cc.Cmds.Strs.EnvValDelAllMark)
+			dumpFlow(cc, subflowEnv, envOpCmds, parsedFlow, 0, args, nil, procRunning,
+				cmdInBg, writtenKeys, 0, maxTrivial-trivialDelta, depth+1, false)
+		}
+	}
+
 	model.TryExeEnvOpCmds(argv, cc, cmdEnv, flow, currCmdIdx, envOpCmds, nil,
 		"failed to execute env-op cmd in flow desc")
 
-- 
2.43.0


From b4f5fab4a12f6ef66eda05b7ddac2e4a2a42a2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:44 +0000
Subject: [PATCH 58/71] fix: a tail-mode call of cmds.tree should use the given
 command

---
 pkg/mods/builtin/help.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/help.go b/pkg/mods/builtin/help.go
index a85327e..b5c5f6b 100644
--- a/pkg/mods/builtin/help.go
+++ b/pkg/mods/builtin/help.go
@@ -132,7 +132,7 @@ func DumpCmdsTree(
 
 	cmdPath := ""
 	cmds := cc.Cmds
-	if len(argv.GetRaw("cmd-path")) != 0 {
+	if len(argv.GetRaw("cmd-path")) != 0 || flow.TailModeCall && len(tailModeGetInput(flow, currCmdIdx, false)) != 0 {
 		cmdPath = tailModeCallArg(flow, currCmdIdx, argv, "cmd-path")
 		cmds = cmds.GetSubByPath(cmdPath, true)
 	}
-- 
2.43.0


From a1ae94014ac1b0ac6828e6346c57c30f3f13b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:09 +0000
Subject: [PATCH 59/71] fix: retrying a session should not spread the values
 limited to a skipped command, and should repeat its deletions

---
 pkg/core/model/cmd.go | 47 +++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index d8a5a44..a9266df 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -230,14 +230,7 @@ func (self *Cmd) execute(
 
 	// TODO: this logic should be in upper layer
 	if mask != nil && mask.OverWriteStartEnv != nil {
-		p := env
-		for p != nil && p.LayerType() != EnvLayerSession {
-			p.CleanCurrLayer()
-			p = p.Parent()
-		}
-		if p != nil {
-			mask.OverWriteStartEnv.WriteCurrLayerTo(p)
-		}
+		restoreEnv(env, nil, mask.OverWriteStartEnv)
 	}
 
 	logFilePath := self.genLogFilePath(env)
@@ -299,22 +292,46 @@ func (self *Cmd) execute(
 		allowError, currCmdIdx, logFilePath, tryBreakInsideFileNFlow)
 
 	// Only a succeeded command has the finish env, the others are executed from the start env
-	if succeeded && mask != nil && mask.OverWriteFinishEnv != nil && mask.ExecutedCmd != nil &&
+	if succeeded && mask != nil && mask.ExecutedCmd != nil &&
 		mask.ExecutedCmd.OwnResult == ExecutedResultSucceeded {
+		finishEnv := mask.OverWriteFinishEnv
+		if finishEnv == nil {
+			// No values at all
+			finishEnv = NewEnv()
+		}
+		restoreEnv(env, mask.ExecutedCmd.StartEnv, finishEnv)
+	}
+
+	if shouldQuietSubFlow {
+		envSession.Set(disableQuietKey, originQuiet)
+	}
+	return
+}
+
+// Make the recorded values visible: a value which is already the same keeps its layer, others are written to the session.
+// The keys which were in 'before' but not in 'recorded' are deleted.
+func restoreEnv(env *Env, before *Env, recorded *Env) {
+	for k, v := range recorded.pairs {
+		if curr, ok := env.GetEx(k); ok && curr.Raw == v.Raw {
+			continue
+		}
 		p := env
 		for p != nil && p.LayerType() != EnvLayerSession {
-			p.CleanCurrLayer()
+			p.DeleteInSelfLayer(k)
 			p = p.Parent()
 		}
 		if p != nil {
-			mask.OverWriteFinishEnv.WriteCurrLayerTo(p)
+			p.Set(k, v.Raw)
 		}
 	}
-
-	if shouldQuietSubFlow {
-		envSession.Set(disableQuietKey, originQuiet)
+	if before == nil {
+		return
+	}
+	for k, _ := range before.pairs {
+		if _, ok := recorded.pairs[k]; !ok {
+			env.DeleteEx(k, EnvLayerDefault)
+		}
 	}
-	return
 }
 
 func (self *Cmd) executeByType(
-- 
2.43.0


From 8c6274ed2c029f11bb2dd70b321d7353a278e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:49 +0000
Subject: [PATCH 60/71] fix: showing the log of a command in flows nested
 deeply should not loop forever or crash

---
 pkg/cli/display/flow.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/cli/display/flow.go b/pkg/cli/display/flow.go
index af76f08..f135a89 100644
--- a/pkg/cli/display/flow.go
+++ b/pkg/cli/display/flow.go
@@ -417,6 +417,8 @@ func dumpCmdHelp(help string, env *model.Env, args *DumpFlowArgs, prt func(inden
 	}
 }
 
+const minLogLineLen = 32
+
 func dumpCmdExecutedLog(
 	env *model.Env,
 	args *DumpFlowArgs,
@@ -434,6 +436,10 @@ func dumpCmdExecutedLog(
 
 	padLen := padLenCal(2)
 	limit := lineLimit - padLen
+	if limit < minLogLineLen {
+		// Too deep, the padding uses up all the width
+		limit = minLogLineLen
+	}
 
 	if !args.MonitorMode {
 		if executedCmd.Result == model.ExecutedResultSucceeded {
-- 
2.43.0


From dce99d42f7abde4e2cc86996ee89791b79576346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:49 +0000
Subject: [PATCH 61/71] fix: a command which was not run should not be shown
 with a start time

---
 pkg/cli/display/flow.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/cli/display/flow.go b/pkg/cli/display/flow.go
index f135a89..6d2dd30 100644
--- a/pkg/cli/display/flow.go
+++ b/pkg/cli/display/flow.go
@@ -571,7 +571,10 @@ func dumpCmdDisplayName(
 			return name, false
 		}
 
-		name += " " + ColorExplain(executedCmd.StartTs.Format(model.SessionTimeShortFormat), env) + " "
+		name += " "
+		if !executedCmd.StartTs.IsZero() {
+			name += ColorExplain(executedCmd.StartTs.Format(model.SessionTimeShortFormat), env) + " "
+		}
 
 		resultStr := string(executedCmd.Result)
 		if executedCmd.Result == model.ExecutedResultError {
-- 
2.43.0


From 504cf330be06a6add2f814394ea1f6fe571595ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:49 +0000
Subject: [PATCH 62/71] fix: a session description should show that the last
 values were deleted

---
 pkg/cli/display/flow.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/cli/display/flow.go b/pkg/cli/display/flow.go
index 6d2dd30..6f20b95 100644
--- a/pkg/cli/display/flow.go
+++ b/pkg/cli/display/flow.go
@@ -856,7 +856,8 @@ func dumpExecutedModifiedEnv(
 	if !args.ShowExecutedModifiedEnv && executedCmd.Result != model.ExecutedResultError {
 		return
 	}
-	if executedCmd.FinishEnv == nil && executedCmd.Result != model.ExecutedResultError {
+	if executedCmd.FinishEnv == nil && executedCmd.Result != model.ExecutedResultError &&
+		executedCmd.Result != model.ExecutedResultSucceeded {
 		return
 	}
 
-- 
2.43.0


From 0d348c637d70153ad1a8729c98c1f9b66a1f91d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:13 +0000
Subject: [PATCH 63/71] fix: resetting should not make absent keys, removing by
 prefix should be known to the checking

---
 pkg/core/model/env_ops.go |  8 ++++++++
 pkg/mods/builtin/env.go   |  4 +++-
 pkg/mods/builtin/misc.go  | 25 +++++++++++++++++++++++--
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/pkg/core/model/env_ops.go b/pkg/core/model/env_ops.go
index f24b5d2..d725703 100644
--- a/pkg/core/model/env_ops.go
+++ b/pkg/core/model/env_ops.go
@@ -152,6 +152,14 @@ func (self *EnvOpsChecker) RemoveKeyStat(key string) {
 	(*self)[key] = envOpsCheckerKeyInfo{}
 }
 
+func (self *EnvOpsChecker) RemoveKeyStatHavePrefix(prefix string) {
+	for key, _ := range *self {
+		if strings.HasPrefix(key, prefix) {
+			self.RemoveKeyStat(key)
+		}
+	}
+}
+
 func (self *EnvOpsChecker) SetKeyWritten(key string) {
 	old, ok := (*self)[key]
 	if !ok {
diff --git a/pkg/mods/builtin/env.go b/pkg/mods/builtin/env.go
index 95efeba..7368a13 100644
--- a/pkg/mods/builtin/env.go
+++ b/pkg/mods/builtin/env.go
@@ -321,7 +321,9 @@ func ResetSessionEnv(
 	if len(excludeStr) != 0 {
 		listSep := env.GetRaw("strs.list-sep")
 		for _, key := range strings.Split(excludeStr, listSep) {
-			excludes[key] = env.GetRaw(key)
+			if val, ok := env.GetEx(key); ok {
+				excludes[key] = val.Raw
+			}
 		}
 	}
 
diff --git a/pkg/mods/builtin/misc.go b/pkg/mods/builtin/misc.go
index 955a756..0dfa5ba 100644
--- a/pkg/mods/builtin/misc.go
+++ b/pkg/mods/builtin/misc.go
@@ -183,10 +183,15 @@ func EnvOpCmds() []model.EnvOpCmd {
 			ResetSessionEnv,
 			func(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
 				excludes := map[string]string{}
+				existed := map[string]string{}
 				excludeStr := argv.GetRaw("exclude-keys")
 				if len(excludeStr) != 0 {
 					for _, key := range strings.Split(excludeStr, env.GetRaw("strs.list-sep")) {
-						excludes[key] = env.GetRaw(key)
+						val, ok := env.GetEx(key)
+						excludes[key] = val.Raw
+						if ok {
+							existed[key] = val.Raw
+						}
 					}
 				}
 				if checker != nil {
@@ -194,7 +199,7 @@ func EnvOpCmds() []model.EnvOpCmd {
 				}
 				sessionEnv := env.GetLayer(model.EnvLayerSession)
 				sessionEnv.Clear(false)
-				for key, val := range excludes {
+				for key, val := range existed {
 					sessionEnv.Set(key, val)
 				}
 			}},
@@ -250,6 +255,22 @@ func EnvOpCmds() []model.EnvOpCmd {
 				env.GetLayer(model.EnvLayerSession).
 					SetIfEmpty(key, "<dummy-fake-key-for-env-op-check-only-from-AddEnvKeyValue>")
 			}},
+		model.EnvOpCmd{RemoveEnvValHavePrefixNotSave,
+			func(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
+				prefix := argv.GetRaw("prefix")
+				if len(prefix) == 0 {
+					return
+				}
+				if checker != nil {
+					checker.RemoveKeyStatHavePrefix(prefix)
+				}
+				for key, _ := range env.FlattenAll() {
+					if strings.HasPrefix(key, prefix) {
+						env.DeleteEx(key, model.EnvLayerDefault)
+					}
+				}
+			}},
+
 		model.EnvOpCmd{RemoveEnvValNotSave,
 			func(checker *model.EnvOpsChecker, argv model.ArgVals, env *model.Env) {
 				key := argv.GetRaw("key")
-- 
2.43.0


From 225f41a0c1a1dc82b6d52a40bebf0936d9b6e07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:56 +0000
Subject: [PATCH 64/71] fix: a step or skip asked for in the main thread should
 not pause the commands of a background task

---
 pkg/core/execute/interactive.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/core/execute/interactive.go b/pkg/core/execute/interactive.go
index 29c1604..c9edc73 100644
--- a/pkg/core/execute/interactive.go
+++ b/pkg/core/execute/interactive.go
@@ -211,6 +211,8 @@ func tryBreakInsideFileNFlow(cc *model.Cli, env *model.Env, cmd *model.Cmd, show
 func clearBreakPointStatusInEnv(env *model.Env) {
 	env = env.GetLayer(model.EnvLayerSession)
 	env.Delete("sys.interact.leaving")
+	env.Delete("sys.breakpoint.here.now")
+	env.Delete("sys.breakpoint.at-next")
 	env.Delete("sys.breakpoint.status.step-in")
 	env.Delete("sys.breakpoint.status.step-out")
 }
-- 
2.43.0


From 45716393d7c04697a7d3956b856817590173cdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:27 +0000
Subject: [PATCH 65/71] fix: the interact mode was left at once when another
 one had been left before in the same run

---
 pkg/mods/builtin/interactive.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/mods/builtin/interactive.go b/pkg/mods/builtin/interactive.go
index 7377ec3..cff71e9 100644
--- a/pkg/mods/builtin/interactive.go
+++ b/pkg/mods/builtin/interactive.go
@@ -16,6 +16,8 @@ func InteractiveMode(cc *model.Cli, env *model.Env, exitStr string) {
 	cc = cc.CopyForInteract()
 	sessionEnv := env.GetLayer(model.EnvLayerSession)
 	sessionEnv.SetBool("sys.interact.inside", true)
+	// A leaving request is for the mode it was made in, not for later ones
+	sessionEnv.Delete("sys.interact.leaving")
 
 	seqSep := env.GetRaw("strs.seq-sep")
 	kvSep := env.GetRaw("strs.env-kv-sep")
-- 
2.43.0


From 1990e0ac47216235bb65010d5e2ce2ee6c7c55a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:29 +0000
Subject: [PATCH 66/71] fix: a command panicking with something else than an
 error should not end the interact mode

---
 pkg/mods/builtin/interactive.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/interactive.go b/pkg/mods/builtin/interactive.go
index cff71e9..8684424 100644
--- a/pkg/mods/builtin/interactive.go
+++ b/pkg/mods/builtin/interactive.go
@@ -187,7 +187,11 @@ func executorSafeExecute(caller string, cc *model.Cli, env *model.Env, masks []*
 			return
 		}
 		if r := recover(); r != nil {
-			display.PrintError(cc, env, r.(error))
+			err, ok := r.(error)
+			if !ok {
+				err = fmt.Errorf("%v", r)
+			}
+			display.PrintError(cc, env, err)
 		}
 	}()
 
-- 
2.43.0


From 1baf5ed0a38309d4bf432cebae7d193bace45d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:24 +0000
Subject: [PATCH 67/71] fix: a value ending with a carriage return should be
 loaded as it was saved

---
 pkg/core/model/proto.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 8de7ce3..e240040 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"bufio"
+	"bytes"
 	"fmt"
 	"io"
 	"math"
@@ -51,7 +52,16 @@ func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 	scanner := bufio.NewScanner(reader)
 	// The default max line length is 64K, values could be longer than that
 	scanner.Buffer(nil, math.MaxInt)
-	scanner.Split(bufio.ScanLines)
+	// Not bufio.ScanLines: it drops a '\r' at the end of a value
+	scanner.Split(func(data []byte, atEOF bool) (advance int, token []byte, err error) {
+		if i := bytes.IndexByte(data, '\n'); i >= 0 {
+			return i + 1, data[:i], nil
+		}
+		if atEOF && len(data) > 0 {
+			return len(data), data, nil
+		}
+		return 0, nil, nil
+	})
 	for scanner.Scan() {
 		text := scanner.Text()
 		if strings.HasSuffix(text, "\n") {
-- 
2.43.0


From ea2c243c7795cfc88f0dd19965592042324d6d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:44 +0000
Subject: [PATCH 68/71] fix: a line starting with a command needing no session
 should have one if the following commands need it

---
 pkg/core/execute/cmd_type.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/cmd_type.go b/pkg/core/execute/cmd_type.go
index 7b17dd9..3f24c7a 100644
--- a/pkg/core/execute/cmd_type.go
+++ b/pkg/core/execute/cmd_type.go
@@ -89,13 +89,23 @@ func allowParseError(flow *model.ParsedCmds) bool {
 	return false
 }
 
+func followingsNeedSession(flow *model.ParsedCmds) bool {
+	for _, it := range flow.Cmds[1:] {
+		node := it.LastCmdNode()
+		if node != nil && node.Cmd() != nil && !node.IsBuiltin() && !node.Cmd().IsNoSessionCmd() {
+			return true
+		}
+	}
+	return false
+}
+
 func noSessionCmds(flow *model.ParsedCmds) bool {
 	if len(flow.Cmds) == 0 {
 		return true
 	}
 	cmd := flow.Cmds[0].LastCmdNode()
 
-	if cmd != nil && cmd.Cmd() != nil && cmd.Cmd().IsNoSessionCmd() {
+	if cmd != nil && cmd.Cmd() != nil && cmd.Cmd().IsNoSessionCmd() && !followingsNeedSession(flow) {
 		return true
 	}
 
-- 
2.43.0


From 0943776f0b503aed5f306700ef124fd4064601b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:26 +0000
Subject: [PATCH 69/71] fix: the values given by a recursive call should not be
 overwritten by the ones of its session

---
 pkg/core/execute/executor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index e6ca7a1..460b7ea 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -162,6 +162,10 @@ func (self *Executor) execute(caller string, cc *model.Cli, env *model.Env, mask
 				return false
 			}
 			crossProcessInnerCall = sessionExisted
+			if sessionExisted && flow.GlobalEnv != nil {
+				// The values of the existed session are loaded, the ones given by this call should win
+				flow.GlobalEnv.WriteNotArgTo(env, cc.Cmds.Strs.EnvValDelAllMark)
+			}
 			cc.SetFlowStatusWriter(statusWriter)
 		} else {
 			model.SessionSetId(env)
-- 
2.43.0


From 733c03eed2439d868b92e59443da407c6d349d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:49 +0000
Subject: [PATCH 70/71] fix: a flow in a recursive call should not break the
 stack of the outer run

---
 pkg/core/model/cmd.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index a9266df..89bbed8 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -1095,7 +1095,12 @@ func (self *Cmd) executeFile(argv ArgVals, cc *Cli, env *Env, allowError bool, p
 	}
 
 	if len(sessionPath) != 0 {
-		LoadEnvFromFile(env.GetLayer(EnvLayerSession), sessionPath, sep, delMark)
+		// A recursive ticat call may leave its own stack in the file, keep the one of this process
+		envSession := env.GetLayer(EnvLayerSession)
+		stack, depth := envSession.GetRaw("sys.stack"), envSession.GetRaw("sys.stack-depth")
+		LoadEnvFromFile(envSession, sessionPath, sep, delMark)
+		envSession.Set("sys.stack", stack)
+		envSession.Set("sys.stack-depth", depth)
 	}
 	return true
 }
-- 
2.43.0


From 967e863520ec7c7d83742016bd552e4063c1637f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:52 +0000
Subject: [PATCH 71/71] fix: a key deleted in a recursive call should stay
 deleted when other commands follow

---
 pkg/core/model/cmd.go   |  4 +++-
 pkg/core/model/proto.go | 52 +++++++++++++++++++++++++++++++++++++++--
 2 files changed, 53 insertions(+), 3 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 89bbed8..78fb691 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -1061,8 +1061,9 @@ func (self *Cmd) executeFile(argv ArgVals, cc *Cli, env *Env, allowError bool, p
 
 	var sessionDir string
 	var sessionPath string
+	var deletedKeys []string
 	if !self.flags.noSession {
-		sessionDir, sessionPath = saveEnvToSessionFile(cc, env, parsedCmd, false)
+		sessionDir, sessionPath, deletedKeys = saveEnvToSessionFile(cc, env, parsedCmd, false)
 	}
 
 	args = append(args, self.cmdLine)
@@ -1079,6 +1080,7 @@ func (self *Cmd) executeFile(argv ArgVals, cc *Cli, env *Env, allowError bool, p
 	}
 
 	err := cmd.Run()
+	keepDeletedKeysInFile(deletedKeys, sessionPath, sep, delMark)
 	if err != nil && !allowError {
 		err = &RunCmdFileFailed{
 			err.Error(),
diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index e240040..5e2897a 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -143,7 +143,48 @@ func LoadEnvFromFile(env *Env, path string, sep string, delMark string) {
 	}
 }
 
-func saveEnvToSessionFile(cc *Cli, env *Env, parsedCmd ParsedCmd, skipDefault bool) (sessionDir string, sessionPath string) {
+// The keys appeared in the content of an env file, include the deleted ones
+func envFileKeys(data string, sep string) (keys []string) {
+	for _, line := range strings.Split(data, "\n") {
+		if i := strings.Index(line, sep); i > 0 {
+			keys = append(keys, line[0:i])
+		}
+	}
+	return
+}
+
+// The file may belong to an outer ticat process, mark the keys deleted by this process so it could know
+func keepDeletedKeysInFile(deleted []string, path string, sep string, delMark string) {
+	if len(deleted) == 0 {
+		return
+	}
+	data, err := os.ReadFile(path)
+	if err != nil {
+		return
+	}
+	marks := ""
+	if len(data) != 0 && data[len(data)-1] != '\n' {
+		marks = "\n"
+	}
+	existed := map[string]bool{}
+	for _, key := range envFileKeys(string(data), sep) {
+		existed[key] = true
+	}
+	for _, key := range deleted {
+		if !existed[key] {
+			marks += key + sep + delMark + "\n"
+			existed[key] = true
+		}
+	}
+	file, err := os.OpenFile(path, os.O_WRONLY|os.O_APPEND, 0644)
+	if err != nil {
+		return
+	}
+	defer file.Close()
+	file.WriteString(marks)
+}
+
+func saveEnvToSessionFile(cc *Cli, env *Env, parsedCmd ParsedCmd, skipDefault bool) (sessionDir string, sessionPath string, deletedKeys []string) {
 	sep := cc.Cmds.Strs.EnvKeyValSep
 
 	sessionDir = env.GetRaw("session")
@@ -166,6 +207,13 @@ func saveEnvToSessionFile(cc *Cli, env *Env, parsedCmd ParsedCmd, skipDefault bo
 		// The exit hooks belong to the outer run, should not be triggered again by the recursive ticat calls
 		"sys.event.",
 	}
-	saveEnvToFile(env.GetLayer(EnvLayerSession), sessionPath, sep, filtered, skipDefault)
+	origin, _ := os.ReadFile(sessionPath)
+	env = env.GetLayer(EnvLayerSession)
+	saveEnvToFile(env, sessionPath, sep, filtered, skipDefault)
+	for _, key := range envFileKeys(string(origin), sep) {
+		if !env.Has(key) {
+			deletedKeys = append(deletedKeys, key)
+		}
+	}
 	return
 }
-- 
2.43.0

