From 857640efee2b3506a81473bdf3780e9a376d90df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 01/41] fix: release every ready task even when two of them are
 adjacent

After unlinking a ready task the loop moved past the task that took its
place, so that task was only released by a later completion, or never.
---
 internal/dag/dependency.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/dag/dependency.go b/internal/dag/dependency.go
index 00df408..fa57c71 100644
--- a/internal/dag/dependency.go
+++ b/internal/dag/dependency.go
@@ -73,11 +73,13 @@ func (g *DependencyGraph) Next(completed string) []string {
 	}
 	g.pending = head
 
-	for head = g.pending; head != nil && head.next != nil; head = head.next {
+	for head = g.pending; head != nil && head.next != nil; {
 		p := head.next
 		if g.dependencies[p.id].Size() < 1 {
 			ready = append(ready, p.id)
 			head.next = p.next
+		} else {
+			head = p
 		}
 	}
 	return ready
-- 
2.43.0


From 3ed1d3216d806b1f93c6ecdcbc5324c37f56b290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 02/41] fix: do not mistake the initial request for the
 completion of task ""

The first call of Next names no task by passing an empty string. If a task
has the empty string as its name, its dependents were released before it ran.
---
 internal/dag/dependency.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/dag/dependency.go b/internal/dag/dependency.go
index fa57c71..0360b46 100644
--- a/internal/dag/dependency.go
+++ b/internal/dag/dependency.go
@@ -5,6 +5,7 @@ type DependencyGraph struct {
 	dependencies map[string]NodeSet
 	dependents   map[string]NodeSet
 	pending      *pendingTask
+	started      NodeSet
 }
 
 type pendingTask struct {
@@ -22,6 +23,7 @@ func NewDependencyGraph(nodes map[string][]string) (*DependencyGraph, error) {
 	g := &DependencyGraph{
 		dependencies: map[string]NodeSet{},
 		dependents:   map[string]NodeSet{},
+		started:      NodeSet{},
 	}
 	nodeOrder, cycle := TSort(digraph)
 	if cycle != nil {
@@ -62,8 +64,10 @@ func (g *DependencyGraph) HasPending() bool {
 // that can be started given previously completed tasks
 func (g *DependencyGraph) Next(completed string) []string {
 	var ready []string
-	for id := range g.dependents[completed] {
-		g.dependencies[id].Remove(completed)
+	if g.started.Contains(completed) {
+		for id := range g.dependents[completed] {
+			g.dependencies[id].Remove(completed)
+		}
 	}
 
 	head := g.pending
@@ -82,5 +86,9 @@ func (g *DependencyGraph) Next(completed string) []string {
 			head = p
 		}
 	}
+
+	for _, id := range ready {
+		g.started.Add(id)
+	}
 	return ready
 }
-- 
2.43.0


From ac32e5a8ef1c42612ea85525ace43d3130a98173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 03/41] fix: report a cycle through a node named ""

The empty string doubled as "not in the cycle", so the reported cycle was
empty or incomplete when such a node was part of it.
---
 internal/dag/tsort.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/internal/dag/tsort.go b/internal/dag/tsort.go
index faafd19..25027f2 100644
--- a/internal/dag/tsort.go
+++ b/internal/dag/tsort.go
@@ -46,30 +46,27 @@ type visitor struct {
 	sorted   []string
 }
 
-func (v *visitor) visit(n string) (cycleStart string) {
+func (v *visitor) visit(n string) (cycleStart string, inCycle bool) {
 	if _, ok := v.visiting[n]; ok {
 		if v.cycle == nil {
 			v.cycle = make([]string, 0)
 		}
-		return n
+		return n, true
 	} else if _, ok := v.visited[n]; ok {
-		return ""
+		return "", false
 	}
 	v.visiting[n] = struct{}{}
 	for _, m := range v.graph[n] {
-		cycleStart := v.visit(m)
+		cycleStart, inCycle := v.visit(m)
 		if v.cycle != nil {
-			if cycleStart != "" {
-				if n == cycleStart {
-					cycleStart = ""
-				}
+			if inCycle {
 				v.cycle = append(v.cycle, n)
 			}
-			return cycleStart
+			return cycleStart, inCycle && n != cycleStart
 		}
 	}
 	delete(v.visiting, n)
 	v.visited[n] = struct{}{}
 	v.sorted = append(v.sorted, n)
-	return ""
+	return "", false
 }
-- 
2.43.0


From 8bfac8c3d85bf3330c30d6a7d5e458b196cafdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 04/41] fix: report cyclic and dangling dependencies instead of
 ignoring them

The scheduler's error was dropped, so running such a runbook did nothing
and reported success.
---
 internal/runbook/runner.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index fa46adb..aef7c9e 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -63,8 +63,11 @@ func (r *runner) closeDone() {
 func (r *runner) run() error {
 	defer r.closeDone()
 
-	r.startScheduler()
-	err := r.startTargets()
+	err := r.startScheduler()
+	if err != nil {
+		return err
+	}
+	err = r.startTargets()
 	if err != nil {
 		return err
 	}
@@ -90,16 +93,18 @@ func (r *runner) run() error {
 	return err
 }
 
-func (r *runner) startScheduler() {
+func (r *runner) startScheduler() error {
+	s, ready, err := scheduler.New(r.targets, r.tasks)
+	if err != nil {
+		close(r.ready)
+		return err
+	}
+
 	go func(readyChan chan<- *readyMsg, doneChan <-chan TaskID) {
 		defer close(readyChan)
 
 		r.log.Debug("scheduler: started")
-		s, ready, err := scheduler.New(r.targets, r.tasks)
-		for {
-			if err != nil {
-				break
-			}
+		for err == nil {
 			for targetID, taskIDs := range ready {
 				for _, taskID := range taskIDs {
 					r.log.Debugw("scheduler: task ready", "task", taskID, "target", targetID)
@@ -121,6 +126,8 @@ func (r *runner) startScheduler() {
 		}
 		r.log.Debug("scheduler: stopped")
 	}(r.ready, r.done)
+
+	return nil
 }
 
 func (r *runner) startTargets() (err error) {
-- 
2.43.0


From 1a443e7db047b05dd8bcaaedc9d6439b954264a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 05/41] fix: finish running a runbook without tasks

The scheduler waited for a completion that could never come.
---
 internal/runbook/runner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index aef7c9e..a63d3fe 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -104,7 +104,7 @@ func (r *runner) startScheduler() error {
 		defer close(readyChan)
 
 		r.log.Debug("scheduler: started")
-		for err == nil {
+		for err == nil && len(r.tasks) > 0 {
 			for targetID, taskIDs := range ready {
 				for _, taskID := range taskIDs {
 					r.log.Debugw("scheduler: task ready", "task", taskID, "target", targetID)
-- 
2.43.0


From 061ba474c84320d7dfa646b6ebaab740736e4068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 06/41] fix: never let a busy or failed target block the router

With a concurrency above one the scheduler hands a target several tasks.
While the target worked on the first the router could not deliver tasks to
other targets, and if it failed the run never ended.
---
 internal/runbook/runner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index a63d3fe..4636ec7 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -141,7 +141,9 @@ func (r *runner) startTargets() (err error) {
 		}
 
 		wg.Add(1)
-		ch := make(chan *readyMsg)
+		// room for every task the scheduler hands out at once, so that a busy
+		// or failed target can't block the router
+		ch := make(chan *readyMsg, target.ConcurrencyLimit())
 		startTargetGoroutine(r.ctx, r.log, wg, target, ch, r.ended)
 		channels[TargetID(targetID)] = ch
 		r.log.Debugf("target started:  %s", targetID)
-- 
2.43.0


From aeb540aa721919ba3252fa2bb49c3998d5bf4d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 07/41] fix: run no task and stop the started targets if a
 target can't be started

The run returned at once and left the other targets running, some of them
with tasks.
---
 internal/runbook/runner.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index 4636ec7..8cb5ed6 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -69,6 +69,10 @@ func (r *runner) run() error {
 	}
 	err = r.startTargets()
 	if err != nil {
+		r.closeDone()
+		for range r.ended {
+			// wait for the targets that were started to stop
+		}
 		return err
 	}
 
@@ -151,9 +155,13 @@ func (r *runner) startTargets() (err error) {
 
 	// start goroutine, even if there's an error, because it's
 	// responsible for closing channels
+	failed := err != nil
 	go func() {
 		r.log.Debug("router: started")
 		for x := range r.ready {
+			if failed {
+				continue
+			}
 			r.log.Debugw("router: task ready", "task", x.taskID, "target", x.target)
 			ch := channels[x.target]
 			ch <- x
-- 
2.43.0


From d867b5a05dd17e2123223046a7af20c16f011396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:47 +0000
Subject: [PATCH 08/41] fix: don't crash or exhaust memory when a target's
 concurrency is huge

The channels were sized by the sum of the limits, whatever the number of
tasks, which overflows or allocates absurd amounts of memory.
---
 internal/runbook/runner.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/internal/runbook/runner.go b/internal/runbook/runner.go
index 8cb5ed6..426d6d0 100644
--- a/internal/runbook/runner.go
+++ b/internal/runbook/runner.go
@@ -34,25 +34,35 @@ type runner struct {
 }
 
 func newRunner(log sys.Logger, targets types.Targets, tasks types.Tasks) *runner {
-	capacity := 0
-	for _, t := range targets {
-		capacity += t.ConcurrencyLimit()
-	}
-	capacity *= 2
-
-	return &runner{
+	r := &runner{
 		ctx:     context.TODO(),
 		log:     log,
 		targets: targets,
 		tasks:   tasks,
+	}
 
-		// producers are responsible for closing
-		done:  make(chan TaskID, capacity),    // closed by run()
-		ended: make(chan *endedMsg, capacity), // closed by startTargets()
-		ready: make(chan *readyMsg, capacity), // closed by startScheduler()
+	capacity := 0
+	for _, t := range targets {
+		capacity += r.concurrency(t)
 	}
+	capacity *= 2
+
+	// producers are responsible for closing
+	r.done = make(chan TaskID, capacity)     // closed by run()
+	r.ended = make(chan *endedMsg, capacity) // closed by startTargets()
+	r.ready = make(chan *readyMsg, capacity) // closed by startScheduler()
+	return r
 }
 
+// concurrency limits how many tasks a target can be handed at once to
+// no more than there are tasks
+func (r *runner) concurrency(target types.Target) int {
+	n := target.ConcurrencyLimit()
+	if n > len(r.tasks) {
+		n = len(r.tasks)
+	}
+	return n
+}
 func (r *runner) closeDone() {
 	if r.done != nil {
 		close(r.done)
@@ -147,7 +157,7 @@ func (r *runner) startTargets() (err error) {
 		wg.Add(1)
 		// room for every task the scheduler hands out at once, so that a busy
 		// or failed target can't block the router
-		ch := make(chan *readyMsg, target.ConcurrencyLimit())
+		ch := make(chan *readyMsg, r.concurrency(target))
 		startTargetGoroutine(r.ctx, r.log, wg, target, ch, r.ended)
 		channels[TargetID(targetID)] = ch
 		r.log.Debugf("target started:  %s", targetID)
-- 
2.43.0


From 2452c8e73d4687c1a8fff7cf316f7be4ba21b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 09/41] fix: stop connecting after the first successful attempt

With retries configured every attempt was made even after a success, and all
but the last of the connections were leaked.
---
 internal/pg/pg.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index f42475f..e938ab3 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -62,13 +62,14 @@ func New(o *Options) (*Conn, error) {
 	var conn *pgx.Conn
 	for retries := 0; retries <= o.ConnectRetries; retries++ {
 		conn, err = pgx.Connect(cfg)
-		if err != nil {
-			if retries < o.ConnectRetries {
-				time.Sleep(delay)
-				delay = time.Duration(2^retries) * 100 * time.Millisecond
-			} else {
-				return nil, err
-			}
+		if err == nil {
+			break
+		}
+		if retries < o.ConnectRetries {
+			time.Sleep(delay)
+			delay = time.Duration(2^retries) * 100 * time.Millisecond
+		} else {
+			return nil, err
 		}
 	}
 
-- 
2.43.0


From a231e60f5c6f645f57d66df0a722b2e7a308f67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 10/41] fix: refuse null target and task definitions instead of
 crashing

---
 internal/runbook/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/runbook/parser/parser.go b/internal/runbook/parser/parser.go
index 0478b30..458eedc 100644
--- a/internal/runbook/parser/parser.go
+++ b/internal/runbook/parser/parser.go
@@ -82,6 +82,9 @@ func (p *Parser) Parse(filename string) (*types.Runbook, error) {
 
 func (p *Parser) loadTargets(tmp *runbook, book *types.Runbook) error {
 	for targetID, wrapper := range tmp.Targets {
+		if wrapper == nil {
+			return errors.New("missing target definition")
+		}
 		factory, ok := p.Targets[wrapper.Class]
 		if !ok {
 			return errors.New("invalid target class")
@@ -107,6 +110,9 @@ func (p *Parser) loadTargets(tmp *runbook, book *types.Runbook) error {
 
 func (p *Parser) loadTasks(tmp *runbook, book *types.Runbook) error {
 	for taskID, task := range tmp.Tasks {
+		if task == nil {
+			return errors.New("missing task definition")
+		}
 		targetID := task.Target
 		taskClass := ""
 		if idx := strings.Index(task.Target, "/"); idx != -1 {
-- 
2.43.0


From 21ddbc599e485039f8a46e26c2546c68044f832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 11/41] fix: quote names and report errors in dot output

---
 internal/runbook/runbook.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index 41d2c94..b4754a0 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"io"
 	"path/filepath"
+	"strings"
 
 	dot "github.com/awalterschulze/gographviz"
 	"github.com/hokaccha/go-prettyjson"
@@ -56,7 +57,7 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 		return err
 	}
 
-	g := dot.NewEscape()
+	g := dot.NewGraph()
 	g.SetDir(true)
 	g.SetName("runbook")
 	g.AddAttr("runbook", "newrank", "true")
@@ -65,21 +66,38 @@ func Dot(sys *sys.IO, filename string, w io.Writer, splines string) error {
 	}
 
 	for targetID := range runbook.Targets {
-		graphID := "cluster_" + targetID
+		graphID := clusterID(targetID)
 		g.AddSubGraph("runbook", graphID, nil)
-		g.AddAttr(graphID, "label", targetID)
+		g.AddAttr(graphID, "label", quoteDot(targetID))
 	}
 
 	for dstID, task := range runbook.Tasks {
-		graphID := "cluster_" + task.Target
-		g.AddNode(graphID, dstID, nil)
+		graphID := clusterID(task.Target)
+		g.AddNode(graphID, quoteDot(dstID), nil)
 		for _, srcID := range task.After {
-			g.AddEdge(srcID, dstID, true, nil)
+			g.AddEdge(quoteDot(srcID), quoteDot(dstID), true, nil)
 		}
 	}
 
-	w.Write([]byte(g.String()))
-	return nil
+	tree, err := g.WriteAst()
+	if err != nil {
+		return err
+	}
+	_, err = io.WriteString(w, tree.String())
+	return err
+}
+
+var dotReplacer = strings.NewReplacer(`\`, `\\`, `"`, `\"`, `&`, `&amp;`)
+
+// quoteDot converts any text to a DOT string which is displayed as that text
+func quoteDot(s string) string {
+	return `"` + dotReplacer.Replace(s) + `"`
+}
+
+// clusterID names the subgraph of a target. It is written as a concatenation
+// because gographviz doesn't distinguish a subgraph from a node with the same ID.
+func clusterID(targetID string) string {
+	return `"cluster_" + ` + quoteDot(targetID)
 }
 
 // Eval converts a runbook to JSON and pretty prints it
-- 
2.43.0


From c2a3e35a3add5d05fa06b618b56b696c2096c2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:09 +0000
Subject: [PATCH 12/41] fix: escape keys in the output of runbook eval

---
 internal/runbook/runbook.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index b4754a0..8997b0d 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -1,6 +1,7 @@
 package runbook
 
 import (
+	"bytes"
 	"encoding/json"
 	"io"
 	"path/filepath"
@@ -120,7 +121,7 @@ func Eval(sys *sys.IO, filename string, w io.Writer, color bool) error {
 
 	formatter := prettyjson.NewFormatter()
 	formatter.DisabledColor = !color
-	formatted, err := formatter.Marshal(unformatted)
+	formatted, err := formatter.Marshal(escapeKeys(unformatted))
 	if err != nil {
 		return err
 	}
@@ -129,6 +130,29 @@ func Eval(sys *sys.IO, filename string, w io.Writer, color bool) error {
 	return err
 }
 
+// escapeKeys works around prettyjson, which escapes strings but prints the
+// keys of objects as they are
+func escapeKeys(v interface{}) interface{} {
+	switch x := v.(type) {
+	case []interface{}:
+		for i := range x {
+			x[i] = escapeKeys(x[i])
+		}
+	case map[string]interface{}:
+		escaped := make(map[string]interface{}, len(x))
+		for key, val := range x {
+			buf := &bytes.Buffer{}
+			enc := json.NewEncoder(buf)
+			enc.SetEscapeHTML(false)
+			_ = enc.Encode(key) // strings can always be encoded
+			quoted := strings.TrimSpace(buf.String())
+			escaped[quoted[1:len(quoted)-1]] = escapeKeys(val)
+		}
+		return escaped
+	}
+	return v
+}
+
 // List enumerates a runbook's tasks and their targets
 func List(sys *sys.IO, filename string) (map[TaskID]TargetID, error) {
 	p, err := newParser(sys, filepath.Dir(filename))
-- 
2.43.0


From 3515c1a71a55351a00f45a7e8140a1e2cb28ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 13/41] fix: close the results of a queue that is closed while
 no task is running

The shutdown loop only looked at the number of running tasks after a result,
so without one the results were never closed and the goroutine was leaked.
---
 internal/taskset/base/base.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index 406910e..a1377d7 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -53,14 +53,10 @@ func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan ty
 			}
 		}
 	shutdown:
-		for result := range relay {
-			results <- result
-			running--
-			if running < 1 {
-				close(relay)
-				close(results)
-			}
+		for ; running > 0; running-- {
+			results <- <-relay
 		}
+		close(results)
 	}(queue, results)
 
 	return queue, results
-- 
2.43.0


From 5d438f162c142899fb23629cd049b0b0e12cf59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 14/41] fix: don't crash when a target's max_concurrency is
 negative or huge

---
 internal/taskset/base/base.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index a1377d7..334236b 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -25,11 +25,21 @@ func (t *Task) Provides() []string {
 	return t.Provide
 }
 
+// maxBuffer is the most batches or results buffered for a target
+const maxBuffer = 1024
+
 type RunTask func(types.TaskID, types.Task, chan<- types.TaskResults)
 
 func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan types.TaskResults) {
-	queue := make(chan types.TaskBatch, maxConcurrency)
-	results := make(chan types.TaskResults, maxConcurrency)
+	buffer := maxConcurrency
+	switch {
+	case buffer < 0:
+		buffer = 0
+	case buffer > maxBuffer:
+		buffer = maxBuffer
+	}
+	queue := make(chan types.TaskBatch, buffer)
+	results := make(chan types.TaskResults, buffer)
 
 	go func(queue <-chan types.TaskBatch, results chan<- types.TaskResults) {
 		relay := make(chan types.TaskResults)
-- 
2.43.0


From 83c7edd7d9031d4c8f837b851a874280485d133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:04 +0000
Subject: [PATCH 15/41] fix: keep the dependencies of task set tasks

The parser decoded after, provides and requires but dropped them, so every
task's Dependencies() and Provides() were empty.
---
 internal/taskset/base/base.go     | 8 ++++++++
 internal/taskset/parser/parser.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index 334236b..3dc0c41 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -13,6 +13,14 @@ type Task struct {
 	Require []string `hcl:"require,optional"`
 }
 
+// SetDependencies is called by the parser because gohcl
+// doesn't decode into embedded structs
+func (t *Task) SetDependencies(after, provide, require []string) {
+	t.After = after
+	t.Provide = provide
+	t.Require = require
+}
+
 func (t *Task) Dependencies() []string {
 	deps := make([]string, 0, len(t.After)+len(t.Require))
 	for _, id := range t.After {
diff --git a/internal/taskset/parser/parser.go b/internal/taskset/parser/parser.go
index 593b6b2..840c3d3 100644
--- a/internal/taskset/parser/parser.go
+++ b/internal/taskset/parser/parser.go
@@ -36,6 +36,10 @@ type task struct {
 }
 
 // Parser registers available targets and tasks
+type dependent interface {
+	SetDependencies(after, provide, require []string)
+}
+
 type Parser struct {
 	Targets map[string]types.TargetFactory
 }
@@ -129,6 +133,10 @@ func (p *Parser) loadTasks(raw *taskSet, ts *types.TaskSet) error {
 			return diag
 		}
 
+		if x, ok := task.(dependent); ok {
+			x.SetDependencies(t.After, t.Provide, t.Require)
+		}
+
 		ts.Tasks[types.TaskID(t.ID)] = task
 	}
 	return nil
-- 
2.43.0


From a5b7971c33c167f1efba0bd6b0dc40f4497ea0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:04 +0000
Subject: [PATCH 16/41] fix: allow the seconds of a task set's sleep task to be
 given

---
 internal/taskset/demo/sleep.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/taskset/demo/sleep.go b/internal/taskset/demo/sleep.go
index 46d4db1..4597fdb 100644
--- a/internal/taskset/demo/sleep.go
+++ b/internal/taskset/demo/sleep.go
@@ -11,7 +11,7 @@ var _ execer = &Sleep{}
 // Sleep pauses the current target for Seconds seconds when executed
 type Sleep struct {
 	base.Task
-	Seconds int
+	Seconds int `hcl:"seconds,optional"`
 }
 
 // Ready validates the task's settings
-- 
2.43.0


From 39d072152e999bd8d8b21f61440712a81cfd9499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:21 +0000
Subject: [PATCH 17/41] fix: report the position of a mistake in a definition

The error was built from the parser's state number instead of its position,
and a mistake at the end of a line was shown on the next one.
---
 internal/ddl/check_parser.go       | 2 +-
 internal/ddl/check_parser.rl       | 2 +-
 internal/ddl/foreign_key_parser.go | 2 +-
 internal/ddl/foreign_key_parser.rl | 2 +-
 internal/ddl/index_parser.go       | 2 +-
 internal/ddl/index_parser.rl       | 2 +-
 internal/ddl/parser_utils.go       | 2 +-
 internal/ddl/trigger_parser.go     | 2 +-
 internal/ddl/trigger_parser.rl     | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/ddl/check_parser.go b/internal/ddl/check_parser.go
index 83d0ae7..6805e32 100644
--- a/internal/ddl/check_parser.go
+++ b/internal/ddl/check_parser.go
@@ -1114,7 +1114,7 @@ tr39:
 
 	if cs < check_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/check_parser.rl b/internal/ddl/check_parser.rl
index 44f37ba..d6d475c 100644
--- a/internal/ddl/check_parser.rl
+++ b/internal/ddl/check_parser.rl
@@ -46,7 +46,7 @@ func ParseCheck(data string) (*Check, error) {
 
 	if cs < check_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/foreign_key_parser.go b/internal/ddl/foreign_key_parser.go
index 1b19665..b974cfa 100644
--- a/internal/ddl/foreign_key_parser.go
+++ b/internal/ddl/foreign_key_parser.go
@@ -3975,7 +3975,7 @@ tr193:
 
 	if cs < foreign_key_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/foreign_key_parser.rl b/internal/ddl/foreign_key_parser.rl
index 17a6cfe..cc88f1c 100644
--- a/internal/ddl/foreign_key_parser.rl
+++ b/internal/ddl/foreign_key_parser.rl
@@ -83,7 +83,7 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 
 	if cs < foreign_key_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/index_parser.go b/internal/ddl/index_parser.go
index 3b6e1bc..4514246 100644
--- a/internal/ddl/index_parser.go
+++ b/internal/ddl/index_parser.go
@@ -1269,7 +1269,7 @@ tr64:
 
 	if cs < index_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/index_parser.rl b/internal/ddl/index_parser.rl
index d6d98c5..f853b34 100644
--- a/internal/ddl/index_parser.rl
+++ b/internal/ddl/index_parser.rl
@@ -84,7 +84,7 @@ func ParseIndex(data string) (*Index, error) {
 
 	if cs < index_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index 51cfee7..ed1766c 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -39,7 +39,7 @@ OUTER:
 		switch {
 		case idx == -1:
 			break OUTER
-		case idx > cs:
+		case idx >= cs:
 			data = data[:idx]
 			break OUTER
 		default:
diff --git a/internal/ddl/trigger_parser.go b/internal/ddl/trigger_parser.go
index 8b8cc35..d24e58a 100644
--- a/internal/ddl/trigger_parser.go
+++ b/internal/ddl/trigger_parser.go
@@ -3378,7 +3378,7 @@ tr195:
 
 	if cs < trigger_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
diff --git a/internal/ddl/trigger_parser.rl b/internal/ddl/trigger_parser.rl
index 0922ff0..b914b35 100644
--- a/internal/ddl/trigger_parser.rl
+++ b/internal/ddl/trigger_parser.rl
@@ -91,7 +91,7 @@ func ParseTrigger(data string) (*Trigger, error) {
 
 	if cs < trigger_first_final {
 		return nil, &parseError{
-		    cs: cs,
+		    cs: p,
 		    data: data,
 		}
 	}
-- 
2.43.0


From 44e06ed4081b14f07251d1f7fd9b1f8926744a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:21 +0000
Subject: [PATCH 18/41] fix: ignore deferrability clauses inside check
 expressions

Text such as ') DEFERRABLE INITIALLY DEFERRED' within a literal of the
expression was taken for the clause of the constraint.
---
 internal/ddl/check_parser.go | 4 ++++
 internal/ddl/check_parser.rl | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/internal/ddl/check_parser.go b/internal/ddl/check_parser.go
index 6805e32..cc7fc5e 100644
--- a/internal/ddl/check_parser.go
+++ b/internal/ddl/check_parser.go
@@ -274,12 +274,16 @@ tr9:
 //line check_parser.rl:22
 
 		mark2 = p
+		check.Deferrable = false
+		check.InitiallyDeferred = false
 	
 	goto st56
 tr11:
 //line check_parser.rl:22
 
 		mark2 = p
+		check.Deferrable = false
+		check.InitiallyDeferred = false
 	
 	goto st56
 	st56:
diff --git a/internal/ddl/check_parser.rl b/internal/ddl/check_parser.rl
index d6d475c..29cce15 100644
--- a/internal/ddl/check_parser.rl
+++ b/internal/ddl/check_parser.rl
@@ -21,6 +21,8 @@ func ParseCheck(data string) (*Check, error) {
 	}
 	action setMark2 {
 		mark2 = fpc
+		check.Deferrable = false
+		check.InitiallyDeferred = false
 	}
 
 	action matchDeferrable        { check.Deferrable = true }
-- 
2.43.0


From de7f049d02e77b07dbf46de89053d196ed42c477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:22 +0000
Subject: [PATCH 19/41] fix: accept DEFERRABLE at the end of a constraint
 definition

PostgreSQL prints no white space after the last word of a definition, so
any constraint that is deferrable but initially immediate was refused.
---
 internal/ddl/check_parser.go       | 6 ++++--
 internal/ddl/check_parser.rl       | 6 ++++--
 internal/ddl/foreign_key_parser.go | 6 ++++--
 internal/ddl/foreign_key_parser.rl | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/internal/ddl/check_parser.go b/internal/ddl/check_parser.go
index cc7fc5e..879be8c 100644
--- a/internal/ddl/check_parser.go
+++ b/internal/ddl/check_parser.go
@@ -16,11 +16,13 @@ const check_en_main int = 1
 //line check_parser.rl:8
 
 
-func ParseCheck(data string) (*Check, error) {
+func ParseCheck(stmt string) (*Check, error) {
 	check := &Check{}
 
 	var mark1, mark2 int
 
+	// white space is what ends DEFERRABLE
+	data := stmt + "\n"
 	cs, eof := 0, len(data);
 	p, pe := 0, eof;
 	
@@ -1119,7 +1121,7 @@ tr39:
 	if cs < check_first_final {
 		return nil, &parseError{
 		    cs: p,
-		    data: data,
+		    data: stmt,
 		}
 	}
 
diff --git a/internal/ddl/check_parser.rl b/internal/ddl/check_parser.rl
index 29cce15..5ad2253 100644
--- a/internal/ddl/check_parser.rl
+++ b/internal/ddl/check_parser.rl
@@ -7,11 +7,13 @@ package ddl
 	write data;
 }%%
 
-func ParseCheck(data string) (*Check, error) {
+func ParseCheck(stmt string) (*Check, error) {
 	check := &Check{}
 
 	var mark1, mark2 int
 
+	// white space is what ends DEFERRABLE
+	data := stmt + "\n"
 	cs, eof := 0, len(data);
 	p, pe := 0, eof;
 	%%{
@@ -49,7 +51,7 @@ func ParseCheck(data string) (*Check, error) {
 	if cs < check_first_final {
 		return nil, &parseError{
 		    cs: p,
-		    data: data,
+		    data: stmt,
 		}
 	}
 
diff --git a/internal/ddl/foreign_key_parser.go b/internal/ddl/foreign_key_parser.go
index b974cfa..b727f31 100644
--- a/internal/ddl/foreign_key_parser.go
+++ b/internal/ddl/foreign_key_parser.go
@@ -20,10 +20,12 @@ const foreign_key_en_main int = 1
 //line foreign_key_parser.rl:12
 
 
-func ParseForeignKey(data string) (*ForeignKey, error) {
+func ParseForeignKey(stmt string) (*ForeignKey, error) {
 	fk := &ForeignKey{}
 
 	buffer := &bytes.Buffer{}
+	// white space is what ends DEFERRABLE
+	data := stmt + "\n"
 	cs, eof := 0, len(data);
 	p, pe := 0, eof;
 	
@@ -3976,7 +3978,7 @@ tr193:
 	if cs < foreign_key_first_final {
 		return nil, &parseError{
 		    cs: p,
-		    data: data,
+		    data: stmt,
 		}
 	}
 
diff --git a/internal/ddl/foreign_key_parser.rl b/internal/ddl/foreign_key_parser.rl
index cc88f1c..b7348a4 100644
--- a/internal/ddl/foreign_key_parser.rl
+++ b/internal/ddl/foreign_key_parser.rl
@@ -11,10 +11,12 @@ import (
 	write data;
 }%%
 
-func ParseForeignKey(data string) (*ForeignKey, error) {
+func ParseForeignKey(stmt string) (*ForeignKey, error) {
 	fk := &ForeignKey{}
 
 	buffer := &bytes.Buffer{}
+	// white space is what ends DEFERRABLE
+	data := stmt + "\n"
 	cs, eof := 0, len(data);
 	p, pe := 0, eof;
 	%%{
@@ -84,7 +86,7 @@ func ParseForeignKey(data string) (*ForeignKey, error) {
 	if cs < foreign_key_first_final {
 		return nil, &parseError{
 		    cs: p,
-		    data: data,
+		    data: stmt,
 		}
 	}
 
-- 
2.43.0


From 6f9346001d994641a33218b82609e4196869ca46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:43 +0000
Subject: [PATCH 20/41] fix: recognize descending index keys

DESC was recorded as the operator class of the key.
---
 internal/ddl/index.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ddl/index.go b/internal/ddl/index.go
index 0d6c2da..0f9a34a 100644
--- a/internal/ddl/index.go
+++ b/internal/ddl/index.go
@@ -40,7 +40,14 @@ func (idx *Index) setName(name string) {
 
 func (idx *Index) setOpClass(opclass string) {
 	key := idx.Keys[len(idx.Keys)-1]
-	key.OpClass = opclass
+	switch upper(opclass) {
+	case "ASC":
+		// the default
+	case "DESC":
+		key.Descending = true
+	default:
+		key.OpClass = opclass
+	}
 }
 
 func (idx *Index) setTable(table string) {
-- 
2.43.0


From 1020a95b533dec626d85c0010c625bf86ac91396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:44 +0000
Subject: [PATCH 21/41] fix: keep white space inside quoted text of index
 predicates

---
 internal/ddl/index.go        |  2 +-
 internal/ddl/parser_utils.go | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/ddl/index.go b/internal/ddl/index.go
index 0f9a34a..68cff92 100644
--- a/internal/ddl/index.go
+++ b/internal/ddl/index.go
@@ -59,7 +59,7 @@ func (idx *Index) setUsing(s string) {
 }
 
 func (idx *Index) setWhere(s string) {
-	idx.Where = collapseWhitespace(trim(s))
+	idx.Where = collapseUnquoted(trim(s))
 }
 
 func (idx *Index) ToSQL() (string, error) {
diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index ed1766c..edfe842 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -13,6 +13,18 @@ func collapseWhitespace(before string) string {
 	return after
 }
 
+var quotedOrWhitespace = regexp.MustCompile(`'(?:[^']|'')*'|"(?:[^"]|"")*"|\s+`)
+
+// collapseUnquoted leaves quoted text alone
+func collapseUnquoted(before string) string {
+	return quotedOrWhitespace.ReplaceAllStringFunc(before, func(s string) string {
+		if s[0] == '\'' || s[0] == '"' {
+			return s
+		}
+		return " "
+	})
+}
+
 func trim(s string) string {
 	return strings.TrimSpace(s)
 }
-- 
2.43.0


From e626769399caf5183049b09a639821541302bccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:17 +0000
Subject: [PATCH 22/41] fix: name every event in generated trigger statements

Only UPDATE was written, and without its columns.
---
 internal/ddl/trigger.go | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/internal/ddl/trigger.go b/internal/ddl/trigger.go
index 7a8d4c1..10598b8 100644
--- a/internal/ddl/trigger.go
+++ b/internal/ddl/trigger.go
@@ -45,15 +45,40 @@ func (t *Trigger) setWhen(s string) {
 	)
 }
 
+func (t *Trigger) events() []string {
+	var events []string
+	if t.Insert {
+		events = append(events, "INSERT")
+	}
+	if t.Update {
+		update := "UPDATE"
+		for i, col := range t.Columns {
+			if i < 1 {
+				update += " OF "
+			} else {
+				update += ", "
+			}
+			update += quoteName(col)
+		}
+		events = append(events, update)
+	}
+	if t.Delete {
+		events = append(events, "DELETE")
+	}
+	if t.Truncate {
+		events = append(events, "TRUNCATE")
+	}
+	return events
+}
+
 func (t *Trigger) ToSQL() (string, error) {
 	var sb strings.Builder
 	sb.WriteString("CREATE TRIGGER ")
 	sb.WriteString(quoteName(t.Name))
 	sb.WriteString("\n  ")
 	sb.WriteString(t.When)
-	if t.Update {
-		sb.WriteString(" UPDATE")
-	}
+	sb.WriteString(" ")
+	sb.WriteString(strings.Join(t.events(), " OR "))
 	sb.WriteString(" ON ")
 	sb.WriteString(quoteName(t.Table))
 	if t.ForEachRow {
-- 
2.43.0


From 17e09b3c92f3dd228642f0ec0dddb0bc6636ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:18 +0000
Subject: [PATCH 23/41] fix: keep constraint triggers and their deferrability
 in generated statements

---
 internal/ddl/trigger.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/ddl/trigger.go b/internal/ddl/trigger.go
index 10598b8..b60f0b0 100644
--- a/internal/ddl/trigger.go
+++ b/internal/ddl/trigger.go
@@ -73,7 +73,11 @@ func (t *Trigger) events() []string {
 
 func (t *Trigger) ToSQL() (string, error) {
 	var sb strings.Builder
-	sb.WriteString("CREATE TRIGGER ")
+	sb.WriteString("CREATE ")
+	if t.Constraint {
+		sb.WriteString("CONSTRAINT ")
+	}
+	sb.WriteString("TRIGGER ")
 	sb.WriteString(quoteName(t.Name))
 	sb.WriteString("\n  ")
 	sb.WriteString(t.When)
@@ -81,6 +85,12 @@ func (t *Trigger) ToSQL() (string, error) {
 	sb.WriteString(strings.Join(t.events(), " OR "))
 	sb.WriteString(" ON ")
 	sb.WriteString(quoteName(t.Table))
+	if t.Deferrable {
+		sb.WriteString("\n  DEFERRABLE")
+	}
+	if t.InitiallyDeferred {
+		sb.WriteString("\n  INITIALLY DEFERRED")
+	}
 	if t.ForEachRow {
 		sb.WriteString("\n  FOR EACH ROW")
 	}
-- 
2.43.0


From fa06804b29b8197297f05d503a8e1c7f22a2e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 24/41] fix: start no table definition with a comma

A table with checks but without columns gave invalid SQL.
---
 internal/ddl/table.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/ddl/table.go b/internal/ddl/table.go
index 3c0aef3..4fecfa9 100644
--- a/internal/ddl/table.go
+++ b/internal/ddl/table.go
@@ -48,8 +48,13 @@ func (t *Table) ToSQL() (string, error) {
 		}
 		sb.WriteString("\n")
 	}
-	for _, check := range t.Checks {
-		sb.WriteString(", CHECK(")
+	for i, check := range t.Checks {
+		if i < 1 && len(t.Columns) < 1 {
+			sb.WriteString("  ")
+		} else {
+			sb.WriteString(", ")
+		}
+		sb.WriteString("CHECK(")
 		sb.WriteString(check.Expression)
 		sb.WriteString(")\n")
 	}
-- 
2.43.0


From 3d8b43f68288c5026108dcb0c942a833cde8f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:19 +0000
Subject: [PATCH 25/41] fix: quote function bodies that contain dollar signs

A body with $$ in it or a dollar sign at its end gave invalid SQL.
---
 internal/ddl/function.go |  8 ++++++--
 internal/ddl/util.go     | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/internal/ddl/function.go b/internal/ddl/function.go
index b609e3f..4397d0c 100644
--- a/internal/ddl/function.go
+++ b/internal/ddl/function.go
@@ -21,9 +21,13 @@ func (f *Function) ToSQL() (string, error) {
 	sb.WriteString("()\n")
 	sb.WriteString("RETURNS ")
 	sb.WriteString(f.Returns)
-	sb.WriteString(" AS $$\n")
+	quote := dollarQuote(f.Definition)
+	sb.WriteString(" AS ")
+	sb.WriteString(quote)
+	sb.WriteString("\n")
 	sb.WriteString(f.Definition)
-	sb.WriteString("$$ LANGUAGE '")
+	sb.WriteString(quote)
+	sb.WriteString(" LANGUAGE '")
 	sb.WriteString(f.Language)
 	sb.WriteString("'\n;\n")
 	return sb.String(), nil
diff --git a/internal/ddl/util.go b/internal/ddl/util.go
index 0fe6ee6..34ad1c8 100644
--- a/internal/ddl/util.go
+++ b/internal/ddl/util.go
@@ -1,6 +1,18 @@
 package ddl
 
-import "strings"
+import (
+	"strconv"
+	"strings"
+)
+
+// dollarQuote returns a delimiter that ends s and does not occur earlier
+func dollarQuote(s string) string {
+	quote := "$$"
+	for i := 1; strings.Index(s+quote, quote) < len(s); i++ {
+		quote = "$body" + strconv.Itoa(i) + "$"
+	}
+	return quote
+}
 
 func quoteName(s string) string {
 	return `"` + strings.Replace(s, `"`, `""`, -1) + `"`
-- 
2.43.0


From baee5ce6846508f55931c8e0455da5662e490954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 26/41] fix: leave storage parameters alone when a value is
 refused

A refused value was recorded as zero.
---
 internal/ddl/table_storage_parameters.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/ddl/table_storage_parameters.go b/internal/ddl/table_storage_parameters.go
index b3c9bc9..d335d46 100644
--- a/internal/ddl/table_storage_parameters.go
+++ b/internal/ddl/table_storage_parameters.go
@@ -22,8 +22,18 @@ type TableStorageParameters struct {
 	UserCatalogTable                  *bool    `hcl:"user_catalog_table,optional"`
 }
 
-//nolint:gocyclo
+// Set records a parameter, unless its value is refused
 func (p *TableStorageParameters) Set(key, value string) error {
+	before := *p
+	err := p.set(key, value)
+	if err != nil {
+		*p = before
+	}
+	return err
+}
+
+//nolint:gocyclo
+func (p *TableStorageParameters) set(key, value string) error {
 	switch key {
 	case "fillfactor":
 		tmp, err := strconv.Atoi(value)
-- 
2.43.0


From b4add9c0cb66853b1474158d06592d73e2532e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:21 +0000
Subject: [PATCH 27/41] fix: accept the boolean storage parameters PostgreSQL
 stores

on, off, yes and no were refused, which made inspection fail.
---
 internal/ddl/table_storage_parameters.go | 25 +++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/internal/ddl/table_storage_parameters.go b/internal/ddl/table_storage_parameters.go
index d335d46..4e67f57 100644
--- a/internal/ddl/table_storage_parameters.go
+++ b/internal/ddl/table_storage_parameters.go
@@ -1,6 +1,9 @@
 package ddl
 
-import "strconv"
+import (
+	"strconv"
+	"strings"
+)
 
 // TableStorageParameters influence how table data is stored and maintained
 type TableStorageParameters struct {
@@ -44,7 +47,7 @@ func (p *TableStorageParameters) set(key, value string) error {
 		p.ParallelWorkers = &tmp
 		return err
 	case "autovacuum_enabled":
-		tmp, err := strconv.ParseBool(value)
+		tmp, err := parseBool(value)
 		p.AutovacuumEnabled = &tmp
 		return err
 	case "autovacuum_vacuum_threshold":
@@ -96,9 +99,25 @@ func (p *TableStorageParameters) set(key, value string) error {
 		p.LogAutovacuumMinDuration = &tmp
 		return err
 	case "user_catalog_table":
-		tmp, err := strconv.ParseBool(value)
+		tmp, err := parseBool(value)
 		p.UserCatalogTable = &tmp
 		return err
 	}
 	return nil
 }
+
+// parseBool accepts what PostgreSQL accepts: the words below, 1 and 0, and
+// unambiguous beginnings of the words, in any case.
+func parseBool(value string) (bool, error) {
+	v := strings.ToLower(value)
+	prefixOf := func(word string, n int) bool {
+		return len(v) >= n && strings.HasPrefix(word, v)
+	}
+	switch {
+	case v == "1", prefixOf("true", 1), prefixOf("yes", 1), prefixOf("on", 2):
+		return true, nil
+	case v == "0", prefixOf("false", 1), prefixOf("no", 1), prefixOf("off", 2):
+		return false, nil
+	}
+	return strconv.ParseBool(value)
+}
-- 
2.43.0


From 73678db06a51905ef696aa6f9ce6fca8e71b26f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:16 +0000
Subject: [PATCH 28/41] fix: quote function names that need it

---
 internal/ddl/function.go | 6 +++++-
 internal/ddl/util.go     | 4 ++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/ddl/function.go b/internal/ddl/function.go
index 4397d0c..90f99c1 100644
--- a/internal/ddl/function.go
+++ b/internal/ddl/function.go
@@ -17,7 +17,11 @@ type Function struct {
 func (f *Function) ToSQL() (string, error) {
 	var sb strings.Builder
 	sb.WriteString("CREATE OR REPLACE FUNCTION ")
-	sb.WriteString(f.Name)
+	if plainName.MatchString(f.Name) {
+		sb.WriteString(f.Name)
+	} else {
+		sb.WriteString(quoteName(f.Name))
+	}
 	sb.WriteString("()\n")
 	sb.WriteString("RETURNS ")
 	sb.WriteString(f.Returns)
diff --git a/internal/ddl/util.go b/internal/ddl/util.go
index 34ad1c8..a9d02aa 100644
--- a/internal/ddl/util.go
+++ b/internal/ddl/util.go
@@ -1,10 +1,14 @@
 package ddl
 
 import (
+	"regexp"
 	"strconv"
 	"strings"
 )
 
+// plainName matches names that mean the same without quotes
+var plainName = regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)
+
 // dollarQuote returns a delimiter that ends s and does not occur earlier
 func dollarQuote(s string) string {
 	quote := "$$"
-- 
2.43.0


From 557967b474aba85b076f6088908b5af74bb82431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:53 +0000
Subject: [PATCH 29/41] fix: treat vertical tabs as white space when collapsing
 it

---
 internal/ddl/parser_utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ddl/parser_utils.go b/internal/ddl/parser_utils.go
index edfe842..6ed2719 100644
--- a/internal/ddl/parser_utils.go
+++ b/internal/ddl/parser_utils.go
@@ -6,14 +6,14 @@ import (
 	"strings"
 )
 
-var whitespace = regexp.MustCompile(`\s+`)
+var whitespace = regexp.MustCompile(`[\s\v]+`)
 
 func collapseWhitespace(before string) string {
 	after := whitespace.ReplaceAllString(before, " ")
 	return after
 }
 
-var quotedOrWhitespace = regexp.MustCompile(`'(?:[^']|'')*'|"(?:[^"]|"")*"|\s+`)
+var quotedOrWhitespace = regexp.MustCompile(`'(?:[^']|'')*'|"(?:[^"]|"")*"|[\s\v]+`)
 
 // collapseUnquoted leaves quoted text alone
 func collapseUnquoted(before string) string {
-- 
2.43.0


From a8971711945c3dc11639a06e0386760611dd5c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:45 +0000
Subject: [PATCH 30/41] fix: report errors that end a result early

A connection that broke or a server error while rows were read gave a
truncated description instead of an error.
---
 internal/pg/check.go                    | 3 +++
 internal/pg/columns.go                  | 3 +++
 internal/pg/foreign_key.go              | 3 +++
 internal/pg/functions.go                | 3 +++
 internal/pg/index.go                    | 3 +++
 internal/pg/schemas.go                  | 3 +++
 internal/pg/sequence.go                 | 6 ++++++
 internal/pg/table_storage_parameters.go | 3 +++
 internal/pg/tables.go                   | 3 +++
 internal/pg/triggers.go                 | 3 +++
 10 files changed, 33 insertions(+)

diff --git a/internal/pg/check.go b/internal/pg/check.go
index d5fd7d1..ed3d7e7 100644
--- a/internal/pg/check.go
+++ b/internal/pg/check.go
@@ -46,6 +46,9 @@ func (c *Conn) ListChecks(schema, table string) ([]*ddl.Check, error) {
 		check.Name = name
 		checks = append(checks, check)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/columns.go b/internal/pg/columns.go
index 81e3ada..bb3f0a2 100644
--- a/internal/pg/columns.go
+++ b/internal/pg/columns.go
@@ -52,6 +52,9 @@ func (c *Conn) ListColumns(schema, table string) ([]*ddl.Column, error) {
 		c.log.Debugw("row scanned", "column", col.Name, "type", col.Type)
 		columns = append(columns, col)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/foreign_key.go b/internal/pg/foreign_key.go
index 03f76d8..d232ff7 100644
--- a/internal/pg/foreign_key.go
+++ b/internal/pg/foreign_key.go
@@ -48,6 +48,9 @@ func (c *Conn) ListForeignKeys(schema, table string) ([]*ddl.ForeignKey, error)
 		fk.Name = name
 		fks = append(fks, fk)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/functions.go b/internal/pg/functions.go
index c452dcc..4d955a7 100644
--- a/internal/pg/functions.go
+++ b/internal/pg/functions.go
@@ -109,6 +109,9 @@ func (c *Conn) ListFunctions() ([]*ddl.Function, error) {
 		c.log.Debugw("scanned", "function", function)
 		functions = append(functions, function)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/index.go b/internal/pg/index.go
index 18752e0..d913353 100644
--- a/internal/pg/index.go
+++ b/internal/pg/index.go
@@ -53,6 +53,9 @@ func (c *Conn) ListIndexes(schema, table string) ([]*ddl.Index, error) {
 		index.Primary = isPrimary
 		indexes = append(indexes, index)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/schemas.go b/internal/pg/schemas.go
index 7e6a3b0..9d0f9ae 100644
--- a/internal/pg/schemas.go
+++ b/internal/pg/schemas.go
@@ -41,6 +41,9 @@ func (c *Conn) ListSchemas() ([]*ddl.Schema, error) {
 		c.log.Debugw("row scanned", "schema", schema)
 		schemas = append(schemas, schema)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/sequence.go b/internal/pg/sequence.go
index ba46fd7..bbc1fef 100644
--- a/internal/pg/sequence.go
+++ b/internal/pg/sequence.go
@@ -152,6 +152,9 @@ func (c *Conn) listSequences() ([]*ddl.Sequence, error) {
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -198,6 +201,9 @@ func (c *Conn) listSequencesLegacy() ([]*ddl.Sequence, error) {
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/table_storage_parameters.go b/internal/pg/table_storage_parameters.go
index cbc4d7e..51941e0 100644
--- a/internal/pg/table_storage_parameters.go
+++ b/internal/pg/table_storage_parameters.go
@@ -47,6 +47,9 @@ func (c *Conn) ListTableStorageParameters(schema, table string) (*ddl.TableStora
 			return nil, err
 		}
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/tables.go b/internal/pg/tables.go
index e3084b8..022f579 100644
--- a/internal/pg/tables.go
+++ b/internal/pg/tables.go
@@ -47,6 +47,9 @@ func (c *Conn) ListTables() ([]*ddl.Table, error) {
 		c.log.Debugw("row scanned", "table", table)
 		tables = append(tables, table)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/internal/pg/triggers.go b/internal/pg/triggers.go
index 492f7a7..6e80ecf 100644
--- a/internal/pg/triggers.go
+++ b/internal/pg/triggers.go
@@ -89,6 +89,9 @@ func (c *Conn) ListTriggers(schema, table string) ([]*ddl.Trigger, error) {
 		trigger.Schema = schema
 		triggers = append(triggers, trigger)
 	}
+	if err == nil {
+		err = rows.Err()
+	}
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From c9d8a4f53ceac8a70de84cf088ee107235d3238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:45 +0000
Subject: [PATCH 31/41] fix: sort checks before they are recorded

The option to sort checks had no effect.
---
 internal/pg/inspect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/pg/inspect.go b/internal/pg/inspect.go
index 028722b..9803a5d 100644
--- a/internal/pg/inspect.go
+++ b/internal/pg/inspect.go
@@ -87,14 +87,14 @@ func (c *Conn) inspectTable(o *InspectOptions, db *ddl.Database, table *ddl.Tabl
 	if err != nil {
 		return err
 	}
-	if len(checks) > 0 {
-		table.Checks = append(table.Checks, checks...)
-	}
 	if o.SortChecks {
 		sort.Slice(checks, func(i, j int) bool {
 			return (checks[i].Expression < checks[j].Expression)
 		})
 	}
+	if len(checks) > 0 {
+		table.Checks = append(table.Checks, checks...)
+	}
 
 	fks, err := c.ListForeignKeys(table.Schema, table.Name)
 	if err != nil {
-- 
2.43.0


From c2e0ad1759c4b3ec804dc0cb6a6919a56ed9746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:43 +0000
Subject: [PATCH 32/41] fix: connect at least once when connect_retries is
 negative

---
 internal/pg/pg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index e938ab3..a9f1273 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -60,7 +60,7 @@ func New(o *Options) (*Conn, error) {
 
 	delay := 100 * time.Millisecond
 	var conn *pgx.Conn
-	for retries := 0; retries <= o.ConnectRetries; retries++ {
+	for retries := 0; ; retries++ {
 		conn, err = pgx.Connect(cfg)
 		if err == nil {
 			break
-- 
2.43.0


From 12f52bb233ad6933beebe5b2546fa7c19074f3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:46 +0000
Subject: [PATCH 33/41] fix: wait before every retry, longer each time

---
 internal/pg/pg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index a9f1273..548fbcf 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -67,7 +67,7 @@ func New(o *Options) (*Conn, error) {
 		}
 		if retries < o.ConnectRetries {
 			time.Sleep(delay)
-			delay = time.Duration(2^retries) * 100 * time.Millisecond
+			delay *= 2
 		} else {
 			return nil, err
 		}
-- 
2.43.0


From 5be3ab0d4bcbe1a3113119465b395ac5afc6133c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:50 +0000
Subject: [PATCH 34/41] fix: verify the certificate of the host that is
 connected to

---
 internal/pg/pg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/pg/pg.go b/internal/pg/pg.go
index 548fbcf..764c6c1 100644
--- a/internal/pg/pg.go
+++ b/internal/pg/pg.go
@@ -52,6 +52,9 @@ func New(o *Options) (*Conn, error) {
 		if err != nil {
 			return nil, err
 		}
+	} else if cfg.TLSConfig != nil && !cfg.TLSConfig.InsecureSkipVerify {
+		// PGSSLMODE asks for verification, but of the host in PGHOST
+		cfg.TLSConfig.ServerName = cfg.Host
 	}
 
 	cfg.Logger = zapadapter.NewLogger(
-- 
2.43.0


From f0a5591663e3d1a041582ccef3eb3eee8193ee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:40 +0000
Subject: [PATCH 35/41] fix: quote function names that are keywords

---
 internal/ddl/function.go |  2 +-
 internal/ddl/util.go     | 27 +++++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/internal/ddl/function.go b/internal/ddl/function.go
index 90f99c1..a6dcb78 100644
--- a/internal/ddl/function.go
+++ b/internal/ddl/function.go
@@ -17,7 +17,7 @@ type Function struct {
 func (f *Function) ToSQL() (string, error) {
 	var sb strings.Builder
 	sb.WriteString("CREATE OR REPLACE FUNCTION ")
-	if plainName.MatchString(f.Name) {
+	if plainName.MatchString(f.Name) && !keywords[f.Name] {
 		sb.WriteString(f.Name)
 	} else {
 		sb.WriteString(quoteName(f.Name))
diff --git a/internal/ddl/util.go b/internal/ddl/util.go
index a9d02aa..57088af 100644
--- a/internal/ddl/util.go
+++ b/internal/ddl/util.go
@@ -9,6 +9,33 @@ import (
 // plainName matches names that mean the same without quotes
 var plainName = regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)
 
+// keywords that can't be the name of a function without quotes
+var keywords = map[string]bool{}
+
+func init() {
+	for _, s := range strings.Fields(`
+		all analyse analyze and any array as asc asymmetric between bigint bit
+		boolean both case cast char character check coalesce collate column
+		constraint create current_catalog current_date current_role
+		current_time current_timestamp current_user dec decimal default
+		deferrable desc distinct do else end except exists extract false fetch
+		float for foreign from grant greatest group grouping having in
+		initially inout int integer intersect interval into json json_array
+		json_arrayagg json_exists json_object json_objectagg json_query
+		json_scalar json_serialize json_table json_value lateral leading least
+		limit localtime localtimestamp merge_action national nchar none
+		normalize not null nullif numeric offset on only or order out overlay
+		placing position precision primary real references returning row
+		select session_user setof smallint some substring symmetric
+		system_user table then time timestamp to trailing treat trim true
+		union unique user using values varchar variadic when where window with
+		xmlattributes xmlconcat xmlelement xmlexists xmlforest xmlnamespaces
+		xmlparse xmlpi xmlroot xmlserialize xmltable
+	`) {
+		keywords[s] = true
+	}
+}
+
 // dollarQuote returns a delimiter that ends s and does not occur earlier
 func dollarQuote(s string) string {
 	quote := "$$"
-- 
2.43.0


From bec9b8e5666017cc557bbc5c4021bdb0b562d152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:03 +0000
Subject: [PATCH 36/41] fix: write version details to the command's output

---
 internal/commands/version.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/commands/version.go b/internal/commands/version.go
index 50b1b1e..44c97a4 100644
--- a/internal/commands/version.go
+++ b/internal/commands/version.go
@@ -20,9 +20,9 @@ type VersionCmd struct {
 func (c *VersionCmd) Run(base *Base) error {
 	fmt.Fprintln(base.Stdout, c.App, c.Build)
 	if c.Verbose && c.BuildInfo != nil {
-		fmt.Println("")
+		fmt.Fprintln(base.Stdout, "")
 		for _, m := range c.BuildInfo.Deps {
-			fmt.Printf("%-40s %-35s\n", m.Path, m.Version)
+			fmt.Fprintf(base.Stdout, "%-40s %-35s\n", m.Path, m.Version)
 		}
 	}
 	return nil
-- 
2.43.0


From 00165a0ca4a44fc80d5574beb1da74a7c5fff94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:28 +0000
Subject: [PATCH 37/41] fix: report errors writing the output of list, ping and
 version

---
 internal/commands/ping.go           |  2 +-
 internal/commands/runbook_list.go   |  9 ++++++---
 internal/commands/version.go        | 11 +++++++----
 internal/commands/version_legacy.go |  4 ++--
 4 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/internal/commands/ping.go b/internal/commands/ping.go
index 85397cc..bf5dd69 100644
--- a/internal/commands/ping.go
+++ b/internal/commands/ping.go
@@ -33,7 +33,7 @@ func (c *PingCmd) Run(base *Base) error {
 
 	version, err := conn.ServerVersion()
 	if err == nil {
-		fmt.Fprintln(base.Stdout, version)
+		_, err = fmt.Fprintln(base.Stdout, version)
 	}
 	return err
 }
diff --git a/internal/commands/runbook_list.go b/internal/commands/runbook_list.go
index c8fbbe3..7a15ea9 100644
--- a/internal/commands/runbook_list.go
+++ b/internal/commands/runbook_list.go
@@ -1,6 +1,7 @@
 package commands
 
 import (
+	"bytes"
 	"fmt"
 	"sort"
 
@@ -30,10 +31,12 @@ func (c *RunBookListCmd) Run(base *Base) error {
 	}
 	sort.Strings(sorted)
 
-	fmt.Fprintln(base.Stdout, "Tasks & Targets:")
+	buf := &bytes.Buffer{}
+	fmt.Fprintln(buf, "Tasks & Targets:")
 	for _, task := range sorted {
 		target := tasks[runbook.TaskID(task)]
-		fmt.Fprintf(base.Stdout, "  %-*s  %s\n", longest, task, target)
+		fmt.Fprintf(buf, "  %-*s  %s\n", longest, task, target)
 	}
-	return nil
+	_, err = buf.WriteTo(base.Stdout)
+	return err
 }
diff --git a/internal/commands/version.go b/internal/commands/version.go
index 44c97a4..880f35f 100644
--- a/internal/commands/version.go
+++ b/internal/commands/version.go
@@ -3,6 +3,7 @@
 package commands
 
 import (
+	"bytes"
 	"fmt"
 	"runtime/debug"
 )
@@ -18,12 +19,14 @@ type VersionCmd struct {
 
 // Run executes the command
 func (c *VersionCmd) Run(base *Base) error {
-	fmt.Fprintln(base.Stdout, c.App, c.Build)
+	buf := &bytes.Buffer{}
+	fmt.Fprintln(buf, c.App, c.Build)
 	if c.Verbose && c.BuildInfo != nil {
-		fmt.Fprintln(base.Stdout, "")
+		fmt.Fprintln(buf, "")
 		for _, m := range c.BuildInfo.Deps {
-			fmt.Fprintf(base.Stdout, "%-40s %-35s\n", m.Path, m.Version)
+			fmt.Fprintf(buf, "%-40s %-35s\n", m.Path, m.Version)
 		}
 	}
-	return nil
+	_, err := buf.WriteTo(base.Stdout)
+	return err
 }
diff --git a/internal/commands/version_legacy.go b/internal/commands/version_legacy.go
index b6676bd..85dcea2 100644
--- a/internal/commands/version_legacy.go
+++ b/internal/commands/version_legacy.go
@@ -14,6 +14,6 @@ type VersionCmd struct {
 
 // Run executes the command
 func (c *VersionCmd) Run(base *Base) error {
-	fmt.Fprintln(base.Stdout, c.App, c.Build)
-	return nil
+	_, err := fmt.Fprintln(base.Stdout, c.App, c.Build)
+	return err
 }
-- 
2.43.0


From e09fbbceaacca58f7c778d3612f8e8045ea3f148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:19 +0000
Subject: [PATCH 38/41] fix: color the output of runbook eval whenever it's
 asked for

---
 internal/commands/runbook_eval.go | 2 +-
 internal/runbook/runbook.go       | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/internal/commands/runbook_eval.go b/internal/commands/runbook_eval.go
index 0e04c2b..85393ca 100644
--- a/internal/commands/runbook_eval.go
+++ b/internal/commands/runbook_eval.go
@@ -34,7 +34,7 @@ func (c *RunBookEvalCmd) Run(base *Base) (err error) {
 	switch c.Color {
 	case "auto":
 		if x, ok := w.(interface{ Fd() uintptr }); ok {
-			color = isatty.IsTerminal(x.Fd())
+			color = isatty.IsTerminal(x.Fd()) && os.Getenv("TERM") != "dumb"
 		}
 	case "true":
 		color = true
diff --git a/internal/runbook/runbook.go b/internal/runbook/runbook.go
index 8997b0d..d35d20c 100644
--- a/internal/runbook/runbook.go
+++ b/internal/runbook/runbook.go
@@ -121,6 +121,14 @@ func Eval(sys *sys.IO, filename string, w io.Writer, color bool) error {
 
 	formatter := prettyjson.NewFormatter()
 	formatter.DisabledColor = !color
+	if color {
+		// otherwise it depends on the process's standard output
+		formatter.KeyColor.EnableColor()
+		formatter.StringColor.EnableColor()
+		formatter.BoolColor.EnableColor()
+		formatter.NumberColor.EnableColor()
+		formatter.NullColor.EnableColor()
+	}
 	formatted, err := formatter.Marshal(escapeKeys(unformatted))
 	if err != nil {
 		return err
-- 
2.43.0


From 6df845648814032f7ea9e8c384aab7fadf0a66fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 39/41] fix: list sequences that no column owns

---
 internal/pg/sequence.go | 40 ++++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/internal/pg/sequence.go b/internal/pg/sequence.go
index bbc1fef..a7f332a 100644
--- a/internal/pg/sequence.go
+++ b/internal/pg/sequence.go
@@ -35,21 +35,21 @@ JOIN pg_catalog.pg_namespace n
 JOIN pg_catalog.pg_sequence s
   ON s.seqrelid = c.oid
 LEFT JOIN pg_catalog.pg_depend d
-  ON d.objid = c.oid
-JOIN pg_catalog.pg_class c2
+  ON (d.objid = c.oid
+  AND d.classid='pg_catalog.pg_class'::pg_catalog.regclass
+  AND d.refclassid='pg_catalog.pg_class'::pg_catalog.regclass
+  AND d.deptype IN ('a', 'i'))
+LEFT JOIN pg_catalog.pg_class c2
   ON c2.oid = d.refobjid
-JOIN pg_catalog.pg_namespace n2
+LEFT JOIN pg_catalog.pg_namespace n2
   ON n2.oid = c2.relnamespace
-JOIN pg_catalog.pg_attribute a2
+LEFT JOIN pg_catalog.pg_attribute a2
   ON (a2.attrelid = c2.oid AND a2.attnum = d.refobjsubid)
 WHERE c.relkind = 'S'
   AND n.nspname <> 'pg_catalog'
   AND n.nspname <> 'information_schema'
   AND n.nspname !~ '^pg_toast'
   AND pg_catalog.pg_table_is_visible(c.oid)
-  AND d.classid='pg_catalog.pg_class'::pg_catalog.regclass
-  AND d.refclassid='pg_catalog.pg_class'::pg_catalog.regclass
-  AND d.deptype IN ('a', 'i')
 ORDER BY "Schema", "Name"
 `
 
@@ -66,21 +66,21 @@ FROM pg_catalog.pg_class c
 JOIN pg_catalog.pg_namespace n
   ON n.oid = c.relnamespace
 LEFT JOIN pg_catalog.pg_depend d
-  ON d.objid = c.oid
-JOIN pg_catalog.pg_class c2
+  ON (d.objid = c.oid
+  AND d.classid='pg_catalog.pg_class'::pg_catalog.regclass
+  AND d.refclassid='pg_catalog.pg_class'::pg_catalog.regclass
+  AND d.deptype IN ('a', 'i'))
+LEFT JOIN pg_catalog.pg_class c2
   ON c2.oid = d.refobjid
-JOIN pg_catalog.pg_namespace n2
+LEFT JOIN pg_catalog.pg_namespace n2
   ON n2.oid = c2.relnamespace
-JOIN pg_catalog.pg_attribute a2
+LEFT JOIN pg_catalog.pg_attribute a2
   ON (a2.attrelid = c2.oid AND a2.attnum = d.refobjsubid)
 WHERE c.relkind = 'S'
   AND n.nspname <> 'pg_catalog'
   AND n.nspname <> 'information_schema'
   AND n.nspname !~ '^pg_toast'
   AND pg_catalog.pg_table_is_visible(c.oid)
-  AND d.classid='pg_catalog.pg_class'::pg_catalog.regclass
-  AND d.refclassid='pg_catalog.pg_class'::pg_catalog.regclass
-  AND d.deptype IN ('a', 'i')
 ORDER BY "Schema", "Name"
 `
 
@@ -143,11 +143,13 @@ func (c *Conn) listSequences() ([]*ddl.Sequence, error) {
 			Increment: increment,
 			Cache:     cache,
 			Cycle:     cycle,
-			OwnedBy: &ddl.SequenceOwner{
+		}
+		if ownerColumn != nil {
+			sequence.OwnedBy = &ddl.SequenceOwner{
 				Schema: String(ownerSchema),
 				Table:  String(ownerName),
 				Column: String(ownerColumn),
-			},
+			}
 		}
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
@@ -192,11 +194,13 @@ func (c *Conn) listSequencesLegacy() ([]*ddl.Sequence, error) {
 			Comment: String(comment),
 
 			DataType: "bigint",
-			OwnedBy: &ddl.SequenceOwner{
+		}
+		if ownerColumn != nil {
+			sequence.OwnedBy = &ddl.SequenceOwner{
 				Schema: String(ownerSchema),
 				Table:  String(ownerName),
 				Column: String(ownerColumn),
-			},
+			}
 		}
 		c.log.Debugw("row scanned", "sequence", sequence)
 		sequences = append(sequences, sequence)
-- 
2.43.0


From 7b31226cf6bbb5670280c45b672eb19278c3576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 40/41] fix: execute no more tasks at once than max_concurrency
 allows

---
 internal/taskset/base/base.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/internal/taskset/base/base.go b/internal/taskset/base/base.go
index 3dc0c41..4bc46f6 100644
--- a/internal/taskset/base/base.go
+++ b/internal/taskset/base/base.go
@@ -36,6 +36,11 @@ func (t *Task) Provides() []string {
 // maxBuffer is the most batches or results buffered for a target
 const maxBuffer = 1024
 
+type waitingTask struct {
+	id   types.TaskID
+	task types.Task
+}
+
 type RunTask func(types.TaskID, types.Task, chan<- types.TaskResults)
 
 func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan types.TaskResults) {
@@ -48,32 +53,39 @@ func RunTasks(fn RunTask, maxConcurrency int) (chan<- types.TaskBatch, <-chan ty
 	}
 	queue := make(chan types.TaskBatch, buffer)
 	results := make(chan types.TaskResults, buffer)
+	limit := maxConcurrency
+	if limit < 1 {
+		limit = 1
+	}
 
 	go func(queue <-chan types.TaskBatch, results chan<- types.TaskResults) {
 		relay := make(chan types.TaskResults)
 		running := 0
+		var waiting []waitingTask
 
 		for {
+			for ; len(waiting) > 0 && running < limit; waiting = waiting[1:] {
+				fmt.Println(waiting[0].id)
+				fn(waiting[0].id, waiting[0].task, relay)
+				running++
+			}
+			if queue == nil && running == 0 {
+				break
+			}
 			select {
 			case tasks, ok := <-queue:
 				if ok {
 					for id, task := range tasks {
-						fmt.Println(id)
-						fn(id, task, relay)
-						running++
+						waiting = append(waiting, waitingTask{id, task})
 					}
 				} else {
-					goto shutdown
+					queue = nil
 				}
 			case result := <-relay:
 				results <- result
 				running--
 			}
 		}
-	shutdown:
-		for ; running > 0; running-- {
-			results <- <-relay
-		}
 		close(results)
 	}(queue, results)
 
-- 
2.43.0


From 2e5e6d589a7e53cbffdaff2aab61fd3e6e1d5427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 41/41] fix: keep an output file's content until there's
 something to replace it with

dot and eval emptied the output file before they read the run book: a mistake
in the run book cost the earlier output, and naming the run book itself (for
instance -O with a run book called x.dot) destroyed it.
---
 internal/commands/base.go         | 33 +++++++++++++++++++++++++++++++
 internal/commands/runbook_dot.go  |  3 +--
 internal/commands/runbook_eval.go |  2 +-
 3 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/internal/commands/base.go b/internal/commands/base.go
index a32a803..03d9e60 100644
--- a/internal/commands/base.go
+++ b/internal/commands/base.go
@@ -13,3 +13,36 @@ type Base struct {
 	Debug     *os.File
 	Verbosity int
 }
+
+// outputFile keeps what it contains until there's something to replace it with
+type outputFile struct {
+	file    *os.File
+	started bool
+}
+
+func openOutput(filename string) (*outputFile, error) {
+	f, err := os.OpenFile(filename, os.O_CREATE|os.O_WRONLY, 0666)
+	if err != nil {
+		return nil, err
+	}
+	return &outputFile{file: f}, nil
+}
+
+// Fd makes it possible to check if the file is a terminal
+func (f *outputFile) Fd() uintptr {
+	return f.file.Fd()
+}
+
+func (f *outputFile) Write(data []byte) (int, error) {
+	if !f.started {
+		info, err := f.file.Stat()
+		if err == nil && info.Mode().IsRegular() {
+			err = f.file.Truncate(0)
+		}
+		if err != nil {
+			return 0, err
+		}
+		f.started = true
+	}
+	return f.file.Write(data)
+}
diff --git a/internal/commands/runbook_dot.go b/internal/commands/runbook_dot.go
index 4a4f9c7..9d38394 100644
--- a/internal/commands/runbook_dot.go
+++ b/internal/commands/runbook_dot.go
@@ -1,7 +1,6 @@
 package commands
 
 import (
-	"os"
 	"path/filepath"
 
 	"github.com/sjansen/pgutil/internal/runbook"
@@ -29,7 +28,7 @@ func (c *RunBookDotCmd) Run(base *Base) (err error) {
 
 	w := base.Stdout
 	if output != "-" {
-		w, err = os.OpenFile(output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
+		w, err = openOutput(output)
 		if err != nil {
 			return err
 		}
diff --git a/internal/commands/runbook_eval.go b/internal/commands/runbook_eval.go
index 85393ca..9583287 100644
--- a/internal/commands/runbook_eval.go
+++ b/internal/commands/runbook_eval.go
@@ -24,7 +24,7 @@ func (c *RunBookEvalCmd) Run(base *Base) (err error) {
 
 	w := base.Stdout
 	if output != "-" {
-		w, err = os.OpenFile(output, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
+		w, err = openOutput(output)
 		if err != nil {
 			return err
 		}
-- 
2.43.0

