From 26e32cd29479a764910eb0a0b9a964d6ff10d8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 01/37] fix: honour SortBehaviour.IsCaseSensitive when sorting
 directory contents

---
 pref/options.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pref/options.go b/pref/options.go
index f58cb0b..efdfdb9 100644
--- a/pref/options.go
+++ b/pref/options.go
@@ -2,6 +2,7 @@ package pref
 
 import (
 	"io"
+	"io/fs"
 	"log/slog"
 	"path/filepath"
 	"runtime"
@@ -120,7 +121,6 @@ func DefaultOptions() *Options {
 		Concurrency: ConcurrencyOptions{
 			NoW: uint(runtime.NumCPU()),
 		},
-		Hooks: newHooks(),
 		Monitor: MonitorOptions{
 			Log: nopLogger,
 			Admin: AdminOptions{
@@ -135,10 +135,12 @@ func DefaultOptions() *Options {
 		},
 	}
 
+	o.Hooks = newHooks(&o.Behaviours.Sort)
+
 	return o
 }
 
-func newHooks() tapable.Hooks {
+func newHooks(sorting *SortBehaviour) tapable.Hooks {
 	return tapable.Hooks{
 		FileSubPath: tapable.NewHookCtrl[
 			core.SubPathHook, core.ChainSubPathHook, tapable.SubPathBroadcaster,
@@ -175,7 +177,14 @@ func newHooks() tapable.Hooks {
 		Sort: tapable.NewHookCtrl[
 			core.SortHook, core.ChainSortHook, tapable.SortBroadcaster,
 		](
-			DefaultCaseInSensitiveSortHook,
+			func(entries []fs.DirEntry, custom ...any) {
+				if sorting.IsCaseSensitive {
+					CaseSensitiveSortHook(entries, custom...)
+					return
+				}
+
+				DefaultCaseInSensitiveSortHook(entries, custom...)
+			},
 			tapable.GetSortBroadcaster,
 			tapable.SortAttacher,
 		),
-- 
2.43.0


From e300006972113e4a66ab2294737482d770e1d863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 02/37] fix: compute sub path in bytes so that non ASCII trees
 are not mangled

---
 pref/defaults.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pref/defaults.go b/pref/defaults.go
index 2bb960c..e7449c5 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -48,15 +48,13 @@ func DefaultCaseInSensitiveSortHook(entries []fs.DirEntry, _ ...any) {
 	})
 }
 
-// tail extracts the end part of a string, starting from the offset
+// tail extracts the end part of a string, starting from the offset, in bytes
 func tail(input string, offset int) string {
-	asRunes := []rune(input)
-
-	if offset >= len(asRunes) {
+	if offset >= len(input) {
 		return ""
 	}
 
-	return string(asRunes[offset:])
+	return input[offset:]
 }
 
 // difference returns the difference between a child path and a parent path
-- 
2.43.0


From 9e357ed93bf81f6433f9f659b90da22587310776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:07 +0000
Subject: [PATCH 03/37] fix: sub path of nodes when the tree is the current
 directory of a relative file system

---
 pref/defaults.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pref/defaults.go b/pref/defaults.go
index e7449c5..13f5ed7 100644
--- a/pref/defaults.go
+++ b/pref/defaults.go
@@ -77,6 +77,16 @@ func DefaultSubPathHook(info *core.SubPathInfo) string {
 		return lo.Ternary(info.KeepTrailingSep, string(filepath.Separator), "")
 	}
 
+	const current = "."
+
+	if info.Tree == current {
+		// paths of nodes below the current directory do not start with it
+		//
+		return lo.Ternary(info.Node.Path == info.Tree,
+			"", string(filepath.Separator)+info.Node.Extension.Parent,
+		)
+	}
+
 	return difference(info.Tree, info.Node.Extension.Parent)
 }
 
-- 
2.43.0


From 794fe0ff277be9643da58f47fbfc9c483e985dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 04/37] fix: sampling by count no longer hides a failure to
 read a directory

---
 internal/feat/sampling/controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/feat/sampling/controller.go b/internal/feat/sampling/controller.go
index 95fc165..b3bf3ba 100644
--- a/internal/feat/sampling/controller.go
+++ b/internal/feat/sampling/controller.go
@@ -24,7 +24,7 @@ func (p *controller) Next(_ core.Servant, _ enclave.Inspection) (bool, error) {
 	return true, nil
 }
 
-func (p *controller) sample(result []fs.DirEntry, _ error,
+func (p *controller) sample(result []fs.DirEntry, err error,
 	_ fs.ReadDirFS, _ string,
 ) ([]fs.DirEntry, error) {
 	files, directories := nef.Separate(result)
@@ -33,7 +33,7 @@ func (p *controller) sample(result []fs.DirEntry, _ error,
 		files:       files,
 		directories: directories,
 		o:           p.o,
-	}), nil
+	}), err
 }
 
 type (
-- 
2.43.0


From 935defc0d6cafad092177d562808a21b56f0d272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 05/37] fix: skip directives prune exactly what they say and
 are not reported as errors

---
 internal/feat/resume/strategy-spawn.go   | 10 +++++
 internal/kernel/kernel-defs.go           |  3 ++
 internal/kernel/mediator.go              |  1 +
 internal/kernel/navigator-agent.go       | 47 +++++++++++++++++++-----
 internal/kernel/navigator-directories.go |  4 +-
 internal/kernel/navigator-files.go       |  4 +-
 internal/kernel/navigator-universal.go   |  2 +-
 7 files changed, 59 insertions(+), 12 deletions(-)

diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index 8a8a5d4..c44cec1 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -2,6 +2,7 @@ package resume
 
 import (
 	"context"
+	"errors"
 	"io/fs"
 
 	"github.com/snivilised/agenor/core"
@@ -40,6 +41,15 @@ func (s *spawnStrategy) resume(ctx context.Context) (result *enclave.KernelResul
 		inclusive: true,
 	})
 
+	if errors.Is(err, fs.SkipAll) {
+		// the client requested that everything else should be skipped, so
+		// there is nothing more to do
+		//
+		s.complete = true
+
+		return s.kc.Result(ctx), nil
+	}
+
 	return result, err
 }
 
diff --git a/internal/kernel/kernel-defs.go b/internal/kernel/kernel-defs.go
index debba4e..69dab8a 100644
--- a/internal/kernel/kernel-defs.go
+++ b/internal/kernel/kernel-defs.go
@@ -101,6 +101,9 @@ type (
 		calc         nef.PathCalc
 		magnitude    string
 		subscription enums.Subscription
+		// seeded is set when this is just one of the many sub trees being
+		// navigated on behalf of a single spawn resume session.
+		seeded bool
 	}
 
 	inspection interface { // after content has been read
diff --git a/internal/kernel/mediator.go b/internal/kernel/mediator.go
index dfcd334..9866dc2 100644
--- a/internal/kernel/mediator.go
+++ b/internal/kernel/mediator.go
@@ -96,6 +96,7 @@ func (m *mediator) Spawn(ctx context.Context,
 		calc:         m.resources.Forest.T.Calc(),
 		subscription: m.subscription,
 		magnitude:    m.facade.Magnitude(),
+		seeded:       true,
 	})
 }
 
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 9a0b04e..3a1ec90 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -66,7 +66,7 @@ func (n *navigatorAgent) top(ctx context.Context,
 				},
 			)
 
-			return te
+			return conclude(ns, te)
 		},
 	)
 
@@ -93,6 +93,34 @@ const (
 	skipTraversal     = false
 )
 
+// conclude obtains the error to report for the completed navigation of a
+// tree. The skip directives are requests made by the client, which at this
+// point have been fulfilled, so they are not errors. The exception to this is
+// when skipping everything during a spawn resume, where the strategy needs to
+// know not to proceed with the rest of the sub trees.
+func conclude(ns *navigationStatic, err error) error {
+	if errors.Is(err, fs.SkipDir) {
+		return nil
+	}
+
+	if errors.Is(err, fs.SkipAll) && !ns.seeded {
+		return nil
+	}
+
+	return err
+}
+
+// terminate obtains the error that ends the whole traversal when the
+// client's skip handler decides that everything that remains should be
+// skipped.
+func terminate(err error) error {
+	if err == nil {
+		return fs.SkipAll
+	}
+
+	return err
+}
+
 // travel is the general recursive navigation function which returns a bool
 // indicating whether we continue travelling or not in response to an
 // error.
@@ -176,9 +204,11 @@ func (n *navigatorAgent) travel(ctx context.Context,
 					// processing all successive siblings but continue traversal.
 					// The !progress indicates we're skipping the remaining
 					// processing of all of the parent node's remaining children.
-					// (see the ✨ below ...)
+					// (see the ✨ below ...). The directive has been fulfilled
+					// by doing so, which means it must not be seen by any of
+					// the ancestors.
 					//
-					return skipTraversal, err
+					return continueTraversal, nil
 				}
 
 				return continueTraversal, err
@@ -187,14 +217,13 @@ func (n *navigatorAgent) travel(ctx context.Context,
 			// ✨ ... we skip processing all the remaining children for
 			// this node, but still continue the overall traversal.
 			//
-			switch {
-			case errors.Is(err, fs.SkipDir):
+			// Any other error (that includes fs.SkipAll), ends the traversal.
+			//
+			if errors.Is(err, fs.SkipDir) {
 				continue
-			case errors.Is(err, fs.SkipAll):
-				break
-			default:
-				return continueTraversal, err
 			}
+
+			return continueTraversal, err
 		}
 	}
 
diff --git a/internal/kernel/navigator-directories.go b/internal/kernel/navigator-directories.go
index 15ab53d..94bb001 100644
--- a/internal/kernel/navigator-directories.go
+++ b/internal/kernel/navigator-directories.go
@@ -42,7 +42,9 @@ func (n *navigatorDirectories) Traverse(ctx context.Context,
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
 	); skip == enums.SkipAllTraversal {
-		return continueTraversal, e
+		return continueTraversal, terminate(e)
+	} else if skip == enums.SkipDirTraversal {
+		return skipTraversal, e
 	}
 
 	return n.travel(ctx, ns, vapour)
diff --git a/internal/kernel/navigator-files.go b/internal/kernel/navigator-files.go
index f3e6e0e..32bbb74 100644
--- a/internal/kernel/navigator-files.go
+++ b/internal/kernel/navigator-files.go
@@ -49,7 +49,9 @@ func (n *navigatorFiles) Traverse(ctx context.Context,
 
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
-	); skip == enums.SkipAllTraversal || err != nil {
+	); skip == enums.SkipAllTraversal {
+		return continueTraversal, terminate(e)
+	} else if err != nil {
 		return continueTraversal, e
 	} else if skip == enums.SkipDirTraversal {
 		return true, e
diff --git a/internal/kernel/navigator-universal.go b/internal/kernel/navigator-universal.go
index 6e67e3a..580620c 100644
--- a/internal/kernel/navigator-universal.go
+++ b/internal/kernel/navigator-universal.go
@@ -42,7 +42,7 @@ func (n *navigatorUniversal) Traverse(ctx context.Context,
 	if skip, e := ns.mediator.o.Defects.Skip.Ask(
 		current, vapour.Contents(), err,
 	); skip == enums.SkipAllTraversal {
-		return continueTraversal, e
+		return continueTraversal, terminate(e)
 	} else if skip == enums.SkipDirTraversal {
 		return skipTraversal, e
 	}
-- 
2.43.0


From 5d34db92d21782c2bf83c3f91cec359863ea077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 06/37] fix: a custom filter no longer usurps the hibernation
 conditions

---
 internal/filtering/builders.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index 3be1f4a..1ac401d 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -126,9 +126,16 @@ func buildConstituent(definition *core.FilterDef,
 	return filter, err
 }
 
-func getCustomFilter(_ *core.FilterDef,
+// getCustomFilter obtains the custom filter, but only for a definition which
+// asks for it, otherwise it would usurp other filters that are defined
+// independently of the custom filter, eg the hibernation conditions.
+func getCustomFilter(definition *core.FilterDef,
 	fo *pref.FilterOptions,
 ) (core.TraverseFilter, error) {
+	if definition.Type != enums.FilterTypeCustom {
+		return nil, nil
+	}
+
 	return fo.Custom, nil
 }
 
-- 
2.43.0


From 44f66cc67534a1b40e373be085a7967fdd066fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 07/37] fix: a concurrent run completes every node and is
 always released

---
 synchronise.go | 91 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 79 insertions(+), 12 deletions(-)

diff --git a/synchronise.go b/synchronise.go
index 965aeef..6ddf989 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -2,6 +2,8 @@ package age
 
 import (
 	"context"
+	"sync"
+	"time"
 
 	"github.com/pkg/errors"
 	"github.com/snivilised/agenor/core"
@@ -47,15 +49,15 @@ type concurrent struct {
 	pool    *core.TraversePool
 	inputCh pants.SourceStreamW[*core.TraverseInput]
 	swapper enclave.Swapper
+	// pending tracks the nodes submitted to the pool, whose handler has
+	// not yet completed.
+	pending sync.WaitGroup
+	// released is closed when there is no more work left in the pool.
+	released chan struct{}
 }
 
 func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error) {
-	defer func() {
-		c.close()
-		if c.pool != nil {
-			c.pool.Release(ctx)
-		}
-	}()
+	defer c.close(ctx)
 
 	if c.err != nil {
 		return c.kc.Result(ctx), c.err
@@ -69,7 +71,16 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 				Handler: handler,
 			}
 
-			c.inputCh <- input // TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
+			c.pending.Add(1)
+
+			// TODO: support for timeout (TimeoutOnSendInput) ??? issue #333
+			select {
+			case c.inputCh <- input:
+			case <-ctx.Done():
+				c.pending.Done()
+
+				return ctx.Err()
+			}
 
 			return nil
 		})
@@ -77,7 +88,13 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 
 	c.pool, c.err = pants.NewManifoldFuncPool(
 		ctx, func(input *core.TraverseInput) (*core.TraverseOutput, error) {
-			err := input.Handler(input.Servant)
+			defer c.pending.Done()
+
+			err := ctx.Err() // nodes still queued after cancellation are not handled
+
+			if err == nil {
+				err = input.Handler(input.Servant)
+			}
 
 			return &core.TraverseOutput{
 				Servant: input.Servant,
@@ -109,12 +126,62 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 }
 
 func (c *concurrent) open(ctx context.Context) {
-	c.inputCh = c.pool.Source(ctx, c.wg)
+	// The source must keep on running until the input channel has been closed,
+	// otherwise the nodes in flight when the context is cancelled would be
+	// lost and the output channel would never be closed.
+	//
+	c.inputCh = c.pool.Source(context.WithoutCancel(ctx), c.wg)
+	c.released = make(chan struct{})
+
+	if c.o.Concurrency.Output.On != nil {
+		c.wg.Add(1)
+
+		go c.forsake()
+	}
 }
 
-func (c *concurrent) close() {
-	if c.inputCh != nil {
-		close(c.inputCh)
+// close is invoked when navigation is complete, there will be no more
+// submissions to the pool. The workers could still be busy with what's been
+// submitted, so the pool can't be released until that work has been completed.
+func (c *concurrent) close(ctx context.Context) {
+	if c.inputCh == nil {
+		return
+	}
+
+	c.wg.Add(1)
+	close(c.inputCh)
+
+	go func() {
+		defer c.wg.Done()
+
+		c.pending.Wait()
+		c.pool.Release(context.WithoutCancel(ctx))
+		close(c.released)
+	}()
+}
+
+// forsake acknowledges the cancellation requests that are issued by the
+// workers when they give up sending an output. Without this, workers would
+// block indefinitely when the output is not being consumed.
+func (c *concurrent) forsake() {
+	defer c.wg.Done()
+
+	released := c.released
+	cancelCh := c.pool.CancelCh()
+
+	for released != nil {
+		select {
+		case <-cancelCh:
+		case <-released:
+			released = nil
+		}
+	}
+
+	for c.pool.Running() > 0 {
+		select {
+		case <-cancelCh:
+		case <-time.After(max(c.o.Concurrency.Output.CheckCloseInterval, time.Millisecond)):
+		}
 	}
 }
 
-- 
2.43.0


From 656ab27ba51fa85e1f9e3a8942f822a3d5cc8113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 08/37] fix: navigation stops when its context is cancelled

---
 internal/kernel/navigator-agent.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 3a1ec90..098fe93 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -47,6 +47,10 @@ func (n *navigatorAgent) Ignite(ignition *enclave.Ignition) {
 func (n *navigatorAgent) top(ctx context.Context,
 	ns *navigationStatic,
 ) (result *enclave.KernelResult, err error) {
+	if ce := ctx.Err(); ce != nil {
+		return ns.mediator.impl.Result(ctx), ce
+	}
+
 	info, ie := n.ao.hooks.QueryStatus.Invoke()(
 		ns.mediator.resources.Forest.T, ns.tree,
 	)
@@ -178,6 +182,10 @@ func (n *navigatorAgent) travel(ctx context.Context,
 	)
 
 	for _, entry := range vapour.Entries() {
+		if ce := ctx.Err(); ce != nil {
+			return continueTraversal, ce
+		}
+
 		path := filepath.Join(parent.Path, entry.Name())
 		info, e := entry.Info()
 
-- 
2.43.0


From 8ec528b429165143ba1c1bc42a6f6e879f580e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:39 +0000
Subject: [PATCH 09/37] fix: a pool worker survives a panicking handler and is
 told to exit

---
 synchronise.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/synchronise.go b/synchronise.go
index 6ddf989..576a308 100644
--- a/synchronise.go
+++ b/synchronise.go
@@ -2,6 +2,8 @@ package age
 
 import (
 	"context"
+	"fmt"
+	"log/slog"
 	"sync"
 	"time"
 
@@ -93,7 +95,7 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 			err := ctx.Err() // nodes still queued after cancellation are not handled
 
 			if err == nil {
-				err = input.Handler(input.Servant)
+				err = c.invoke(input)
 			}
 
 			return &core.TraverseOutput{
@@ -102,6 +104,9 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 			}, err
 		}, c.wg,
 		pants.WithSize(c.o.Concurrency.NoW),
+		// a worker that is being purged whilst the pool is released, is never told
+		// to exit; besides, the workers are only required for the navigation.
+		pants.WithDisablePurge(true),
 		pants.WithInput(c.o.Concurrency.Input.Size),
 		pants.IfOptionF(c.o.Concurrency.Output.On != nil, func() pants.Option {
 			return pants.WithOutput(
@@ -125,6 +130,23 @@ func (c *concurrent) Navigate(ctx context.Context) (*enclave.KernelResult, error
 	return c.kc.Navigate(ctx)
 }
 
+// invoke calls the client's handler. A panic is turned into the error of that
+// node, because a worker must survive it; the pool does not replace workers
+// reliably.
+func (c *concurrent) invoke(input *core.TraverseInput) (err error) {
+	defer func() {
+		if data := recover(); data != nil {
+			err = fmt.Errorf("handler panicked: %v", data)
+
+			c.o.Monitor.Log.Error(err.Error(),
+				slog.String("path", input.Servant.Node().Path),
+			)
+		}
+	}()
+
+	return input.Handler(input.Servant)
+}
+
 func (c *concurrent) open(ctx context.Context) {
 	// The source must keep on running until the input channel has been closed,
 	// otherwise the nodes in flight when the context is cancelled would be
-- 
2.43.0


From 20a26dc490109c4c1d76a30a25483bfbcd42a3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 10/37] fix: a panic in the callback of the top node is rescued

---
 internal/kernel/navigator-agent.go | 98 +++++++++++++++++-------------
 1 file changed, 57 insertions(+), 41 deletions(-)

diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 098fe93..66b3592 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -64,13 +64,7 @@ func (n *navigatorAgent) top(ctx context.Context,
 			})
 		},
 		func() error {
-			_, te := ns.mediator.impl.Traverse(ctx, ns,
-				servant{
-					node: core.Top(ns.tree, info),
-				},
-			)
-
-			return conclude(ns, te)
+			return conclude(ns, n.embark(ctx, ns, core.Top(ns.tree, info)))
 		},
 	)
 
@@ -125,6 +119,61 @@ func terminate(err error) error {
 	return err
 }
 
+// embark begins the traversal at the top node. The children of a directory are
+// rescued by travel, but there is nothing above the top node.
+func (n *navigatorAgent) embark(ctx context.Context,
+	ns *navigationStatic,
+	top *core.Node,
+) (err error) {
+	defer func() {
+		if data := recover(); data != nil {
+			err = n.rescue(ns, &navigationVapour{
+				ns:      ns,
+				present: top,
+			}, data)
+		}
+	}()
+
+	_, err = ns.mediator.impl.Traverse(ctx, ns, servant{
+		node: top,
+	})
+
+	return err
+}
+
+// rescue saves the session as a result of a panic and obtains the error that
+// reports the outcome.
+func (n *navigatorAgent) rescue(ns *navigationStatic,
+	vapour inspection,
+	data any,
+) error {
+	// The tree on the mediator always points to the original tree root
+	// requested by the user. The tree on navigation static can be different
+	// when a spawn resume is in play; ie, the Spawn is created using a child
+	// tree and this is what is set on the navigation static when a sub tree
+	// is seeded, but this would be the incorrect tree to persist, rather, we
+	// need the real ancestor that is denoted by the mediator's tree.
+	//
+	to, rescueErr := n.ao.defects.Panic.Rescue(n, &vex{
+		data:     data,
+		anc:      ns.mediator.tree,
+		vap:      vapour,
+		catalyst: "panic",
+		mag:      n.magnitude,
+	}) // wrap???
+
+	panicErr, ok := data.(error)
+	if !ok {
+		panicErr = errors.New("")
+	}
+
+	if rescueErr != nil {
+		return locale.NewTraversalNotSavedError(panicErr, rescueErr)
+	}
+
+	return locale.NewTraversalSavedError(to, panicErr)
+}
+
 // travel is the general recursive navigation function which returns a bool
 // indicating whether we continue travelling or not in response to an
 // error.
@@ -140,40 +189,7 @@ func (n *navigatorAgent) travel(ctx context.Context,
 ) (skip bool, err error) {
 	defer func() {
 		if data := recover(); data != nil {
-			// The tree on the mediator always points to the original tree root
-			// requested by the user. The tree on navigation static can be different
-			// when a spawn resume is in play; ie, the Spawn is created using a child
-			// tree and this is what is set on the navigation static when a sub tree
-			// is seeded, but this would be the incorrect tree to persist, rather, we
-			// need the real ancestor that is denoted by the mediator's tree.
-			//
-			to, rescueErr := n.ao.defects.Panic.Rescue(n, &vex{
-				data:     data,
-				anc:      ns.mediator.tree,
-				vap:      vapour,
-				catalyst: "panic",
-				mag:      n.magnitude,
-			}) // wrap???
-
-			panicErr, ok := data.(error)
-			if !ok {
-				panicErr = errors.New("")
-			}
-
-			if rescueErr != nil {
-				err = locale.NewTraversalNotSavedError(panicErr, rescueErr)
-			}
-
-			err = lo.TernaryF(rescueErr != nil,
-				func() error {
-					return locale.NewTraversalNotSavedError(panicErr, rescueErr)
-				},
-				func() error {
-					return locale.NewTraversalSavedError(to, panicErr)
-				},
-			)
-
-			skip = skipTraversal
+			skip, err = skipTraversal, n.rescue(ns, vapour, data)
 		}
 	}()
 
-- 
2.43.0


From 96002bde4701dd8d999fad2834cf1001ce54de78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:57 +0000
Subject: [PATCH 11/37] fix: elapsed time of a session no longer changes once
 it has finished

---
 session.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/session.go b/session.go
index a77f608..0c276df 100644
--- a/session.go
+++ b/session.go
@@ -11,11 +11,13 @@ type session struct {
 	sync     synchroniser
 	started  time.Time
 	duration time.Duration
+	finished bool
 	plugins  []enclave.Plugin
 }
 
 func (s *session) start() {
 	s.started = time.Now()
+	s.finished = false
 	s.sync.Ignite(&enclave.Ignition{
 		Session: s,
 	})
@@ -23,6 +25,7 @@ func (s *session) start() {
 
 func (s *session) finish(result *enclave.KernelResult) {
 	s.duration = time.Since(s.started)
+	s.finished = true
 	s.sync.Bye(result)
 }
 
@@ -35,6 +38,10 @@ func (s *session) StartedAt() time.Time {
 }
 
 func (s *session) Elapsed() time.Duration {
+	if s.finished {
+		return s.duration
+	}
+
 	return time.Since(s.started)
 }
 
-- 
2.43.0


From b342d208d68c70b44b65083dad87a1cc9214282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:25 +0000
Subject: [PATCH 12/37] fix: a request without handler or file systems is
 refused

---
 scaffold.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/scaffold.go b/scaffold.go
index 59e3242..3761656 100644
--- a/scaffold.go
+++ b/scaffold.go
@@ -44,6 +44,10 @@ func newPrimaryPlatform(facade pref.Facade,
 	}
 	harvest, err := primary.buildOptions(using, addons, ext, settings...)
 
+	if err == nil && !planted(ext.trees) {
+		err = core.ErrNilForest
+	}
+
 	return &platform{
 		fac: facade,
 		ext: ext,
@@ -63,6 +67,10 @@ func newResumePlatform(facade pref.Facade,
 			core.ErrWrongResumeFacade
 	}
 
+	if err := relic.Validate(); err != nil {
+		return resume.base.pacify(facade, settings...), err
+	}
+
 	ext := &resumeExtent{
 		baseExtent: baseExtent{
 			fac: facade,
@@ -96,6 +104,12 @@ func newResumePlatform(facade pref.Facade,
 	}, err
 }
 
+// planted determines whether both of the file systems required by a session
+// have been provided.
+func planted(forest *core.Forest) bool {
+	return forest != nil && forest.T != nil && forest.R != nil
+}
+
 type basePlatform struct {
 }
 
@@ -185,7 +199,7 @@ func (p *resumePlatform) buildForest(relic *pref.Relic, active *core.ActiveState
 		},
 	)
 
-	if forest == nil {
+	if !planted(forest) {
 		return nil
 	}
 
-- 
2.43.0


From bf3a122dd8d472b65719dc3a1fb7d0a87e51caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:09 +0000
Subject: [PATCH 13/37] fix: the metrics of a refused request can be read

---
 internal/enclave/kernel-result.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/enclave/kernel-result.go b/internal/enclave/kernel-result.go
index b6e2a98..28e9b10 100644
--- a/internal/enclave/kernel-result.go
+++ b/internal/enclave/kernel-result.go
@@ -23,7 +23,9 @@ func NewResult(session core.Session,
 }
 
 func NewFailed() *KernelResult {
-	return &KernelResult{}
+	return &KernelResult{
+		reporter: NewSupervisor(),
+	}
 }
 
 func (r *KernelResult) Merge(other core.Metrics) {
-- 
2.43.0


From 3198038c949817a1501f47bdf44b101f175a325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 14/37] fix: a resumed session announces that it wakes

---
 life/events.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/life/events.go b/life/events.go
index 5f82707..13364cb 100644
--- a/life/events.go
+++ b/life/events.go
@@ -77,6 +77,7 @@ func (c *Controls) UnmuteAll() {
 	c.Begin.Unmute()
 	c.Descend.Unmute()
 	c.End.Unmute()
+	c.Wake.Unmute()
 	c.Sleep.Unmute()
 }
 
-- 
2.43.0


From c32d6e2ad95152c8ae4ab296374f56084d2f2498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 15/37] fix: roles of the active plugins are in the order of
 the manifest

---
 manifest.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/manifest.go b/manifest.go
index d96dd8a..a93f379 100644
--- a/manifest.go
+++ b/manifest.go
@@ -63,5 +63,9 @@ func manifest(active []enums.Role) []enums.Role {
 		initial,
 	)
 
+	slices.SortStableFunc(roles, func(a, b enums.Role) int {
+		return slices.Index(all, a) - slices.Index(all, b)
+	})
+
 	return roles
 }
-- 
2.43.0


From a91d152ffca0eb715ad19cb2956df4e1389514a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:26 +0000
Subject: [PATCH 16/37] fix: all metrics are saved and loaded with a session

---
 core/metrics.go                | 18 +++++++-----------
 internal/enclave/supervisor.go |  5 +++++
 internal/kernel/author.go      |  2 +-
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/core/metrics.go b/core/metrics.go
index 67a0052..fc1a6fd 100644
--- a/core/metrics.go
+++ b/core/metrics.go
@@ -1,8 +1,6 @@
 package core
 
 import (
-	"maps"
-
 	"github.com/snivilised/agenor/enums"
 )
 
@@ -58,15 +56,13 @@ func (m *NavigationMetric) Times(increment uint) MetricValue {
 }
 
 func (m Metrics) Merge(other Metrics) {
-	for mt := range maps.Keys(m) {
-		if om, foundOther := other[mt]; foundOther {
-			if metric, found := m[mt]; found {
-				metric.Times(om.Counter)
-			} else {
-				m[mt] = &NavigationMetric{
-					T:       mt,
-					Counter: om.Counter,
-				}
+	for mt, om := range other {
+		if metric, found := m[mt]; found {
+			metric.Times(om.Counter)
+		} else {
+			m[mt] = &NavigationMetric{
+				T:       mt,
+				Counter: om.Counter,
 			}
 		}
 	}
diff --git a/internal/enclave/supervisor.go b/internal/enclave/supervisor.go
index 9aaddea..3795ad0 100644
--- a/internal/enclave/supervisor.go
+++ b/internal/enclave/supervisor.go
@@ -25,6 +25,11 @@ func (s *Supervisor) Load(metrics core.Metrics) {
 	s.metrics.Merge(metrics)
 }
 
+// All the metrics that have been registered
+func (s *Supervisor) All() core.Metrics {
+	return s.metrics
+}
+
 func (s *Supervisor) Single(mt enums.Metric) *core.NavigationMetric {
 	if _, exists := s.metrics[mt]; !exists {
 		metric := &core.NavigationMetric{
diff --git a/internal/kernel/author.go b/internal/kernel/author.go
index 07ade6d..a5daec6 100644
--- a/internal/kernel/author.go
+++ b/internal/kernel/author.go
@@ -30,7 +30,7 @@ func (a *author) write(vex vexation) (string, error) {
 	path := calc.Join(directory, file)
 	active := vapour.active(vex.ancestor(), forest,
 		static.mediator.periscope.Depth(),
-		static.mediator.metrics,
+		static.mediator.Supervisor().All(),
 	)
 
 	request := &persist.MarshalRequest{
-- 
2.43.0


From d9463779c6ff3df5c095b93ac286a8ef95e9f8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 17/37] fix: spawn resume loses and repeats no node

---
 internal/enclave/enclave-defs.go         |   2 +-
 internal/feat/resume/resume-defs.go      |  15 +--
 internal/feat/resume/strategy-spawn.go   | 130 +++--------------------
 internal/kernel/kernel-defs.go           |  38 ++++++-
 internal/kernel/mediator.go              |  10 +-
 internal/kernel/navigator-agent.go       |  33 +++---
 internal/kernel/navigator-directories.go |   2 +-
 internal/kernel/navigator-universal.go   |   2 +-
 internal/level/within.go                 |  21 ++++
 9 files changed, 97 insertions(+), 156 deletions(-)
 create mode 100644 internal/level/within.go

diff --git a/internal/enclave/enclave-defs.go b/internal/enclave/enclave-defs.go
index 89dfa12..70ee349 100644
--- a/internal/enclave/enclave-defs.go
+++ b/internal/enclave/enclave-defs.go
@@ -82,7 +82,7 @@ type (
 		KernelController
 		//
 		Read(path string) ([]fs.DirEntry, error)
-		Spawn(ctx context.Context, tree string) (*KernelResult, error)
+		Spawn(ctx context.Context, active *core.ActiveState) (*KernelResult, error)
 		Bridge(active *core.ActiveState)
 		Supervisor() *Supervisor
 	}
diff --git a/internal/feat/resume/resume-defs.go b/internal/feat/resume/resume-defs.go
index 3b89259..4749204 100644
--- a/internal/feat/resume/resume-defs.go
+++ b/internal/feat/resume/resume-defs.go
@@ -5,7 +5,6 @@ import (
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/enclave"
-	"github.com/snivilised/agenor/internal/kernel"
 	"github.com/snivilised/agenor/internal/opts"
 	"github.com/snivilised/agenor/pref"
 )
@@ -15,8 +14,7 @@ import (
 // these may be internal modules, eg internal/serial/JSON).
 
 const (
-	badge             = "badge: resume"
-	followingSiblings = true
+	badge = "badge: resume"
 )
 
 type (
@@ -37,15 +35,4 @@ type (
 		forest    *core.Forest
 		resources *enclave.Resources
 	}
-
-	conclusion struct {
-		active    *core.ActiveState
-		tree      string
-		current   string
-		inclusive bool
-	}
-
-	shard struct {
-		siblings *kernel.Contents
-	}
 )
diff --git a/internal/feat/resume/strategy-spawn.go b/internal/feat/resume/strategy-spawn.go
index c44cec1..665f270 100644
--- a/internal/feat/resume/strategy-spawn.go
+++ b/internal/feat/resume/strategy-spawn.go
@@ -2,149 +2,45 @@ package resume
 
 import (
 	"context"
-	"errors"
-	"io/fs"
 
-	"github.com/snivilised/agenor/core"
-	"github.com/snivilised/agenor/enums"
 	"github.com/snivilised/agenor/internal/enclave"
-	"github.com/snivilised/agenor/internal/kernel"
 	"github.com/snivilised/agenor/internal/opts"
-	"github.com/snivilised/agenor/internal/third/lo"
-	nef "github.com/snivilised/nefilim"
 )
 
 type spawnStrategy struct {
 	baseStrategy
-	calc     nef.PathCalc
 	complete bool
 }
 
 func (s *spawnStrategy) init(_ *opts.LoadInfo) error {
-	s.calc = s.forest.T.Calc()
-
 	return nil
 }
 
 func (s *spawnStrategy) ignite() {
 }
 
-func (s *spawnStrategy) resume(ctx context.Context) (result *enclave.KernelResult, err error) {
+// resume finishes off the navigation of a tree, whose ancestors of the resume
+// point are fractured; this is to say when a navigation is halted and saved,
+// the state of the tree is that it is only partly navigated. The point at which
+// it stops, marks a dividing line in that directory, where the parent's children
+// have not all been visited; ie fractured ancestor and this fracturing occurs
+// all the way up to the root of the tree. Only the resume point and the
+// siblings that follow the dividing line are navigated.
+func (s *spawnStrategy) resume(ctx context.Context) (*enclave.KernelResult, error) {
 	// Bridge announces the availability of the ActiveState and acts as a conduit
 	// between the previous navigation session and this resume session.
 	s.mediator.Bridge(s.active)
 
-	result, err = s.crown(ctx, &conclusion{
-		active:    s.active,
-		tree:      s.active.Tree,
-		current:   s.active.CurrentPath,
-		inclusive: true,
-	})
-
-	if errors.Is(err, fs.SkipAll) {
-		// the client requested that everything else should be skipped, so
-		// there is nothing more to do
-		//
-		s.complete = true
-
-		return s.kc.Result(ctx), nil
-	}
-
-	return result, err
-}
-
-func (s *spawnStrategy) ifResult() bool {
-	return s.complete
-}
-
-// crown finishes off the navigation of a directory's contents as the
-// Spawn resume has to deal with fractured ancestors; this is to say when a
-// navigation is halted and saved, the state of the tree is that it is only
-// partly navigated. The point at which it stops, marks a dividing line in
-// that directory, where the parent's children have not all been visited;
-// ie fractured ancestor and this fracturing occurs all the way up to the root
-// of the tree. For the current node, crown identifies the following
-// siblings and invokes seed for each one and this progresses on a recursive
-// basis via crown.
-func (s *spawnStrategy) crown(ctx context.Context,
-	conc *conclusion,
-) (*enclave.KernelResult, error) {
-	if conc.current == conc.active.Tree {
-		if s.complete {
-			return nil, core.ErrDetectedSpawnStackOverflow
-		}
-
-		// reach the top, so we're done
-		//
-		s.complete = true
-		return s.kc.Result(ctx), nil
-	}
-
-	parent, child := s.calc.Split(conc.current)
-	following, err := s.following(parent,
-		child,
-		conc.inclusive,
-	)
-	if err != nil {
-		return s.kc.Result(ctx), err
-	}
-
-	following.siblings.Sort(enums.EntryTypeFile)
-	following.siblings.Sort(enums.EntryTypeDirectory)
-
-	result, err := s.seed(ctx, parent, following.siblings.All())
-
+	result, err := s.mediator.Spawn(ctx, s.active)
 	if err != nil {
 		return result, err
 	}
 
-	conc.current = parent
-	conc.inclusive = false
-
-	return s.crown(ctx, conc)
-}
-
-// seed invokes a Spawn for each new siblings it is presented with by crown.
-func (s *spawnStrategy) seed(ctx context.Context,
-	parent string,
-	entries []fs.DirEntry,
-) (*enclave.KernelResult, error) {
-	result := s.kc.Result(ctx)
-
-	for _, entry := range entries {
-		top := s.calc.Join(parent, entry.Name())
-		intermediate, err := s.mediator.Spawn(ctx, top)
-
-		if err != nil {
-			return intermediate, err
-		}
-	}
+	s.complete = true
 
-	return result, nil
+	return s.kc.Result(ctx), nil
 }
 
-func (s *spawnStrategy) following(parent, anchor string,
-	inclusive bool,
-) (*shard, error) {
-	entries, err := s.mediator.Read(parent)
-
-	if err != nil {
-		return nil, err
-	}
-
-	groups := lo.GroupBy(entries, func(entry fs.DirEntry) bool {
-		if inclusive {
-			return entry.Name() >= anchor
-		}
-
-		return entry.Name() > anchor
-	})
-
-	return &shard{
-		siblings: kernel.NewContents(
-			&s.o.Behaviours.Sort,
-			s.o.Hooks.Sort,
-			groups[followingSiblings],
-		),
-	}, nil
+func (s *spawnStrategy) ifResult() bool {
+	return s.complete
 }
diff --git a/internal/kernel/kernel-defs.go b/internal/kernel/kernel-defs.go
index 69dab8a..f82d87d 100644
--- a/internal/kernel/kernel-defs.go
+++ b/internal/kernel/kernel-defs.go
@@ -2,10 +2,13 @@ package kernel
 
 import (
 	"context"
+	"io/fs"
+	"path/filepath"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
 	"github.com/snivilised/agenor/internal/enclave"
+	"github.com/snivilised/agenor/internal/level"
 	nef "github.com/snivilised/nefilim"
 )
 
@@ -101,9 +104,10 @@ type (
 		calc         nef.PathCalc
 		magnitude    string
 		subscription enums.Subscription
-		// seeded is set when this is just one of the many sub trees being
-		// navigated on behalf of a single spawn resume session.
-		seeded bool
+		// resumeAt is the path of the node at which a previous session is resumed
+		resumeAt string
+		// spawned denotes that it is being resumed by the spawn strategy
+		spawned bool
 	}
 
 	inspection interface { // after content has been read
@@ -116,3 +120,31 @@ type (
 		clear()
 	}
 )
+
+// above determines whether the directory specified is an ancestor of the
+// resume point, which means that part of it is not navigated by this session.
+func (ns *navigationStatic) above(directory string) bool {
+	return ns.resumeAt != "" && level.Within(directory, ns.resumeAt) &&
+		!level.Within(ns.resumeAt, directory)
+}
+
+// fractured determines whether the directory specified was only partly
+// navigated by the session being resumed, and should not be invoked again.
+func (ns *navigationStatic) fractured(directory string) bool {
+	return ns.spawned && ns.above(directory)
+}
+
+// remaining obtains the entries of a directory which are still to be navigated.
+func (ns *navigationStatic) remaining(directory string,
+	entries []fs.DirEntry,
+) []fs.DirEntry {
+	if ns.fractured(directory) {
+		for i, entry := range entries {
+			if level.Within(filepath.Join(directory, entry.Name()), ns.resumeAt) {
+				return entries[i:]
+			}
+		}
+	}
+
+	return entries
+}
diff --git a/internal/kernel/mediator.go b/internal/kernel/mediator.go
index 9866dc2..fbae073 100644
--- a/internal/kernel/mediator.go
+++ b/internal/kernel/mediator.go
@@ -87,16 +87,19 @@ func (m *mediator) Read(path string) ([]fs.DirEntry, error) {
 	return m.o.Hooks.ReadDirectory.Invoke()(m.resources.Forest.T, path)
 }
 
+// Spawn navigates the part of the tree that remains to be navigated, beginning
+// at the resume point.
 func (m *mediator) Spawn(ctx context.Context,
-	tree string,
+	active *core.ActiveState,
 ) (*enclave.KernelResult, error) {
 	return m.impl.Top(ctx, &navigationStatic{
 		mediator:     m,
-		tree:         tree,
+		tree:         active.Tree,
 		calc:         m.resources.Forest.T.Calc(),
 		subscription: m.subscription,
 		magnitude:    m.facade.Magnitude(),
-		seeded:       true,
+		resumeAt:     active.CurrentPath,
+		spawned:      true,
 	})
 }
 
@@ -104,7 +107,6 @@ func (m *mediator) Spawn(ctx context.Context,
 // interrupted, into the resume traversal
 func (m *mediator) Bridge(active *core.ActiveState) {
 	m.tree = active.Tree
-	m.periscope.Offset(active.Depth)
 	m.Supervisor().Load(active.Metrics)
 }
 
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 66b3592..9ebf105 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -64,7 +64,7 @@ func (n *navigatorAgent) top(ctx context.Context,
 			})
 		},
 		func() error {
-			return conclude(ns, n.embark(ctx, ns, core.Top(ns.tree, info)))
+			return conclude(n.embark(ctx, ns, core.Top(ns.tree, info)))
 		},
 	)
 
@@ -93,15 +93,9 @@ const (
 
 // conclude obtains the error to report for the completed navigation of a
 // tree. The skip directives are requests made by the client, which at this
-// point have been fulfilled, so they are not errors. The exception to this is
-// when skipping everything during a spawn resume, where the strategy needs to
-// know not to proceed with the rest of the sub trees.
-func conclude(ns *navigationStatic, err error) error {
-	if errors.Is(err, fs.SkipDir) {
-		return nil
-	}
-
-	if errors.Is(err, fs.SkipAll) && !ns.seeded {
+// point have been fulfilled, so they are not errors.
+func conclude(err error) error {
+	if errors.Is(err, fs.SkipDir) || errors.Is(err, fs.SkipAll) {
 		return nil
 	}
 
@@ -141,6 +135,19 @@ func (n *navigatorAgent) embark(ctx context.Context,
 	return err
 }
 
+// invoke the client's callback for the node, unless this has already been done
+// by the session being resumed.
+func (n *navigatorAgent) invoke(ns *navigationStatic,
+	servant core.Servant,
+	vapour inspection,
+) error {
+	if ns.fractured(servant.Node().Path) {
+		return nil
+	}
+
+	return ns.mediator.Invoke(servant, vapour)
+}
+
 // rescue saves the session as a result of a panic and obtains the error that
 // reports the outcome.
 func (n *navigatorAgent) rescue(ns *navigationStatic,
@@ -148,11 +155,7 @@ func (n *navigatorAgent) rescue(ns *navigationStatic,
 	data any,
 ) error {
 	// The tree on the mediator always points to the original tree root
-	// requested by the user. The tree on navigation static can be different
-	// when a spawn resume is in play; ie, the Spawn is created using a child
-	// tree and this is what is set on the navigation static when a sub tree
-	// is seeded, but this would be the incorrect tree to persist, rather, we
-	// need the real ancestor that is denoted by the mediator's tree.
+	// requested by the user.
 	//
 	to, rescueErr := n.ao.defects.Panic.Rescue(n, &vex{
 		data:     data,
diff --git a/internal/kernel/navigator-directories.go b/internal/kernel/navigator-directories.go
index 94bb001..d97348c 100644
--- a/internal/kernel/navigator-directories.go
+++ b/internal/kernel/navigator-directories.go
@@ -35,7 +35,7 @@ func (n *navigatorDirectories) Traverse(ctx context.Context,
 
 	vapour, err := n.inspect(ns, servant)
 
-	if e := ns.mediator.Invoke(servant, vapour); e != nil {
+	if e := n.invoke(ns, servant, vapour); e != nil {
 		return continueTraversal, e
 	}
 
diff --git a/internal/kernel/navigator-universal.go b/internal/kernel/navigator-universal.go
index 580620c..44f70f9 100644
--- a/internal/kernel/navigator-universal.go
+++ b/internal/kernel/navigator-universal.go
@@ -35,7 +35,7 @@ func (n *navigatorUniversal) Traverse(ctx context.Context,
 
 	vapour, err := n.inspect(ns, servant)
 
-	if e := ns.mediator.Invoke(servant, vapour); e != nil {
+	if e := n.invoke(ns, servant, vapour); e != nil {
 		return continueTraversal, e
 	}
 
diff --git a/internal/level/within.go b/internal/level/within.go
new file mode 100644
index 0000000..6fd1ab3
--- /dev/null
+++ b/internal/level/within.go
@@ -0,0 +1,21 @@
+package level
+
+import (
+	"path/filepath"
+	"strings"
+)
+
+// Within determines whether the path specified is the directory itself or
+// is located beneath it.
+func Within(directory, path string) bool {
+	relative, err := filepath.Rel(directory, path)
+
+	if err != nil {
+		return false
+	}
+
+	const up = ".."
+
+	return relative != up &&
+		!strings.HasPrefix(relative, up+string(filepath.Separator))
+}
-- 
2.43.0


From eb17f78d56d52d49464ee9c532f6910b7a4339a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 18/37] fix: fastward resume finds its resume point and keeps
 the metrics

---
 internal/feat/resume/strategy-fastward.go | 26 ++++++++++++++++-------
 internal/kernel/mediator.go               | 23 +++++++++++++++++---
 life/events.go                            |  5 +++++
 3 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/internal/feat/resume/strategy-fastward.go b/internal/feat/resume/strategy-fastward.go
index 84dfd58..4df299e 100644
--- a/internal/feat/resume/strategy-fastward.go
+++ b/internal/feat/resume/strategy-fastward.go
@@ -8,6 +8,7 @@ import (
 	"github.com/snivilised/agenor/enums"
 	"github.com/snivilised/agenor/internal/enclave"
 	"github.com/snivilised/agenor/internal/filtering"
+	"github.com/snivilised/agenor/internal/level"
 	"github.com/snivilised/agenor/internal/opts"
 	"github.com/snivilised/agenor/internal/third/lo"
 	"github.com/snivilised/agenor/pref"
@@ -17,8 +18,8 @@ type FastwardFilter struct {
 	source      string
 	description string
 	scope       enums.FilterScope
-	parent      string
 	name        string
+	loose       bool
 }
 
 // Description describes filter
@@ -37,9 +38,12 @@ func (f *FastwardFilter) Source() string {
 	return f.source
 }
 
-// IsMatch does this node match the filter
+// IsMatch does this node match the filter; ie, is it the resume point or is it
+// located beneath it. The latter is relevant, because the resume point itself
+// might not be subscribed to.
 func (f *FastwardFilter) IsMatch(node *core.Node) bool {
-	return node.Extension.Name == f.name && (node.Parent.Path == f.parent || f.parent == ".")
+	return level.Within(f.source, node.Path) ||
+		(f.loose && node.Extension.Name == f.name)
 }
 
 // IsApplicable is this filter applicable to this node's scope
@@ -81,7 +85,7 @@ func (s *fastwardStrategy) init(load *opts.LoadInfo) (err error) {
 	//
 	calc := s.forest.T.Calc()
 	scope := lo.Ternary(load.State.IsDir, enums.ScopeDirectory, enums.ScopeFile)
-	parent := calc.Dir(load.State.CurrentPath)
+	current := load.State.CurrentPath
 
 	s.filter, err = filtering.New(
 		&core.FilterDef{
@@ -90,12 +94,13 @@ func (s *fastwardStrategy) init(load *opts.LoadInfo) (err error) {
 		&pref.FilterOptions{
 			Custom: &FastwardFilter{
 				description: fmt.Sprintf("[scope: '%v'], path: '%v'",
-					scope, load.State.CurrentPath,
+					scope, current,
 				),
 				scope:  scope,
-				source: load.State.CurrentPath,
-				parent: parent,
-				name:   calc.Base(load.State.CurrentPath),
+				source: current,
+				name:   calc.Base(current),
+				// the resume point has been specified just by its name
+				loose: calc.Dir(current) == "." && !level.Within(load.State.Tree, current),
 			},
 		},
 	)
@@ -134,6 +139,11 @@ func (s *fastwardStrategy) Role() enums.Role {
 }
 
 func (s *fastwardStrategy) resume(ctx context.Context) (*enclave.KernelResult, error) {
+	// when the resume point no longer exists, it is never encountered
+	defer s.resources.Binder.Controls.UnmuteAll()
+
+	s.mediator.Bridge(s.active)
+
 	return s.mediator.Snooze(ctx, s.active)
 }
 
diff --git a/internal/kernel/mediator.go b/internal/kernel/mediator.go
index fbae073..40f6858 100644
--- a/internal/kernel/mediator.go
+++ b/internal/kernel/mediator.go
@@ -26,6 +26,9 @@ type mediator struct {
 	resources    *enclave.Resources
 	metrics      core.Metrics
 	order        []enums.Role
+	// quiet is the number of outermost directories, whose descent was not
+	// announced because notifications were muted at the time.
+	quiet int
 }
 
 func NewMediator(inception *Inception,
@@ -165,14 +168,28 @@ func (m *mediator) descend(node *core.Node) bool {
 		return false
 	}
 
+	if m.resources.Binder.Controls.Descend.Muted() {
+		m.quiet = m.periscope.Depth() + 1
+	}
+
 	m.resources.Binder.Controls.Descend.Dispatch()(node)
 
 	return true
 }
 
 func (m *mediator) ascend(node *core.Node, permit bool) {
-	if permit {
-		m.periscope.Ascend()
-		m.resources.Binder.Controls.Ascend.Dispatch()(node)
+	if !permit {
+		return
 	}
+
+	depth := m.periscope.Depth()
+	m.periscope.Ascend()
+
+	if depth < m.quiet {
+		m.quiet = depth
+
+		return
+	}
+
+	m.resources.Binder.Controls.Ascend.Dispatch()(node)
 }
diff --git a/life/events.go b/life/events.go
index 13364cb..4c484ae 100644
--- a/life/events.go
+++ b/life/events.go
@@ -127,6 +127,11 @@ func (c *NotificationCtrl[F]) Unmute() {
 	c.muted = false
 }
 
+// Muted determines whether notifications are currently muted
+func (c *NotificationCtrl[F]) Muted() bool {
+	return c.muted
+}
+
 func broadcastBegin(listeners []BeginHandler) BeginHandler {
 	return func(state *BeginState) {
 		for _, listener := range listeners {
-- 
2.43.0


From e3561438d106a7cd25e9ae18386a7d373a025b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:30 +0000
Subject: [PATCH 19/37] fix: a resumed session continues in the hibernation
 state it was saved in

---
 internal/enclave/enclave-defs.go              |  4 +++
 internal/feat/hiber/hibernate-defs.go         | 20 ++++++++----
 internal/feat/hiber/hibernate-plugin.go       |  2 +-
 .../feat/hiber/hibernate-simple-profile.go    |  6 ++--
 internal/feat/resume/controller.go            |  1 +
 internal/kernel/mediator.go                   |  1 +
 internal/kernel/navigation-vapour.go          | 13 +++++++-
 internal/kernel/navigator-agent.go            | 32 +++++++++++--------
 internal/kernel/navigator-directories.go      |  7 ++--
 internal/kernel/navigator-files.go            |  7 ++--
 internal/kernel/navigator-universal.go        |  7 ++--
 11 files changed, 61 insertions(+), 39 deletions(-)

diff --git a/internal/enclave/enclave-defs.go b/internal/enclave/enclave-defs.go
index 70ee349..452287e 100644
--- a/internal/enclave/enclave-defs.go
+++ b/internal/enclave/enclave-defs.go
@@ -92,6 +92,10 @@ type (
 		Forest     *core.Forest
 		Supervisor *Supervisor
 		Binder     *opts.Binder
+		// Hibernation is the current state of hibernation, which is initialised
+		// from the session being resumed. It remains undefined when hibernation
+		// is not in use.
+		Hibernation enums.Hibernation
 	}
 
 	// Plugin used to define interaction with supplementary features
diff --git a/internal/feat/hiber/hibernate-defs.go b/internal/feat/hiber/hibernate-defs.go
index b9c34d3..f0a9010 100644
--- a/internal/feat/hiber/hibernate-defs.go
+++ b/internal/feat/hiber/hibernate-defs.go
@@ -44,21 +44,29 @@ type (
 	}
 
 	profile interface {
-		init(controls *life.Controls) error
+		init(controls *life.Controls, resources *enclave.Resources) error
 		next(servant core.Servant, node *core.Node,
 			inspection enclave.Inspection,
 		) (bool, error)
 	}
 
 	common struct {
-		ho       *core.HibernateOptions
-		fo       *pref.FilterOptions
-		triggers triggers
-		controls *life.Controls
+		ho        *core.HibernateOptions
+		fo        *pref.FilterOptions
+		triggers  triggers
+		controls  *life.Controls
+		resources *enclave.Resources
 	}
 )
 
-func launch(ho *core.HibernateOptions) enums.Hibernation {
+// launch obtains the initial state. When resuming, this is the state that was in
+// effect at the resume point. There is nothing left to navigate once hibernation
+// has been retired, so this can't be the state of the session being resumed.
+func launch(ho *core.HibernateOptions, loaded enums.Hibernation) enums.Hibernation {
+	if loaded == enums.HibernationPending || loaded == enums.HibernationActive {
+		return loaded
+	}
+
 	if ho.WakeAt != nil {
 		return enums.HibernationPending
 	}
diff --git a/internal/feat/hiber/hibernate-plugin.go b/internal/feat/hiber/hibernate-plugin.go
index 90c8129..37db21a 100644
--- a/internal/feat/hiber/hibernate-plugin.go
+++ b/internal/feat/hiber/hibernate-plugin.go
@@ -39,7 +39,7 @@ func (p *plugin) Next(servant core.Servant,
 }
 
 func (p *plugin) Init(pi *enclave.PluginInit) error {
-	if err := p.profile.init(pi.Controls); err != nil {
+	if err := p.profile.init(pi.Controls, pi.Resources); err != nil {
 		return err
 	}
 
diff --git a/internal/feat/hiber/hibernate-simple-profile.go b/internal/feat/hiber/hibernate-simple-profile.go
index cdd801e..2f10838 100644
--- a/internal/feat/hiber/hibernate-simple-profile.go
+++ b/internal/feat/hiber/hibernate-simple-profile.go
@@ -18,9 +18,10 @@ type simple struct {
 	current state
 }
 
-func (p *simple) init(controls *life.Controls) error {
+func (p *simple) init(controls *life.Controls, resources *enclave.Resources) error {
 	p.states = p.create()
 	p.controls = controls
+	p.resources = resources
 
 	if p.common.ho.WakeAt != nil {
 		filter, err := filtering.New(p.common.ho.WakeAt, p.common.fo)
@@ -56,13 +57,14 @@ func (p *simple) init(controls *life.Controls) error {
 		}
 	}
 
-	p.transition(launch(p.common.ho))
+	p.transition(launch(p.common.ho, resources.Hibernation))
 
 	return nil
 }
 
 func (p *simple) transition(en enums.Hibernation) {
 	p.current = p.states[en]
+	p.resources.Hibernation = en
 }
 
 func (p *simple) next(servant core.Servant, node *core.Node, inspection enclave.Inspection) (bool, error) {
diff --git a/internal/feat/resume/controller.go b/internal/feat/resume/controller.go
index 8ed7c2a..83dabec 100644
--- a/internal/feat/resume/controller.go
+++ b/internal/feat/resume/controller.go
@@ -47,6 +47,7 @@ func newStrategy(inception *kernel.Inception,
 ) (strategy Strategy) {
 	load := inception.Harvest.Loaded()
 	relic, _ := inception.Facade.(*pref.Relic)
+	inception.Resources.Hibernation = load.State.Hibernation
 	base := baseStrategy{
 		o:         load.O,
 		active:    load.State,
diff --git a/internal/kernel/mediator.go b/internal/kernel/mediator.go
index 40f6858..d2695a6 100644
--- a/internal/kernel/mediator.go
+++ b/internal/kernel/mediator.go
@@ -156,6 +156,7 @@ func (m *mediator) Snooze(ctx context.Context,
 		calc:         m.resources.Forest.T.Calc(),
 		subscription: m.subscription,
 		magnitude:    m.facade.Magnitude(),
+		resumeAt:     active.CurrentPath,
 	})
 }
 
diff --git a/internal/kernel/navigation-vapour.go b/internal/kernel/navigation-vapour.go
index ec6c627..25eccbf 100644
--- a/internal/kernel/navigation-vapour.go
+++ b/internal/kernel/navigation-vapour.go
@@ -15,9 +15,20 @@ type (
 		present *core.Node
 		cargo   *Contents
 		ents    []fs.DirEntry
+		// hibernation state in effect, before the client's callback is invoked
+		// for the current node
+		hibernation enums.Hibernation
 	}
 )
 
+func newVapour(ns *navigationStatic, current *core.Node) *navigationVapour {
+	return &navigationVapour{
+		ns:          ns,
+		present:     current,
+		hibernation: ns.mediator.resources.Hibernation,
+	}
+}
+
 func (v *navigationVapour) static() *navigationStatic {
 	return v.ns
 }
@@ -56,7 +67,7 @@ func (v *navigationVapour) active(tree string,
 			IsRelative: forest.R.IsRelative(),
 		},
 		Subscription: v.ns.subscription,
-		Hibernation:  enums.HibernationRetired, // TODO:check
+		Hibernation:  v.hibernation,
 		CurrentPath:  v.present.Path,
 		IsDir:        v.present.IsDirectory(),
 		Depth:        depth,
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 9ebf105..f82cc1a 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -119,12 +119,11 @@ func (n *navigatorAgent) embark(ctx context.Context,
 	ns *navigationStatic,
 	top *core.Node,
 ) (err error) {
+	vapour := newVapour(ns, top)
+
 	defer func() {
 		if data := recover(); data != nil {
-			err = n.rescue(ns, &navigationVapour{
-				ns:      ns,
-				present: top,
-			}, data)
+			err = n.rescue(ns, vapour, data)
 		}
 	}()
 
@@ -190,23 +189,34 @@ func (n *navigatorAgent) travel(ctx context.Context,
 	ns *navigationStatic,
 	vapour inspection,
 ) (skip bool, err error) {
+	// point at which the session is to be resumed, if it is interrupted
+	point := vapour
+
 	defer func() {
 		if data := recover(); data != nil {
-			skip, err = skipTraversal, n.rescue(ns, vapour, data)
+			skip, err = skipTraversal, n.rescue(ns, point, data)
 		}
 	}()
 
 	var (
-		parent = vapour.Current()
+		parent  = vapour.Current()
+		partial = ns.above(parent.Path)
 	)
 
-	for _, entry := range vapour.Entries() {
+	for _, entry := range ns.remaining(parent.Path, vapour.Entries()) {
 		if ce := ctx.Err(); ce != nil {
 			return continueTraversal, ce
 		}
 
 		path := filepath.Join(parent.Path, entry.Name())
 		info, e := entry.Info()
+		node := core.New(path, entry, info, parent, e)
+
+		if partial {
+			// the session can't be resumed at the start of this directory, because
+			// this isn't where the current session began.
+			point = newVapour(ns, node)
+		}
 
 		// TODO: check sampling; should happen transparently, by plugin
 
@@ -214,13 +224,7 @@ func (n *navigatorAgent) travel(ctx context.Context,
 		//
 		if progress, err := ns.mediator.impl.Traverse(
 			ctx, ns, servant{
-				node: core.New(
-					path,
-					entry,
-					info,
-					parent,
-					e,
-				),
+				node: node,
 			},
 		); !progress {
 			if err != nil {
diff --git a/internal/kernel/navigator-directories.go b/internal/kernel/navigator-directories.go
index d97348c..87e8f14 100644
--- a/internal/kernel/navigator-directories.go
+++ b/internal/kernel/navigator-directories.go
@@ -55,11 +55,8 @@ func (n *navigatorDirectories) inspect(ns *navigationStatic,
 ) (inspection, error) {
 	var (
 		current = servant.Node()
-		vapour  = &navigationVapour{
-			ns:      ns,
-			present: current,
-		}
-		err error
+		vapour  = newVapour(ns, current)
+		err     error
 	)
 
 	// for the directories navigator, we ignore the user defined setting in
diff --git a/internal/kernel/navigator-files.go b/internal/kernel/navigator-files.go
index 32bbb74..9effed4 100644
--- a/internal/kernel/navigator-files.go
+++ b/internal/kernel/navigator-files.go
@@ -65,11 +65,8 @@ func (n *navigatorFiles) inspect(ns *navigationStatic,
 ) (inspection, error) {
 	var (
 		current = servant.Node()
-		vapour  = &navigationVapour{
-			ns:      ns,
-			present: current,
-		}
-		err error
+		vapour  = newVapour(ns, current)
+		err     error
 	)
 
 	if vapour.present.IsDirectory() {
diff --git a/internal/kernel/navigator-universal.go b/internal/kernel/navigator-universal.go
index 44f70f9..87e49bd 100644
--- a/internal/kernel/navigator-universal.go
+++ b/internal/kernel/navigator-universal.go
@@ -55,11 +55,8 @@ func (n *navigatorUniversal) inspect(ns *navigationStatic,
 ) (inspection, error) {
 	var (
 		current = servant.Node()
-		vapour  = &navigationVapour{
-			ns:      ns,
-			present: current,
-		}
-		err error
+		vapour  = newVapour(ns, current)
+		err     error
 	)
 
 	if current.IsDirectory() {
-- 
2.43.0


From db8b9c4e9c65090608bcea522849ccca61ac2f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:48 +0000
Subject: [PATCH 20/37] fix: the text of the traversal saved error names the
 destination

---
 locale/messages-errors.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/locale/messages-errors.go b/locale/messages-errors.go
index ca79c3e..b669474 100644
--- a/locale/messages-errors.go
+++ b/locale/messages-errors.go
@@ -739,7 +739,9 @@ type TraversalSavedError struct {
 }
 
 func (e TraversalSavedError) Error() string {
-	return fmt.Sprintf("%v, %v", e.Wrapped.Error(), li18ngo.Text(e.Data))
+	return fmt.Sprintf("%v, %v (%v)",
+		e.Wrapped.Error(), li18ngo.Text(e.Data), e.Destination,
+	)
 }
 
 func (e TraversalSavedError) Unwrap() error {
-- 
2.43.0


From 27700e31830f32cb77e7345490db23026bd70e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 21/37] fix: a panic while rescuing a session is not passed on
 to the client

---
 internal/kernel/navigator-agent.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index f82cc1a..196178e 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -3,6 +3,7 @@ package kernel
 import (
 	"context"
 	"errors"
+	"fmt"
 	"io/fs"
 	"path/filepath"
 
@@ -156,7 +157,7 @@ func (n *navigatorAgent) rescue(ns *navigationStatic,
 	// The tree on the mediator always points to the original tree root
 	// requested by the user.
 	//
-	to, rescueErr := n.ao.defects.Panic.Rescue(n, &vex{
+	to, rescueErr := n.attempt(&vex{
 		data:     data,
 		anc:      ns.mediator.tree,
 		vap:      vapour,
@@ -176,6 +177,17 @@ func (n *navigatorAgent) rescue(ns *navigationStatic,
 	return locale.NewTraversalSavedError(to, panicErr)
 }
 
+// attempt to save the session. Should this panic as well, then it isn't saved.
+func (n *navigatorAgent) attempt(v *vex) (to string, err error) {
+	defer func() {
+		if data := recover(); data != nil {
+			to, err = "", fmt.Errorf("panic occurred during rescue: %v", data)
+		}
+	}()
+
+	return n.ao.defects.Panic.Rescue(n, v)
+}
+
 // travel is the general recursive navigation function which returns a bool
 // indicating whether we continue travelling or not in response to an
 // error.
-- 
2.43.0


From cf756b185be054fdf339f64bac52d263f3856bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 22/37] fix: a session whose resume point can't be encoded is
 not reported as saved

---
 core/errors.go                | 22 ++++++++++++++++++++++
 internal/persist/marshaler.go |  9 +++++++++
 2 files changed, 31 insertions(+)

diff --git a/core/errors.go b/core/errors.go
index 6173bd2..fae3c27 100644
--- a/core/errors.go
+++ b/core/errors.go
@@ -222,3 +222,25 @@ var ErrWrongResumeFacade = errors.New(
 var ErrNilForest = errors.New(
 	"forest is nil",
 )
+
+// ❌ PathNotEncodable error
+
+// NewPathNotEncodableError creates an untranslated error to
+// indicate that a path can't be saved, because it isn't valid text.
+func NewPathNotEncodableError(path string) error {
+	return errors.Wrap(
+		errPathNotEncodable,
+		fmt.Sprintf("path: %q", path),
+	)
+}
+
+// IsPathNotEncodableError uses errors.Is to check
+// if the err's error tree contains the core error:
+// PathNotEncodable
+func IsPathNotEncodableError(err error) bool {
+	return errors.Is(err, errPathNotEncodable)
+}
+
+var errPathNotEncodable = errors.New(
+	"path can't be encoded",
+)
diff --git a/internal/persist/marshaler.go b/internal/persist/marshaler.go
index 1366e70..5347ba9 100644
--- a/internal/persist/marshaler.go
+++ b/internal/persist/marshaler.go
@@ -3,6 +3,7 @@ package persist
 import (
 	ejson "encoding/json"
 	"io/fs"
+	"unicode/utf8"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/enclave"
@@ -50,6 +51,14 @@ type (
 )
 
 func Marshal(request *MarshalRequest) (*MarshalResult, error) {
+	// a path which is not valid text would not survive the JSON encoding, so
+	// could not be found again
+	for _, path := range []string{request.Active.Tree, request.Active.CurrentPath} {
+		if !utf8.ValidString(path) {
+			return nil, core.NewPathNotEncodableError(path)
+		}
+	}
+
 	jo := ToJSON(request.O)
 	result := &MarshalResult{
 		JO:     jo,
-- 
2.43.0


From 26407f8468b2e92118bd624a1938ed6502adbf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:52 +0000
Subject: [PATCH 23/37] fix: a session isn't saved over another one saved in
 the same second

---
 internal/kernel/author.go | 46 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/internal/kernel/author.go b/internal/kernel/author.go
index a5daec6..9b30e70 100644
--- a/internal/kernel/author.go
+++ b/internal/kernel/author.go
@@ -1,15 +1,27 @@
 package kernel
 
 import (
+	"errors"
 	"fmt"
+	"io/fs"
 	"strings"
+	"sync"
 
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/persist"
 	"github.com/snivilised/agenor/pref"
+	"github.com/snivilised/agenor/tfs"
 	nef "github.com/snivilised/nefilim"
 )
 
+const (
+	extension = ".json"
+)
+
+// saving guards the choice of a free file name until the file is written, as
+// sessions may be saved at the same time.
+var saving sync.Mutex
+
 type author struct {
 	o     *pref.Options
 	perms core.Permissions
@@ -27,7 +39,14 @@ func (a *author) write(vex vexation) (string, error) {
 		return "", err
 	}
 
-	path := calc.Join(directory, file)
+	saving.Lock()
+	defer saving.Unlock()
+
+	path, err := a.vacant(fS, directory, file)
+	if err != nil {
+		return "", err
+	}
+
 	active := vapour.active(vex.ancestor(), forest,
 		static.mediator.periscope.Depth(),
 		static.mediator.Supervisor().All(),
@@ -41,11 +60,32 @@ func (a *author) write(vex vexation) (string, error) {
 		FS:     fS,
 	}
 
-	_, err := persist.Marshal(request)
+	_, err = persist.Marshal(request)
 
 	return path, err
 }
 
+// vacant finds the path of a file that does not exist yet, because the
+// time stamp in the name does not tell sessions apart that are saved within
+// the same second.
+func (a *author) vacant(fS tfs.TraversalFS, directory, file string) (string, error) {
+	path := fS.Calc().Join(directory, file+extension)
+
+	for i := 1; ; i++ {
+		_, err := fS.Stat(path)
+
+		if errors.Is(err, fs.ErrNotExist) {
+			return path, nil
+		}
+
+		if err != nil {
+			return "", err
+		}
+
+		path = fS.Calc().Join(directory, fmt.Sprintf("%v.%v%v", file, i, extension))
+	}
+}
+
 func (a *author) destination(v vexation, calc nef.PathCalc) (directory, file string) {
 	mag := v.magnitude()
 	cause := v.cause()
@@ -56,7 +96,7 @@ func (a *author) destination(v vexation, calc nef.PathCalc) (directory, file str
 		directory = calc.Join(directory, core.ResumeTail)
 	}
 
-	file = fmt.Sprintf("%v.%v.%v.json",
+	file = fmt.Sprintf("%v.%v.%v",
 		mag, cause, now.Format(core.FileSystemTimeFormat),
 	)
 
-- 
2.43.0


From 97a0569de34d4ad18071776d78765e7c5a40fac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 24/37] fix: fastward resume continues when its resume point
 isn't encountered

---
 internal/enclave/enclave-defs.go          |  3 +++
 internal/feat/resume/strategy-fastward.go |  2 +-
 internal/kernel/kernel-defs.go            | 22 +++++++++++++++-------
 internal/kernel/navigator-agent.go        | 11 ++++++++---
 4 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/internal/enclave/enclave-defs.go b/internal/enclave/enclave-defs.go
index 452287e..c99134c 100644
--- a/internal/enclave/enclave-defs.go
+++ b/internal/enclave/enclave-defs.go
@@ -96,6 +96,9 @@ type (
 		// from the session being resumed. It remains undefined when hibernation
 		// is not in use.
 		Hibernation enums.Hibernation
+		// Passed denotes that navigation is beyond the resume point of the session
+		// being resumed, which might not have been encountered.
+		Passed bool
 	}
 
 	// Plugin used to define interaction with supplementary features
diff --git a/internal/feat/resume/strategy-fastward.go b/internal/feat/resume/strategy-fastward.go
index 4df299e..c01e7e6 100644
--- a/internal/feat/resume/strategy-fastward.go
+++ b/internal/feat/resume/strategy-fastward.go
@@ -123,7 +123,7 @@ func (s *fastwardStrategy) Next(servant core.Servant,
 	_ enclave.Inspection,
 ) (match bool, err error) {
 	node := servant.Node()
-	match = s.filter.IsMatch(node)
+	match = s.filter.IsMatch(node) || s.resources.Passed
 
 	if match {
 		err = s.mediator.Unwind(s.role)
diff --git a/internal/kernel/kernel-defs.go b/internal/kernel/kernel-defs.go
index f82d87d..debce87 100644
--- a/internal/kernel/kernel-defs.go
+++ b/internal/kernel/kernel-defs.go
@@ -134,17 +134,25 @@ func (ns *navigationStatic) fractured(directory string) bool {
 	return ns.spawned && ns.above(directory)
 }
 
-// remaining obtains the entries of a directory which are still to be navigated.
+// remaining obtains the entries of a directory which are still to be navigated
+// and the number of those, at the beginning, that are not beyond the resume
+// point. There are none, when the resume point no longer exists.
 func (ns *navigationStatic) remaining(directory string,
 	entries []fs.DirEntry,
-) []fs.DirEntry {
-	if ns.fractured(directory) {
-		for i, entry := range entries {
-			if level.Within(filepath.Join(directory, entry.Name()), ns.resumeAt) {
-				return entries[i:]
+) (remain []fs.DirEntry, leading int) {
+	if !ns.above(directory) {
+		return entries, 0
+	}
+
+	for i, entry := range entries {
+		if level.Within(filepath.Join(directory, entry.Name()), ns.resumeAt) {
+			if ns.spawned {
+				return entries[i:], 1
 			}
+
+			return entries, i + 1
 		}
 	}
 
-	return entries
+	return entries, 0
 }
diff --git a/internal/kernel/navigator-agent.go b/internal/kernel/navigator-agent.go
index 196178e..213dc12 100644
--- a/internal/kernel/navigator-agent.go
+++ b/internal/kernel/navigator-agent.go
@@ -211,11 +211,12 @@ func (n *navigatorAgent) travel(ctx context.Context,
 	}()
 
 	var (
-		parent  = vapour.Current()
-		partial = ns.above(parent.Path)
+		parent           = vapour.Current()
+		partial          = ns.above(parent.Path)
+		entries, leading = ns.remaining(parent.Path, vapour.Entries())
 	)
 
-	for _, entry := range ns.remaining(parent.Path, vapour.Entries()) {
+	for i, entry := range entries {
 		if ce := ctx.Err(); ce != nil {
 			return continueTraversal, ce
 		}
@@ -224,6 +225,10 @@ func (n *navigatorAgent) travel(ctx context.Context,
 		info, e := entry.Info()
 		node := core.New(path, entry, info, parent, e)
 
+		if partial && i >= leading {
+			ns.mediator.resources.Passed = true
+		}
+
 		if partial {
 			// the session can't be resumed at the start of this directory, because
 			// this isn't where the current session began.
-- 
2.43.0


From 27272995043628a9cafb59392fa04aa339ced174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:53 +0000
Subject: [PATCH 25/37] fix: a resume file which isn't a complete session is
 refused instead of panicking

---
 core/errors.go                | 20 ++++++++++++++++++++
 extent.go                     |  2 +-
 internal/persist/marshaler.go | 31 +++++++++++++++++++++++++++++++
 3 files changed, 52 insertions(+), 1 deletion(-)

diff --git a/core/errors.go b/core/errors.go
index fae3c27..a51803f 100644
--- a/core/errors.go
+++ b/core/errors.go
@@ -244,3 +244,23 @@ func IsPathNotEncodableError(err error) bool {
 var errPathNotEncodable = errors.New(
 	"path can't be encoded",
 )
+
+// ❌ IncompleteSession error
+
+// NewIncompleteSessionError creates an untranslated error to
+// indicate that a resume file does not describe a complete session.
+func NewIncompleteSessionError(missing string) error {
+	return errors.Wrap(
+		errIncompleteSession,
+		fmt.Sprintf("missing: %s", missing),
+	)
+}
+
+// IsIncompleteSessionError uses errors.Is to check
+// if the err's error tree contains the core error:
+// IncompleteSession
+func IsIncompleteSessionError(err error) bool {
+	return errors.Is(err, errIncompleteSession)
+}
+
+var errIncompleteSession = errors.New("incomplete session")
diff --git a/extent.go b/extent.go
index 218a6bf..9aef320 100644
--- a/extent.go
+++ b/extent.go
@@ -99,7 +99,7 @@ func (x *resumeExtent) options(addons []Addon,
 
 	x.loaded = loaded
 
-	if handler := x.seek(addons); handler != nil {
+	if handler := x.seek(addons); handler != nil && err == nil {
 		handler.OnLoad(loaded.State)
 	}
 
diff --git a/internal/persist/marshaler.go b/internal/persist/marshaler.go
index 5347ba9..9950a93 100644
--- a/internal/persist/marshaler.go
+++ b/internal/persist/marshaler.go
@@ -2,6 +2,7 @@ package persist
 
 import (
 	ejson "encoding/json"
+	"fmt"
 	"io/fs"
 	"unicode/utf8"
 
@@ -84,6 +85,32 @@ func Marshal(request *MarshalRequest) (*MarshalResult, error) {
 	return result, request.FS.WriteFile(request.Path, data, request.Perm)
 }
 
+// complete checks that the result of reading a resume file contains all the
+// parts that a session can't be resumed without.
+func (r *MarshalResult) complete() error {
+	switch {
+	case r.JO == nil:
+		return core.NewIncompleteSessionError("options")
+
+	case r.Active == nil:
+		return core.NewIncompleteSessionError("active state")
+
+	case r.Active.Tree == "":
+		return core.NewIncompleteSessionError("tree")
+
+	case r.Active.CurrentPath == "":
+		return core.NewIncompleteSessionError("current path")
+	}
+
+	for mt, metric := range r.Active.Metrics {
+		if metric == nil {
+			return core.NewIncompleteSessionError(fmt.Sprintf("metric %d", mt))
+		}
+	}
+
+	return nil
+}
+
 func Unmarshal(request *UnmarshalRequest,
 	tampers ...TamperFunc,
 ) (*UnmarshalResult, error) {
@@ -105,6 +132,10 @@ func Unmarshal(request *UnmarshalRequest,
 		fn(&mr)
 	}
 
+	if err := mr.complete(); err != nil {
+		return nil, err
+	}
+
 	result := UnmarshalResult{
 		O:      FromJSON(mr.JO),
 		Active: mr.Active,
-- 
2.43.0


From 699c6bc889a0bfba1e45f616d48420a8e3076ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 26/37] fix: filter definitions that no filter can be built
 from are refused instead of panicking

---
 internal/filtering/builders.go   | 14 +++++++++++++-
 internal/filtering/child.go      | 12 +++++++-----
 internal/filtering/new-filter.go | 10 +++++++++-
 internal/filtering/sample.go     | 15 ++++++++++-----
 4 files changed, 39 insertions(+), 12 deletions(-)

diff --git a/internal/filtering/builders.go b/internal/filtering/builders.go
index 1ac401d..be819de 100644
--- a/internal/filtering/builders.go
+++ b/internal/filtering/builders.go
@@ -32,6 +32,9 @@ func buildNativeNodeFilter(definition *core.FilterDef) (core.TraverseFilter, err
 
 	case enums.FilterTypeUndefined:
 		return nil, locale.ErrFilterMissingType
+
+	default:
+		return nil, locale.ErrFilterMissingType
 	}
 
 	if err != nil {
@@ -63,7 +66,12 @@ func buildPolyNodeFilter(definition *core.FilterDef,
 	if definition.Type != enums.FilterTypePoly {
 		return nil, nil
 	}
-	polyDef := fo.Node.Poly
+
+	if definition.Poly == nil {
+		return nil, locale.ErrPolyFilterIsInvalid
+	}
+
+	polyDef := definition.Poly
 
 	// enforce the correct filter scopes
 	//
@@ -119,6 +127,10 @@ func buildConstituent(definition *core.FilterDef,
 		return nil, err
 	}
 
+	if filter == nil {
+		return nil, locale.ErrFilterIsNil
+	}
+
 	if err := filter.Validate(); err != nil {
 		return nil, err
 	}
diff --git a/internal/filtering/child.go b/internal/filtering/child.go
index b81dcea..f630a56 100644
--- a/internal/filtering/child.go
+++ b/internal/filtering/child.go
@@ -37,16 +37,18 @@ func NewChild(def *core.ChildFilterDef) (core.ChildTraverseFilter, error) {
 	case enums.FilterTypeCustom:
 		return nil, locale.ErrFilterCustomNotSupported
 
+	case enums.FilterTypePoly:
+		return nil, locale.ErrPolyFilterIsInvalid
+
 	case enums.FilterTypeUndefined:
 		return nil, locale.ErrFilterUndefined
 
-	case enums.FilterTypePoly:
+	default:
+		return nil, locale.ErrFilterUndefined
 	}
 
-	if filter != nil {
-		if err := filter.Validate(); err != nil {
-			return nil, err
-		}
+	if err := filter.Validate(); err != nil {
+		return nil, err
 	}
 
 	return filter, nil
diff --git a/internal/filtering/new-filter.go b/internal/filtering/new-filter.go
index 43082e5..5003c4b 100644
--- a/internal/filtering/new-filter.go
+++ b/internal/filtering/new-filter.go
@@ -2,13 +2,14 @@ package filtering
 
 import (
 	"github.com/snivilised/agenor/core"
+	"github.com/snivilised/agenor/locale"
 	"github.com/snivilised/agenor/pref"
 )
 
 func New(definition *core.FilterDef,
 	fo *pref.FilterOptions,
 ) (core.TraverseFilter, error) {
-	return OrFuncE(
+	filter, err := OrFuncE(
 		func() (core.TraverseFilter, error) {
 			return buildPolyNodeFilter(definition, fo, buildNativeNodeFilter, getCustomFilter)
 		},
@@ -19,4 +20,11 @@ func New(definition *core.FilterDef,
 			return buildNativeNodeFilter(definition)
 		},
 	)
+
+	if err == nil && filter == nil {
+		// a custom filter has been asked for, but not provided
+		err = locale.ErrFilterIsNil
+	}
+
+	return filter, err
 }
diff --git a/internal/filtering/sample.go b/internal/filtering/sample.go
index 2769453..bba74af 100644
--- a/internal/filtering/sample.go
+++ b/internal/filtering/sample.go
@@ -50,7 +50,6 @@ func NewSample(def *core.SampleFilterDef,
 	}
 
 	switch def.Type {
-	case enums.FilterTypeGlobEx:
 	case enums.FilterTypeRegex:
 		filter = &SampleRegex{
 			Sample: base,
@@ -65,15 +64,21 @@ func NewSample(def *core.SampleFilterDef,
 			return nil, locale.ErrFilterIsNil
 		}
 		filter = def.Custom
+	case enums.FilterTypeGlobEx:
+		return nil, locale.ErrFilterUndefined
+
 	case enums.FilterTypePoly:
+		return nil, locale.ErrPolyFilterIsInvalid
+
 	case enums.FilterTypeUndefined:
 		return nil, locale.ErrFilterMissingType
+
+	default:
+		return nil, locale.ErrFilterMissingType
 	}
 
-	if filter != nil {
-		if err := filter.Validate(); err != nil {
-			return nil, err
-		}
+	if err := filter.Validate(); err != nil {
+		return nil, err
 	}
 
 	return filter, nil
-- 
2.43.0


From 7e49906336b24e39041a6409b178a57b9f4f9b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 27/37] fix: malformed glob patterns are refused instead of
 matching nothing

---
 internal/filtering/glob-ex.go | 15 ++++++++++++++-
 internal/filtering/glob.go    | 36 +++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/internal/filtering/glob-ex.go b/internal/filtering/glob-ex.go
index 15bf900..3652d28 100644
--- a/internal/filtering/glob-ex.go
+++ b/internal/filtering/glob-ex.go
@@ -34,7 +34,10 @@ func createGlobExFilter(def *core.FilterDef,
 
 	directoryBase, directoryExclusion := splitGlob(segments[0])
 
-	gs, err = newSpec(directoryBase, directoryExclusion, patterns)
+	if gs, err = newSpec(directoryBase, directoryExclusion, patterns); err != nil {
+		return nil, err
+	}
+
 	filter = &GlobEx{
 		Base: Base{
 			name:            def.Description,
@@ -170,6 +173,16 @@ func newSpec(directoryBase, directoryExclusion string, patterns []string) (*glob
 		return nil, err
 	}
 
+	globs := lo.Map(specs, func(spec *patternSpec, _ int) string {
+		return spec.matcher
+	})
+
+	for _, glob := range append(globs, directoryBase, directoryExclusion) {
+		if err := validGlob(glob); err != nil {
+			return nil, err
+		}
+	}
+
 	return &globSpec{
 		specs:              specs,
 		directoryGlob:      directoryBase,
diff --git a/internal/filtering/glob.go b/internal/filtering/glob.go
index f0d8be9..db94c33 100644
--- a/internal/filtering/glob.go
+++ b/internal/filtering/glob.go
@@ -4,6 +4,7 @@ import (
 	"io/fs"
 	"path/filepath"
 
+	"github.com/pkg/errors"
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/internal/third/lo"
 )
@@ -27,6 +28,25 @@ type Glob struct {
 	Base
 }
 
+// Validate ensures the filter definition is valid
+func (f *Glob) Validate() error {
+	if err := f.Base.Validate(); err != nil {
+		return err
+	}
+
+	return validGlob(f.pattern)
+}
+
+// validGlob checks that a pattern is well formed; a malformed pattern
+// does not match anything.
+func validGlob(pattern string) error {
+	if _, err := filepath.Match(pattern, ""); err != nil {
+		return errors.Wrapf(err, "glob: %q", pattern)
+	}
+
+	return nil
+}
+
 // IsMatch does this node match the filter
 func (f *Glob) IsMatch(node *core.Node) bool {
 	if f.IsApplicable(node) {
@@ -43,6 +63,11 @@ type ChildGlob struct {
 	Child
 }
 
+// Validate ensures the filter definition is valid
+func (f *ChildGlob) Validate() error {
+	return validGlob(f.Pattern)
+}
+
 // Matching returns the collection of files contained within this
 // node's directory that matches this filter.
 func (f *ChildGlob) Matching(children []fs.DirEntry) []fs.DirEntry {
@@ -66,6 +91,17 @@ type SampleGlob struct {
 	Sample
 }
 
+// Validate ensures the filter definition is valid
+func (f *SampleGlob) Validate() error {
+	if err := f.Base.Validate(); err != nil {
+		return err
+	}
+
+	return validGlob(f.pattern)
+}
+
+// Matching returns those entries which match, together with those that
+// are not in scope.
 func (f *SampleGlob) Matching(entries []fs.DirEntry) []fs.DirEntry {
 	filterable, bypass := f.fetch(entries)
 
-- 
2.43.0


From 56cfa4919440cd39928a125fb4e07120ef0cd3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 28/37] fix: the process wide broker synchronises access to its
 registrations

---
 internal/services/broker.go  |  6 ++--
 internal/third/bus/broker.go | 58 ++++++++++++++++++++++++++++++++----
 2 files changed, 54 insertions(+), 10 deletions(-)

diff --git a/internal/services/broker.go b/internal/services/broker.go
index dc3cef3..199fd98 100644
--- a/internal/services/broker.go
+++ b/internal/services/broker.go
@@ -51,10 +51,8 @@ func Reset() *bus.Broker {
 
 	b.RegisterTopics(topics...)
 
-	// Access to the broker is currently un-synchronised; that is because interaction
-	// with the broker is only expected to come from a single thread. However, if we
-	// really wanted to grant access to it to other threads, we can define a wrapper
-	// function/object around it that implements synchronisation using locks.
+	// The broker is shared by all sessions in the process, so it synchronises
+	// access to its registrations.
 	//
 	Broker = b
 
diff --git a/internal/third/bus/broker.go b/internal/third/bus/broker.go
index c8a3a6d..1368e4e 100644
--- a/internal/third/bus/broker.go
+++ b/internal/third/bus/broker.go
@@ -8,6 +8,7 @@ import (
 	"context"
 	"fmt"
 	"regexp"
+	"sync"
 	"time"
 
 	"github.com/snivilised/agenor/core"
@@ -17,6 +18,7 @@ import (
 type (
 	// Broker controls the message bus
 	Broker struct {
+		mx       sync.RWMutex // guards topics, handlers and gen
 		gen      Next
 		topics   map[string][]Handler
 		handlers map[string]Handler
@@ -125,7 +127,7 @@ func WithOccurredAt(t time.Time) MessageOption {
 func (b *Broker) Emit(ctx context.Context,
 	topic string, data interface{},
 ) error {
-	handlers, ok := b.topics[topic]
+	handlers, ok := b.topicHandlers(topic)
 
 	if !ok {
 		return core.NewBrokerTopicNotFoundError(topic)
@@ -134,12 +136,12 @@ func (b *Broker) Emit(ctx context.Context,
 	source, _ := ctx.Value(CtxKeySource).(string)
 	txID, _ := ctx.Value(CtxKeyTxID).(string)
 	if txID == empty {
-		txID = b.gen()
+		txID = b.next()
 		ctx = context.WithValue(ctx, CtxKeyTxID, txID)
 	}
 
 	e := Message{
-		ID:         b.gen(),
+		ID:         b.next(),
 		Topic:      topic,
 		Data:       data,
 		OccurredAt: time.Now(),
@@ -159,7 +161,7 @@ func (b *Broker) Emit(ctx context.Context,
 func (b *Broker) EmitWithOpts(ctx context.Context,
 	topic string, data interface{}, options ...MessageOption,
 ) error {
-	handlers, ok := b.topics[topic]
+	handlers, ok := b.topicHandlers(topic)
 
 	if !ok {
 		return core.NewBrokerTopicNotFoundError(topic)
@@ -171,10 +173,10 @@ func (b *Broker) EmitWithOpts(ctx context.Context,
 	}
 
 	if e.TxID == empty {
-		e.TxID = b.gen()
+		e.TxID = b.next()
 	}
 	if e.ID == empty {
-		e.ID = b.gen()
+		e.ID = b.next()
 	}
 	if e.OccurredAt.IsZero() {
 		e.OccurredAt = time.Now()
@@ -189,6 +191,9 @@ func (b *Broker) EmitWithOpts(ctx context.Context,
 
 // Topics lists the all registered topics
 func (b *Broker) Topics() []string {
+	b.mx.RLock()
+	defer b.mx.RUnlock()
+
 	topics, index := make([]string, len(b.topics)), 0
 
 	for topic := range b.topics {
@@ -201,6 +206,9 @@ func (b *Broker) Topics() []string {
 
 // RegisterTopics registers topics and fulfills handlers
 func (b *Broker) RegisterTopics(topics ...string) {
+	b.mx.Lock()
+	defer b.mx.Unlock()
+
 	for _, n := range topics {
 		b.registerTopic(n)
 	}
@@ -208,6 +216,9 @@ func (b *Broker) RegisterTopics(topics ...string) {
 
 // DeregisterTopics deletes topic
 func (b *Broker) DeregisterTopics(topics ...string) {
+	b.mx.Lock()
+	defer b.mx.Unlock()
+
 	for _, n := range topics {
 		b.deregisterTopic(n)
 	}
@@ -215,6 +226,9 @@ func (b *Broker) DeregisterTopics(topics ...string) {
 
 // TopicHandlerKeys returns all handlers for the topic
 func (b *Broker) TopicHandlerKeys(topic string) []string {
+	b.mx.RLock()
+	defer b.mx.RUnlock()
+
 	handlers := b.topics[topic]
 
 	keys := make([]string, len(handlers))
@@ -228,6 +242,9 @@ func (b *Broker) TopicHandlerKeys(topic string) []string {
 
 // HandlerKeys returns list of registered handler keys
 func (b *Broker) HandlerKeys() []string {
+	b.mx.RLock()
+	defer b.mx.RUnlock()
+
 	keys, index := make([]string, len(b.handlers)), 0
 
 	for k := range b.handlers {
@@ -240,17 +257,27 @@ func (b *Broker) HandlerKeys() []string {
 
 // HandlerTopicSubscriptions returns all topic subscriptions of the handler
 func (b *Broker) HandlerTopicSubscriptions(handlerKey string) []string {
+	b.mx.RLock()
+	defer b.mx.RUnlock()
+
 	return b.handlerTopicSubscriptions(handlerKey)
 }
 
 // RegisterHandler re/register the handler to the registry
 func (b *Broker) RegisterHandler(key string, h Handler) {
 	h.key = key
+
+	b.mx.Lock()
+	defer b.mx.Unlock()
+
 	b.registerHandler(h)
 }
 
 // DeregisterHandler deletes handler from the registry
 func (b *Broker) DeregisterHandler(key string) {
+	b.mx.Lock()
+	defer b.mx.Unlock()
+
 	b.deregisterHandler(key)
 }
 
@@ -259,6 +286,25 @@ func (n Next) Generate() string {
 	return n()
 }
 
+// next generates an id
+func (b *Broker) next() string {
+	b.mx.Lock()
+	defer b.mx.Unlock()
+
+	return b.gen()
+}
+
+// topicHandlers returns a snapshot of the handlers for the topic, so that
+// they can be invoked without being affected by concurrent registrations
+func (b *Broker) topicHandlers(topic string) ([]Handler, bool) {
+	b.mx.RLock()
+	defer b.mx.RUnlock()
+
+	handlers, ok := b.topics[topic]
+
+	return append([]Handler{}, handlers...), ok
+}
+
 func (b *Broker) registerHandler(h Handler) {
 	b.deregisterHandler(h.key)
 	b.handlers[h.key] = h
-- 
2.43.0


From 553502006bf9660a5a8d5903d618a67c7233fdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:53 +0000
Subject: [PATCH 29/37] fix: a subscription that doesn't exist is refused
 instead of panicking

---
 internal/kernel/navigator-factory.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/kernel/navigator-factory.go b/internal/kernel/navigator-factory.go
index 16d2c2a..496017b 100644
--- a/internal/kernel/navigator-factory.go
+++ b/internal/kernel/navigator-factory.go
@@ -63,6 +63,9 @@ func newImpl(o *pref.Options,
 		}
 
 	case enums.SubscribeUndefined:
+		fallthrough
+
+	default:
 		err = locale.ErrUsageMissingSubscription
 		impl = &navigatorUniversal{
 			navigatorAgent: agent,
-- 
2.43.0


From d076dbb54e1d57daeb0b9f2db53725cbd001f04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:53 +0000
Subject: [PATCH 30/37] fix: a resume strategy that doesn't exist is refused
 instead of panicking

---
 pref/facade.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pref/facade.go b/pref/facade.go
index b29aba2..fed3b23 100644
--- a/pref/facade.go
+++ b/pref/facade.go
@@ -141,7 +141,7 @@ func (f *Relic) Validate() error {
 		return locale.ErrUsageMissingRestorePath
 	}
 
-	if f.Strategy == enums.ResumeStrategyUndefined {
+	if f.Strategy != enums.ResumeStrategyFastward && f.Strategy != enums.ResumeStrategySpawn {
 		return locale.ErrUsageMissingSubscription // TODO: THIS IS WRONG ERROR
 	}
 
-- 
2.43.0


From 2352729a6f544747115bf960639218c902439c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:07 +0000
Subject: [PATCH 31/37] fix: options used again keep their event subscriptions

---
 life/events.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/life/events.go b/life/events.go
index 4c484ae..0a1ca75 100644
--- a/life/events.go
+++ b/life/events.go
@@ -82,8 +82,16 @@ func (c *Controls) UnmuteAll() {
 }
 
 // Bind attaches the underlying notification controllers to the
-// Events.
+// Events. Subscriptions already made, which is the case when options
+// are reused for another traversal, are carried over.
 func (e *Events) Bind(cs *Controls) {
+	cs.Ascend.inherit(e.Ascend)
+	cs.Begin.inherit(e.Begin)
+	cs.Descend.inherit(e.Descend)
+	cs.End.inherit(e.End)
+	cs.Wake.inherit(e.Wake)
+	cs.Sleep.inherit(e.Sleep)
+
 	e.Ascend = &cs.Ascend
 	e.Begin = &cs.Begin
 	e.Descend = &cs.Descend
@@ -92,6 +100,20 @@ func (e *Events) Bind(cs *Controls) {
 	e.Sleep = &cs.Sleep
 }
 
+// inherit takes over the subscriptions made via the event this controller
+// is about to replace.
+func (c *NotificationCtrl[F]) inherit(event Event[F]) {
+	prior, ok := event.(*NotificationCtrl[F])
+
+	if !ok || prior == c || !prior.subscribed {
+		return
+	}
+
+	c.subscribed = true
+	c.dispatcher.Invoke = prior.dispatcher.Invoke
+	c.listeners = append([]F(nil), prior.listeners...)
+}
+
 // On subscribes to a life cycle event
 func (c *NotificationCtrl[F]) On(handler F) {
 	if !c.subscribed {
-- 
2.43.0


From 300c557c3e893c80be847456b25f74a99e3c8429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:54 +0000
Subject: [PATCH 32/37] fix: the default options' events can be subscribed to

---
 pref/options.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pref/options.go b/pref/options.go
index efdfdb9..ea0fcce 100644
--- a/pref/options.go
+++ b/pref/options.go
@@ -136,6 +136,7 @@ func DefaultOptions() *Options {
 	}
 
 	o.Hooks = newHooks(&o.Behaviours.Sort)
+	o.Events.Bind(life.NewControls())
 
 	return o
 }
-- 
2.43.0


From 0ddffa921de820102d83e03d3569726d612563dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:52 +0000
Subject: [PATCH 33/37] fix: the sink is handed the sample filter too

---
 internal/feat/filter/scheme-sampler.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/feat/filter/scheme-sampler.go b/internal/feat/filter/scheme-sampler.go
index 37570f1..1e00bf2 100644
--- a/internal/feat/filter/scheme-sampler.go
+++ b/internal/feat/filter/scheme-sampler.go
@@ -8,6 +8,7 @@ import (
 	"github.com/snivilised/agenor/internal/enclave"
 	"github.com/snivilised/agenor/internal/filtering"
 	"github.com/snivilised/agenor/internal/third/lo"
+	"github.com/snivilised/agenor/pref"
 	nef "github.com/snivilised/nefilim"
 )
 
@@ -25,6 +26,12 @@ func (s *samplerScheme) create() error {
 
 	s.filter = filter
 
+	if s.o.Filter.Sink != nil {
+		s.o.Filter.Sink(pref.FilterReply{
+			Sampler: s.filter,
+		})
+	}
+
 	// the filter plugin performs premature filtering (with fs.DirEntry as opposed
 	// to core.Node) on behalf of the sampler.
 	s.o.Hooks.ReadDirectory.Chain(
-- 
2.43.0


From fc9d3d4871e2a51c0c56c52375d60400bcabc31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:38 +0000
Subject: [PATCH 34/37] fix: glob-ex patterns match file names regardless of
 case

---
 internal/filtering/glob-ex.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/filtering/glob-ex.go b/internal/filtering/glob-ex.go
index 3652d28..520e693 100644
--- a/internal/filtering/glob-ex.go
+++ b/internal/filtering/glob-ex.go
@@ -205,6 +205,9 @@ func (s *patternSpec) match(name string) bool {
 }
 
 func (s globSpec) IsMatch(name string) bool { //nolint: gocritic
+	// the patterns are in lower case
+	name = strings.ToLower(name)
+
 	for _, spec := range s.specs {
 		if spec.excluded(name) {
 			return false
-- 
2.43.0


From 28216361eaff1316616313e158380497cc61da18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 35/37] fix: the tree can be specified by a path that is not
 clean

---
 internal/kernel/builder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/kernel/builder.go b/internal/kernel/builder.go
index daa3c0b..230b732 100644
--- a/internal/kernel/builder.go
+++ b/internal/kernel/builder.go
@@ -1,6 +1,8 @@
 package kernel
 
 import (
+	"path/filepath"
+
 	"github.com/snivilised/agenor/core"
 	"github.com/snivilised/agenor/enums"
 	"github.com/snivilised/agenor/internal/enclave"
@@ -36,7 +38,8 @@ func (fn Builder) Build(inception *Inception) *Artefacts {
 
 func (i *Inception) NavigationTree() string {
 	if using, ok := i.Facade.(*pref.Using); ok {
-		return using.Tree
+		// paths of the nodes beneath the tree are clean, and are related to it
+		return filepath.Clean(using.Tree)
 	}
 
 	return i.Harvest.Loaded().State.Tree
-- 
2.43.0


From 9112826f2ed5ae1a9bfff6cb5deddb97cf0bc17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:18 +0000
Subject: [PATCH 36/37] fix: a tree that is a file is not visited by a
 traversal of directories

---
 internal/kernel/navigator-directories.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/kernel/navigator-directories.go b/internal/kernel/navigator-directories.go
index 87e8f14..87c6950 100644
--- a/internal/kernel/navigator-directories.go
+++ b/internal/kernel/navigator-directories.go
@@ -23,6 +23,13 @@ func (n *navigatorDirectories) Traverse(ctx context.Context,
 	servant core.Servant,
 ) (bool, error) {
 	current := servant.Node()
+
+	if !current.IsDirectory() {
+		// only the tree can be a file, which has not been subscribed to
+		//
+		return continueTraversal, nil
+	}
+
 	descended := ns.mediator.descend(current)
 
 	defer func(permit bool) {
-- 
2.43.0


From 4a5ced31688a33a097df6efaff025976169b9c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:18 +0000
Subject: [PATCH 37/37] fix: poly filter does not panic when the tree is a file

---
 internal/filtering/poly.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/filtering/poly.go b/internal/filtering/poly.go
index 0ed6330..8bbc6b7 100644
--- a/internal/filtering/poly.go
+++ b/internal/filtering/poly.go
@@ -64,6 +64,12 @@ func (f *Poly) Source() string {
 // file matches the poly file filter and the file's parent directory matches
 // the poly directory filter. Returns true of the current node is a directory.
 func (f *Poly) IsMatch(node *core.Node) bool {
+	if node.Parent == nil && !node.IsDirectory() {
+		// the tree is a file, there is no directory to filter
+		//
+		return f.File.IsMatch(node)
+	}
+
 	if !node.IsDirectory() {
 		return f.Directory.IsMatch(node.Parent) && f.File.IsMatch(node)
 	}
-- 
2.43.0

