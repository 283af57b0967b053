From 510c8b47091d6a2d16092ac85b14acaca5f485a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 01/51] fix: do not share the request context between
 concurrent job server requests

The goroutine serving a request overwrote the context captured by the
subscription callback, racing with all other requests of the subscription and
making later requests run under the trace span of an earlier one.
---
 internal/jobserver/common/handler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/jobserver/common/handler.go b/internal/jobserver/common/handler.go
index 82e0bc9..1980515 100644
--- a/internal/jobserver/common/handler.go
+++ b/internal/jobserver/common/handler.go
@@ -39,7 +39,7 @@ func HandleRequest[Res any, Req Request[Res]](ctx context.Context, handler Reque
 		}
 
 		// Spawn the handler in a new goroutine to avoid blocking the NATS subscription poller.
-		go func() {
+		go func(ctx context.Context) {
 			if spanCtx, err := tracer.Extract(traceutil.NATSCarrier{Msg: msg}); err == nil && spanCtx != nil {
 				span := tracer.StartSpan("nats.server",
 					tracer.ServiceName("github.com/DataDog/orchestrion/internal/jobserver"),
@@ -58,7 +58,7 @@ func HandleRequest[Res any, Req Request[Res]](ctx context.Context, handler Reque
 				return
 			}
 			respond(ctx, msg, successResponse[Res]{Result: resp})
-		}()
+		}(ctx)
 	}
 }
 
-- 
2.43.0


From b29a547c0cae493960143bf3ed76394df898fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 02/51] fix: respond to the client when a job server response
 cannot be encoded

No response was sent at all in this case, so that the client would wait until
its context expires (which it never does for most requests).
---
 internal/jobserver/common/handler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/jobserver/common/handler.go b/internal/jobserver/common/handler.go
index 1980515..bf6c145 100644
--- a/internal/jobserver/common/handler.go
+++ b/internal/jobserver/common/handler.go
@@ -86,7 +86,8 @@ func respond(ctx context.Context, msg *nats.Msg, val natsResponse) {
 	data, err := json.Marshal(val)
 	if err != nil {
 		log.Error().Err(err).Type("type", val).Msg("Failed to marshal job server response")
-		return
+		// The client is waiting for a response, so it needs to be told about the failure.
+		data, _ = json.Marshal(errorResponse{Error: fmt.Sprintf("internal error: %v", err)})
 	}
 	if err := msg.Respond(data); err != nil {
 		log.Error().Err(err).Msg("Failed to send job server response")
-- 
2.43.0


From 05fa768681b6225824f2ae51e186cb5fa1c7f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:16 +0000
Subject: [PATCH 03/51] fix: detect dependency cycles regardless of the order
 edges are visited

A child from which the target is not reachable returns an empty path, which was
shorter than, and hence replaced, the path already found through a sibling. The
cycle was missed depending on map iteration order.
---
 internal/jobserver/common/graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/jobserver/common/graph.go b/internal/jobserver/common/graph.go
index fd65830..4c105c6 100644
--- a/internal/jobserver/common/graph.go
+++ b/internal/jobserver/common/graph.go
@@ -62,7 +62,7 @@ func (g *Graph) path(from string, to string) []string {
 		if child == to {
 			return []string{from, to}
 		}
-		if childPath := g.path(child, to); path == nil || len(childPath) < len(path) {
+		if childPath := g.path(child, to); childPath != nil && (path == nil || len(childPath) < len(path)) {
 			path = childPath
 		}
 	}
-- 
2.43.0


From bbe95bab604eceb6c87a0480b3ac7c197616683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 04/51] fix: keep a dependency edge until every request that
 added it is finished

Two concurrent requests may add the same edge; the first one to complete removed
it while the other was still in progress, so that a cycle through it was missed.
---
 internal/jobserver/common/graph.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/jobserver/common/graph.go b/internal/jobserver/common/graph.go
index 4c105c6..e708d8e 100644
--- a/internal/jobserver/common/graph.go
+++ b/internal/jobserver/common/graph.go
@@ -13,7 +13,7 @@ import (
 
 // Graph keeps track of a directed acyclic graph.
 type Graph struct {
-	nodes map[string]map[string]struct{}
+	nodes map[string]map[string]int // Counts how many times each edge is currently present
 	mu    sync.Mutex
 }
 
@@ -32,24 +32,30 @@ func (g *Graph) AddEdge(from string, to string) error {
 	}
 
 	if g.nodes == nil {
-		g.nodes = make(map[string]map[string]struct{})
+		g.nodes = make(map[string]map[string]int)
 	}
 
 	edges := g.nodes[from]
 	if edges == nil {
-		edges = make(map[string]struct{})
+		edges = make(map[string]int)
 		g.nodes[from] = edges
 	}
 
-	edges[to] = struct{}{}
+	edges[to]++
 	return nil
 }
 
-// RemoveEdge removes an edge from this graph.
+// RemoveEdge removes an edge from this graph. An edge that was added several times
+// remains present until it has been removed as many times.
 func (g *Graph) RemoveEdge(from string, to string) {
 	g.mu.Lock()
 	defer g.mu.Unlock()
 
+	if edges := g.nodes[from]; edges[to] > 1 {
+		edges[to]--
+		return
+	}
+
 	delete(g.nodes[from], to)
 	if len(g.nodes[from]) == 0 {
 		delete(g.nodes, from)
-- 
2.43.0


From 76953d42bbcf6662dbd695d15bd963b4721552b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 05/51] fix: do not panic on incomplete go command flags

A lone trailing -C, or a flag that is missing its value, made the flag parser
index out of range.
---
 internal/goflags/flags.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/goflags/flags.go b/internal/goflags/flags.go
index cf28d54..a5393df 100644
--- a/internal/goflags/flags.go
+++ b/internal/goflags/flags.go
@@ -142,7 +142,7 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 				// ["-C", "directory", ...]
 				log.Trace().Strs("flag", args[:2]).Msg("Skipping '-C <dir>' flag")
 				args = args[2:]
-			} else if arg[:3] == "-C=" {
+			} else if strings.HasPrefix(arg, "-C=") {
 				// ["-C=directory", ...]
 				log.Trace().Str("flag", arg).Msg("Skipping '-C=<dir>' flag")
 				args = args[1:]
@@ -192,6 +192,9 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 				flags.Unknown = append(flags.Unknown, arg)
 			}
 		} else if isLong(normArg) {
+			if i+1 >= len(args) {
+				return flags, fmt.Errorf("flag needs an argument: %s", arg)
+			}
 			flags.Long[normArg] = args[i+1]
 			i++
 		} else if isShort(normArg) {
-- 
2.43.0


From ad2ae42cbb35adf6b73a007c22b3e4c40310c2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 06/51] fix: do not panic when the go command cannot be found
 among parent processes

Failure to look up a parent process dereferenced the nil process that is returned
with the error, and processes with an empty command line (kernel threads, zombies)
were indexed out of range.
---
 internal/goflags/flags.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/goflags/flags.go b/internal/goflags/flags.go
index a5393df..ea91beb 100644
--- a/internal/goflags/flags.go
+++ b/internal/goflags/flags.go
@@ -388,14 +388,18 @@ func parentGoCommandFlags(ctx context.Context, pid int) (flags CommandFlags, err
 	// Backtrack through the process stack until we find the parent Go command
 	var args []string
 	for {
-		p, err = p.ParentWithContext(ctx)
+		parent, err := p.ParentWithContext(ctx)
 		if err != nil {
 			return flags, fmt.Errorf("failed to find parent process of %d: %w", p.Pid, err)
 		}
+		p = parent
 		args, err = p.CmdlineSliceWithContext(ctx)
 		if err != nil {
 			return flags, fmt.Errorf("failed to get command line of %d: %w", p.Pid, err)
 		}
+		if len(args) == 0 {
+			return flags, fmt.Errorf("failed to get command line of %d: it is empty", p.Pid)
+		}
 
 		cmd, err := exec.LookPath(args[0])
 		// When running in containers using on macOS VZ+rosetta, the reported command line may be led by
-- 
2.43.0


From 28ed41f0f4b39b7617fa28d6c365c4bddda49496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 07/51] fix: honor explicitly assigned boolean go flags

Boolean flags may be spelled -race=true or -trimpath=false; these were dropped as
unknown, so that child builds did not use the same flags as the main build.
---
 internal/goflags/flags.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/goflags/flags.go b/internal/goflags/flags.go
index ea91beb..0191d50 100644
--- a/internal/goflags/flags.go
+++ b/internal/goflags/flags.go
@@ -18,6 +18,7 @@ import (
 	"path/filepath"
 	"runtime"
 	"slices"
+	"strconv"
 	"strings"
 	"sync"
 
@@ -187,6 +188,13 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 		if key, val, isAssigned := strings.Cut(normArg, "="); isAssigned {
 			if isLong(key) {
 				flags.Long[key] = val
+			} else if enabled, err := strconv.ParseBool(val); isShort(key) && err == nil {
+				// Boolean flags can be assigned explicitly (e.g, "-race=true").
+				if enabled {
+					flags.Short[key] = struct{}{}
+				} else {
+					delete(flags.Short, key)
+				}
 			} else {
 				// Intentionally the un-normalized variant in Unknown flags.
 				flags.Unknown = append(flags.Unknown, arg)
-- 
2.43.0


From 1229cfaf4ca1470d5631582f0deed8977a5723c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 08/51] fix: do not consume an argument after the -buildvcs
 flag

The go command accepts -buildvcs alone as -buildvcs=true, and never takes its
value from the next argument, which was hence mistaken for it.
---
 internal/goflags/flags.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/goflags/flags.go b/internal/goflags/flags.go
index 0191d50..67e22ec 100644
--- a/internal/goflags/flags.go
+++ b/internal/goflags/flags.go
@@ -199,6 +199,9 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 				// Intentionally the un-normalized variant in Unknown flags.
 				flags.Unknown = append(flags.Unknown, arg)
 			}
+		} else if normArg == "-buildvcs" {
+			// This one has a value, but it is only ever provided in the assigned form.
+			flags.Long[normArg] = "true"
 		} else if isLong(normArg) {
 			if i+1 >= len(args) {
 				return flags, fmt.Errorf("flag needs an argument: %s", arg)
-- 
2.43.0


From 97defc26a418fba078b3f6db2c3c49ec087dafb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:50 +0000
Subject: [PATCH 09/51] fix: delete the URL file when the job server is
 interrupted

The received/closed check was inverted: interrupts were swallowed without removing
the URL file, and uninstalling the handler closed the channel a second time.
---
 internal/cmd/server.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/internal/cmd/server.go b/internal/cmd/server.go
index 3fff346..5956330 100644
--- a/internal/cmd/server.go
+++ b/internal/cmd/server.go
@@ -12,6 +12,7 @@ import (
 	"io"
 	"os"
 	"os/signal"
+	"sync"
 	"time"
 
 	"github.com/DataDog/orchestrion/internal/filelock"
@@ -194,14 +195,14 @@ func startWithURLFile(ctx context.Context, opts *jobserver.Options, urlFile stri
 // cancellation function that can be used to uninstall the signal handler.
 func deleteOnInterrupt(ctx context.Context, path string) func() {
 	sigChan := make(chan os.Signal, 1)
-	cancel := func() {
+	cancel := sync.OnceFunc(func() {
 		signal.Stop(sigChan)
 		close(sigChan)
-	}
+	})
 
 	go func() {
-		_, closed := <-sigChan
-		if closed {
+		if _, received := <-sigChan; !received {
+			// The channel was closed, so the handler has been uninstalled...
 			return
 		}
 		defer cancel()
-- 
2.43.0


From 3700d3e0c49e2418b0e77d99354c3060b54ed4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:12 +0000
Subject: [PATCH 10/51] fix: do not leave remains of a stale URL in the job
 server URL file

A shorter URL only overwrote the beginning of the one left behind by a dead server.
---
 internal/cmd/server.go  | 5 ++++-
 internal/filelock/io.go | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/internal/cmd/server.go b/internal/cmd/server.go
index 5956330..29672d4 100644
--- a/internal/cmd/server.go
+++ b/internal/cmd/server.go
@@ -163,7 +163,10 @@ func startWithURLFile(ctx context.Context, opts *jobserver.Options, urlFile stri
 		Str("url", clientURL).
 		Msg("Server component successfully started")
 
-	// Write the ClientURL into the urlFile
+	// Write the ClientURL into the urlFile, in place of whatever a dead server may have left there
+	if err := file.Truncate(0); err != nil {
+		return cli.Exit(fmt.Errorf("failed to truncate URL file at %q: %w", urlFile, err), 1)
+	}
 	if _, err := file.Write([]byte(clientURL)); err != nil {
 		return cli.Exit(fmt.Errorf("failed to write URL file at %q: %w", urlFile, err), 1)
 	}
diff --git a/internal/filelock/io.go b/internal/filelock/io.go
index cbfe456..1cf2c8d 100644
--- a/internal/filelock/io.go
+++ b/internal/filelock/io.go
@@ -48,3 +48,11 @@ func (m *Mutex) WriteAt(b []byte, off int64) (int, error) {
 	}
 	return m.file.WriteAt(b, off)
 }
+
+// Truncate implements the same method as [os.File.Truncate].
+func (m *Mutex) Truncate(size int64) error {
+	if m.file == nil {
+		return fs.ErrClosed
+	}
+	return m.file.Truncate(size)
+}
-- 
2.43.0


From 60522edc74d2ef218459c8d25e4eec52906530ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 11/51] fix: remove temporary files of a job server that fails
 to start

---
 internal/jobserver/server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/jobserver/server.go b/internal/jobserver/server.go
index 0e68e1f..819fff0 100644
--- a/internal/jobserver/server.go
+++ b/internal/jobserver/server.go
@@ -168,6 +168,12 @@ func New(ctx context.Context, opts *Options) (srv *Server, err error) {
 		return nil, err
 	}
 	res.onShutdown(cleanup)
+	defer func() {
+		if srv == nil && err != nil {
+			// The shutdown hooks won't be called, as the caller does not get a server.
+			err = errors.Join(err, cleanup(ctx))
+		}
+	}()
 	if _, err := conn.Subscribe("clients", res.handleClients); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 8dbb5480a62d1af01e7e4f11c3555ce7507e6413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:25 +0000
Subject: [PATCH 12/51] fix: do not spin while waiting for another process' job
 server

---
 internal/jobserver/client/env.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/jobserver/client/env.go b/internal/jobserver/client/env.go
index 056adaf..1e1d0c4 100644
--- a/internal/jobserver/client/env.go
+++ b/internal/jobserver/client/env.go
@@ -209,6 +209,7 @@ func waitForURLFile(ctx context.Context, path string, cmd *exec.Cmd, exitChan <-
 					Msg("Job server process has exited")
 				return nil, errors.Join(err, exitErr, fmt.Errorf("job server process has failed: %v", cmd.ProcessState))
 			}
+			exitChan = nil // It will be closed soon, don't spin on it...
 			if ok {
 				// The job server exits with status 0 if another process has written to the URL file; in
 				// which case we should be able to connect to it on the next attempt!
-- 
2.43.0


From a8dc9dd08563403bd4b3281a8c89c2e59580af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:08 +0000
Subject: [PATCH 13/51] fix: remove the job server's temporary files before the
 process exits

The shutdown was only initiated, so every build left a directory behind.
---
 internal/cmd/diff.go         | 11 ++++++++++-
 internal/goproxy/proxy.go    | 26 ++++++++++++++++++++++++--
 internal/toolexec/version.go |  5 ++++-
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/internal/cmd/diff.go b/internal/cmd/diff.go
index fe8a18e..6bfd983 100644
--- a/internal/cmd/diff.go
+++ b/internal/cmd/diff.go
@@ -6,11 +6,13 @@
 package cmd
 
 import (
+	"context"
 	"fmt"
 	"io"
 	"os"
 	"slices"
 	"strings"
+	"sync"
 
 	"github.com/DataDog/orchestrion/internal/binpath"
 	"github.com/DataDog/orchestrion/internal/goproxy"
@@ -165,7 +167,14 @@ func executeBuildAndCaptureWorkDir(clictx *cli.Context, buildArgs []string) (str
 		return "", cli.Exit(err, -1)
 	}
 
-	cmd, err := goproxy.BuildCmd(clictx.Context, buildArgs, goproxy.WithToolexec(binpath.Orchestrion, "toolexec"))
+	// Make sure the job server is done cleaning up before returning
+	var jobServers sync.WaitGroup
+	defer jobServers.Wait()
+
+	ctx, cancel := context.WithCancel(clictx.Context)
+	defer cancel()
+
+	cmd, err := goproxy.BuildCmd(ctx, buildArgs, goproxy.WithToolexec(binpath.Orchestrion, "toolexec"), goproxy.WithJobServers(&jobServers))
 	if err != nil {
 		return "", fmt.Errorf("building command: %w", err)
 	}
diff --git a/internal/goproxy/proxy.go b/internal/goproxy/proxy.go
index 062ffbd..b061e97 100644
--- a/internal/goproxy/proxy.go
+++ b/internal/goproxy/proxy.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"os/exec"
 	"strings"
+	"sync"
 
 	"github.com/DataDog/dd-trace-go/v2/ddtrace/tracer"
 	"github.com/DataDog/orchestrion/internal/goenv"
@@ -23,7 +24,8 @@ import (
 )
 
 type config struct {
-	toolexec string
+	toolexec   string
+	jobServers *sync.WaitGroup
 }
 
 type Option func(*config)
@@ -54,6 +56,15 @@ func WithToolexec(bin string, args ...string) Option {
 	}
 }
 
+// WithJobServers registers the job server that may be started with the provided
+// wait group; which is released once the context is done and the server has
+// completely shut down, including having removed its temporary files.
+func WithJobServers(wg *sync.WaitGroup) Option {
+	return func(c *config) {
+		c.jobServers = wg
+	}
+}
+
 // BuildCmd returns a new exec.BuildCmd that will run the given goArgs, with the given opts applied.
 func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd, error) {
 	log := zerolog.Ctx(ctx)
@@ -105,7 +116,13 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 
 				log.Debug().Msg("Starting job server goroutine")
 				serverStarted := make(chan struct{})
+				if cfg.jobServers != nil {
+					cfg.jobServers.Add(1)
+				}
 				go func() {
+					if cfg.jobServers != nil {
+						defer cfg.jobServers.Done()
+					}
 					// We'll need a job server to support toolexec operations
 					log.Debug().Msg("Initializing job server")
 					server, serverStartErr = jobserver.New(ctx, nil)
@@ -118,6 +135,7 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 					defer func() {
 						log.Debug().Msg("Shutting down job server")
 						server.Shutdown()
+						server.WaitForShutdown()
 						log.Trace().Msg(server.CacheStats.String())
 						log.Debug().Msg("Job server shut down complete")
 					}()
@@ -162,10 +180,14 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 // applies changes specified through opts to the command before running it in a
 // different process.
 func Run(ctx context.Context, goArgs []string, opts ...Option) error {
+	// Make sure the job server is done cleaning up before returning
+	var jobServers sync.WaitGroup
+	defer jobServers.Wait()
+
 	ctx, cancel := context.WithCancel(ctx)
 	defer cancel()
 
-	cmd, err := BuildCmd(ctx, goArgs, opts...)
+	cmd, err := BuildCmd(ctx, goArgs, append([]Option{WithJobServers(&jobServers)}, opts...)...)
 	if err != nil {
 		return fmt.Errorf("building command: %w", err)
 	}
diff --git a/internal/toolexec/version.go b/internal/toolexec/version.go
index c70ab25..7043cc7 100644
--- a/internal/toolexec/version.go
+++ b/internal/toolexec/version.go
@@ -46,7 +46,10 @@ func ComputeVersion(ctx context.Context, cmd proxy.Command) (string, error) {
 		if err != nil {
 			return "", err
 		}
-		defer server.Shutdown()
+		defer func() {
+			server.Shutdown()
+			server.WaitForShutdown() // Make sure temporary files are removed before this process exits
+		}()
 		if conn, err = server.Connect(); err != nil {
 			return "", err
 		}
-- 
2.43.0


From 6ab0db4cc21a0b369a14d233ce3f5c497742d3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:45 +0000
Subject: [PATCH 14/51] fix: distinguish package-name from import-path in the
 injector fingerprint

Both join points were hashed with the same label, so swapping one for the other
did not change the tool version, and stale build cache entries were reused.
---
 internal/injector/aspect/join/package.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/injector/aspect/join/package.go b/internal/injector/aspect/join/package.go
index 0f13fc1..9aeb8f4 100644
--- a/internal/injector/aspect/join/package.go
+++ b/internal/injector/aspect/join/package.go
@@ -76,7 +76,7 @@ func (p packageName) Matches(ctx context.AspectContext) bool {
 }
 
 func (p packageName) Hash(h *fingerprint.Hasher) error {
-	return h.Named("import-path", fingerprint.String(p))
+	return h.Named("package-name", fingerprint.String(p))
 }
 
 type packageFilter struct {
-- 
2.43.0


From 722c4ce2a1a8747e171e80a8ea9519ece7ec0f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:46 +0000
Subject: [PATCH 15/51] fix: report errors reading importcfg files

The scanner's error was only looked at after successful scans, so that a read
failure or an overlong line silently truncated the parsed configuration.
---
 internal/toolexec/importcfg/importcfg.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/toolexec/importcfg/importcfg.go b/internal/toolexec/importcfg/importcfg.go
index 48615d0..32ae333 100644
--- a/internal/toolexec/importcfg/importcfg.go
+++ b/internal/toolexec/importcfg/importcfg.go
@@ -54,10 +54,6 @@ func parse(r io.Reader) (reg ImportConfig, err error) {
 	scanner.Split(bufio.ScanLines)
 
 	for scanner.Scan() {
-		if err = scanner.Err(); err != nil {
-			return
-		}
-
 		line := strings.TrimSpace(scanner.Text())
 		if line == "" || line[0] == '#' {
 			continue
@@ -99,6 +95,10 @@ func parse(r io.Reader) (reg ImportConfig, err error) {
 		}
 	}
 
+	// Scan returns false on errors as well, so this must be checked after the loop.
+	if err = scanner.Err(); err != nil {
+		return ImportConfig{}, err
+	}
 	return
 }
 
-- 
2.43.0


From 4b26efe91a562e6d843f2483b7e4f864f85fb91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:46 +0000
Subject: [PATCH 16/51] fix: do not panic when weaving imports into a package
 that imports nothing

The importcfg file of such a package has no packagefile entry, which left the
PackageFile map nil.
---
 internal/toolexec/aspect/oncompile.go    |  2 +-
 internal/toolexec/aspect/resolve.go      |  2 +-
 internal/toolexec/importcfg/importcfg.go | 11 ++++++++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/toolexec/aspect/oncompile.go b/internal/toolexec/aspect/oncompile.go
index 7d66382..281fdd3 100644
--- a/internal/toolexec/aspect/oncompile.go
+++ b/internal/toolexec/aspect/oncompile.go
@@ -182,7 +182,7 @@ func (w Weaver) OnCompile(ctx context.Context, cmd *proxy.CompileCommand) (resEr
 				continue
 			}
 			log.Trace().Str("import-path", dep).Str("inherited-from", depImportPath).Str("archive", archive).Msg("Recording transitive dependency")
-			imports.PackageFile[dep] = archive
+			imports.SetPackageFile(dep, archive)
 			regUpdated = true
 		}
 	}
diff --git a/internal/toolexec/aspect/resolve.go b/internal/toolexec/aspect/resolve.go
index b49f69e..80a4e6d 100644
--- a/internal/toolexec/aspect/resolve.go
+++ b/internal/toolexec/aspect/resolve.go
@@ -122,7 +122,7 @@ func mergeResolvedArchives(reg *importcfg.ImportConfig, archives pkgs.ResolveRes
 		if found && (archive.ForTest == "" || current == archive.ExportFile) {
 			continue
 		}
-		reg.PackageFile[importPath] = archive.ExportFile
+		reg.SetPackageFile(importPath, archive.ExportFile)
 		changed[importPath] = archive.ExportFile
 	}
 	return changed, nil
diff --git a/internal/toolexec/importcfg/importcfg.go b/internal/toolexec/importcfg/importcfg.go
index 32ae333..04652a4 100644
--- a/internal/toolexec/importcfg/importcfg.go
+++ b/internal/toolexec/importcfg/importcfg.go
@@ -107,13 +107,22 @@ func parse(r io.Reader) (reg ImportConfig, err error) {
 func (r *ImportConfig) CombinePackageFile(other *ImportConfig) (changed bool) {
 	for k, v := range other.PackageFile {
 		if _, ok := r.PackageFile[k]; !ok {
-			r.PackageFile[k] = v
+			r.SetPackageFile(k, v)
 			changed = true
 		}
 	}
 	return
 }
 
+// SetPackageFile sets the `packagefile` entry for the given import path.
+func (r *ImportConfig) SetPackageFile(importPath string, archive string) {
+	if r.PackageFile == nil {
+		// There is no such entry for packages that import nothing...
+		r.PackageFile = make(map[string]string)
+	}
+	r.PackageFile[importPath] = archive
+}
+
 // WriteFile writes the content of the package register to the provided file, in the format expected
 // by the standard go toolchain commands.
 func (r *ImportConfig) WriteFile(filename string) error {
-- 
2.43.0


From f2158a0981098fedadd07eafc561d874f0567292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 17/51] fix: make recorded link-time dependencies independent
 of map order

Whether a woven dependency is already satisfied depends on those processed
before it, so link.deps and the synthetic imports of main could differ between
otherwise identical builds.
---
 internal/toolexec/aspect/oncompile-main.go |  6 ++++--
 internal/toolexec/aspect/oncompile.go      | 10 +++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/internal/toolexec/aspect/oncompile-main.go b/internal/toolexec/aspect/oncompile-main.go
index a5fb5b0..634e030 100644
--- a/internal/toolexec/aspect/oncompile-main.go
+++ b/internal/toolexec/aspect/oncompile-main.go
@@ -12,6 +12,7 @@ import (
 	"go/ast"
 	"go/format"
 	"go/token"
+	"maps"
 	"os"
 	"path/filepath"
 	"slices"
@@ -120,8 +121,9 @@ func (w Weaver) OnCompileMain(ctx context.Context, cmd *proxy.CompileCommand) (e
 			log.Debug().Str("import-path", p).Str("archive", archive).Msg("Recording resolved " + linkdeps.Filename + " dependency")
 		}
 
-		for p, resolved := range deps {
-			archive := resolved.ExportFile
+		// Consistent order, as it determines which synthetic imports are necessary
+		for _, p := range slices.Sorted(maps.Keys(deps)) {
+			archive := deps[p].ExportFile
 			// The package may have its own link-time dependencies we need to resolve.
 			tDeps, err := linkdeps.FromArchive(ctx, archive)
 			if err != nil {
diff --git a/internal/toolexec/aspect/oncompile.go b/internal/toolexec/aspect/oncompile.go
index 281fdd3..04873fc 100644
--- a/internal/toolexec/aspect/oncompile.go
+++ b/internal/toolexec/aspect/oncompile.go
@@ -8,6 +8,7 @@ package aspect
 import (
 	"context"
 	"fmt"
+	"maps"
 	"os"
 	"path/filepath"
 	"slices"
@@ -130,7 +131,10 @@ func (w Weaver) OnCompile(ctx context.Context, cmd *proxy.CompileCommand) (resEr
 	}
 
 	var regUpdated bool
-	for depImportPath, kind := range references.Map() {
+	// Resolving a dependency can satisfy others, so the order in which they are
+	// processed must be consistent for the recorded link.deps to be deterministic.
+	for _, depImportPath := range slices.Sorted(maps.Keys(references.Map())) {
+		kind := references.Map()[depImportPath]
 		if depImportPath == "unsafe" {
 			// Unsafe isn't like other go packages, and it does not have an associated archive file.
 			continue
@@ -163,8 +167,8 @@ func (w Weaver) OnCompile(ctx context.Context, cmd *proxy.CompileCommand) (resEr
 		if err != nil {
 			return fmt.Errorf("resolving woven dependency on %s: %w", depImportPath, err)
 		}
-		for dep, resolved := range deps {
-			archive := resolved.ExportFile
+		for _, dep := range slices.Sorted(maps.Keys(deps)) {
+			archive := deps[dep].ExportFile
 			deps, err := linkdeps.FromArchive(ctx, archive)
 			if err != nil {
 				return fmt.Errorf("reading %s from %s[%s]: %w", linkdeps.Filename, dep, archive, err)
-- 
2.43.0


From 2f5e34664ae55fe6c50ffc3786d812e5ee234dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:20 +0000
Subject: [PATCH 18/51] fix: report errors closing written files

Data that could not be flushed when an importcfg file, a copied archive or a
generated source file is closed was ignored, and the truncated file was used.
---
 internal/files/files.go                    | 5 +++--
 internal/toolexec/aspect/oncompile-main.go | 3 +--
 internal/toolexec/importcfg/importcfg.go   | 5 +++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/files/files.go b/internal/files/files.go
index 66a4efc..d3bf866 100644
--- a/internal/files/files.go
+++ b/internal/files/files.go
@@ -7,6 +7,7 @@ package files
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -15,7 +16,7 @@ import (
 )
 
 // Copy creates a copy of `oldname` at `newname`.
-func Copy(ctx context.Context, oldname string, newname string) error {
+func Copy(ctx context.Context, oldname string, newname string) (err error) {
 	log := zerolog.Ctx(ctx).With().
 		Str("oldname", oldname).
 		Str("newname", newname).
@@ -31,7 +32,7 @@ func Copy(ctx context.Context, oldname string, newname string) error {
 	if err != nil {
 		return fmt.Errorf("create %q: %w", newname, err)
 	}
-	defer out.Close()
+	defer func() { err = errors.Join(err, out.Close()) }()
 
 	bytes, err := io.Copy(out, in)
 	if err != nil {
diff --git a/internal/toolexec/aspect/oncompile-main.go b/internal/toolexec/aspect/oncompile-main.go
index 634e030..65975dc 100644
--- a/internal/toolexec/aspect/oncompile-main.go
+++ b/internal/toolexec/aspect/oncompile-main.go
@@ -198,8 +198,7 @@ func (w Weaver) OnCompileMain(ctx context.Context, cmd *proxy.CompileCommand) (e
 	if err != nil {
 		return fmt.Errorf("create %q: %w", genFile, err)
 	}
-	defer file.Close()
-	if err := format.Node(file, token.NewFileSet(), fileAST); err != nil {
+	if err := errors.Join(format.Node(file, token.NewFileSet(), fileAST), file.Close()); err != nil {
 		return fmt.Errorf("formatting generated code for %s: %w", genFile, err)
 	}
 
diff --git a/internal/toolexec/importcfg/importcfg.go b/internal/toolexec/importcfg/importcfg.go
index 04652a4..0949cb6 100644
--- a/internal/toolexec/importcfg/importcfg.go
+++ b/internal/toolexec/importcfg/importcfg.go
@@ -10,6 +10,7 @@ package importcfg
 import (
 	"bufio"
 	"context"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -125,12 +126,12 @@ func (r *ImportConfig) SetPackageFile(importPath string, archive string) {
 
 // WriteFile writes the content of the package register to the provided file, in the format expected
 // by the standard go toolchain commands.
-func (r *ImportConfig) WriteFile(filename string) error {
+func (r *ImportConfig) WriteFile(filename string) (err error) {
 	file, err := os.Create(filename)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() { err = errors.Join(err, file.Close()) }()
 
 	return r.write(file)
 }
-- 
2.43.0


From 22111ba4ffe4d8c1fd17bb5c119159a4967309b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 19/51] fix: signature-contains matches packages that only
 import one of its types

---
 internal/injector/aspect/join/function.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/injector/aspect/join/function.go b/internal/injector/aspect/join/function.go
index ab9fd3c..ebfc3e7 100644
--- a/internal/injector/aspect/join/function.go
+++ b/internal/injector/aspect/join/function.go
@@ -248,6 +248,23 @@ func (fo *signatureContains) Hash(h *fingerprint.Hasher) error {
 	)
 }
 
+func (fo *signatureContains) packageMayMatch(ctx *may.PackageContext) may.MatchType {
+	// Any one of the types is sufficient for a match.
+	sum := may.NeverMatch
+	for _, candidate := range fo.Arguments {
+		sum = sum.Or(ctx.PackageImports(candidate.ImportPath))
+	}
+	for _, candidate := range fo.Results {
+		sum = sum.Or(ctx.PackageImports(candidate.ImportPath))
+	}
+	return sum
+}
+
+func (*signatureContains) impliesImported() []string {
+	// Any one of the types is sufficient for a match, so none can be assumed.
+	return nil
+}
+
 func (fo *signatureContains) evaluate(info functionInformation) bool {
 	if containsAnyType(fo.Results, info.Type.Results) {
 		return true
-- 
2.43.0


From e567973725395d66eeacc06c3fa10d3cf9ab77b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 20/51] fix: argument-implements does not imply the interface's
 package is imported

---
 internal/injector/aspect/join/function.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/injector/aspect/join/function.go b/internal/injector/aspect/join/function.go
index ebfc3e7..675404b 100644
--- a/internal/injector/aspect/join/function.go
+++ b/internal/injector/aspect/join/function.go
@@ -558,11 +558,9 @@ func ArgumentImplements(interfaceName string) FunctionOption {
 	return &argumentImplements{InterfaceName: interfaceName}
 }
 
-func (fo *argumentImplements) impliesImported() []string {
-	pkgPath, _ := typed.SplitPackageAndName(fo.InterfaceName)
-	if pkgPath != "" {
-		return []string{pkgPath}
-	}
+func (*argumentImplements) impliesImported() []string {
+	// A type can implement an interface without importing the interface's package
+	// due to Go's structural typing system.
 	return nil
 }
 
-- 
2.43.0


From ced6f9b1eb16b7ca2c57f268d9ca51fe22340a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 21/51] fix: the empty string is contained in every file

---
 internal/injector/aspect/may/context.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/injector/aspect/may/context.go b/internal/injector/aspect/may/context.go
index 3693e36..f78adcb 100644
--- a/internal/injector/aspect/may/context.go
+++ b/internal/injector/aspect/may/context.go
@@ -47,6 +47,11 @@ type FileContext struct {
 }
 
 func (ctx *FileContext) FileContains(content string) MatchType {
+	if content == "" {
+		// The suffix array never finds the empty string.
+		return Match
+	}
+
 	ctx.once.Do(func() {
 		ctx.index = suffixarray.New(ctx.FileContent)
 	})
-- 
2.43.0


From 22f301d21066e13d0fdb9ccc9598f76dad966e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 22/51] fix: one-of only implies packages that each of its
 candidates implies

---
 internal/injector/aspect/join/one-of.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/injector/aspect/join/one-of.go b/internal/injector/aspect/join/one-of.go
index 20aafa2..a78762a 100644
--- a/internal/injector/aspect/join/one-of.go
+++ b/internal/injector/aspect/join/one-of.go
@@ -7,6 +7,7 @@ package join
 
 import (
 	gocontext "context"
+	"slices"
 
 	"github.com/DataDog/orchestrion/internal/fingerprint"
 	"github.com/DataDog/orchestrion/internal/injector/aspect/context"
@@ -25,7 +26,10 @@ func (o oneOf) ImpliesImported() []string {
 	// We can only assume a package is imported if all candidates imply it.
 	counts := make(map[string]uint)
 	for _, jp := range o {
-		for _, path := range jp.ImpliesImported() {
+		// A single candidate may imply the same path several times.
+		paths := slices.Clone(jp.ImpliesImported())
+		slices.Sort(paths)
+		for _, path := range slices.Compact(paths) {
 			counts[path]++
 		}
 	}
-- 
2.43.0


From e7d9c300ba9cd0613dfbaddae6d29ee467731498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:14 +0000
Subject: [PATCH 23/51] fix: parent contexts know whether they belong to a test
 main package

---
 internal/injector/aspect/context/context.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/injector/aspect/context/context.go b/internal/injector/aspect/context/context.go
index be6aca8..3c35137 100644
--- a/internal/injector/aspect/context/context.go
+++ b/internal/injector/aspect/context/context.go
@@ -211,12 +211,16 @@ func (c *context) Parent() AspectContext {
 
 	p, _ := contextPool.Get().(*context)
 	*p = context{
-		NodeChain:  parent,
-		file:       c.file,
-		refMap:     c.refMap,
-		importPath: c.importPath,
-		typeInfo:   c.typeInfo,
-		nodeMap:    c.nodeMap,
+		log:          c.log,
+		NodeChain:    parent,
+		file:         c.file,
+		refMap:       c.refMap,
+		minGoLang:    c.minGoLang,
+		sourceParser: c.sourceParser,
+		importPath:   c.importPath,
+		testMain:     c.testMain,
+		typeInfo:     c.typeInfo,
+		nodeMap:      c.nodeMap,
 	}
 
 	return p
-- 
2.43.0


From aab023e063cdcf682166ed3f763c156fa70a328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 24/51] fix: repeated blank imports do not hide a package's
 alias

When a file had several blank imports of a package before one that names
it, the search for the import to retain stopped at the second blank import,
and the alias injected code relies on was removed from the file.
---
 internal/injector/imports.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/injector/imports.go b/internal/injector/imports.go
index 00b1b22..c2ca7ff 100644
--- a/internal/injector/imports.go
+++ b/internal/injector/imports.go
@@ -86,7 +86,7 @@ func filterExtraneousImports(byPath map[string][]*dst.ImportSpec) map[*dst.Impor
 				continue
 			}
 
-			if retain.Name.Name == "_" && spec.Name.Name != "_" {
+			if retain.Name.Name == "_" {
 				retain = spec
 				continue
 			}
-- 
2.43.0


From bd10cf65ac6bb3fcf4ad80e0833c1dcae758a8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:22 +0000
Subject: [PATCH 25/51] fix: failures to read the work directory are not left
 out of the report

---
 internal/report/report.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/report/report.go b/internal/report/report.go
index 0599719..74e354f 100644
--- a/internal/report/report.go
+++ b/internal/report/report.go
@@ -42,7 +42,10 @@ func fromWorkFS(ctx context.Context, root string, fsys fs.FS) (Report, error) {
 
 	var files []ModifiedFile
 	for _, packageBuildDir := range entries {
-		_ = fs.WalkDir(fsys, filepath.Join(packageBuildDir.Name(), aspect.OrchestrionDirPathElement),
+		if !packageBuildDir.IsDir() {
+			continue
+		}
+		err := fs.WalkDir(fsys, filepath.Join(packageBuildDir.Name(), aspect.OrchestrionDirPathElement),
 			func(path string, d os.DirEntry, err error) error {
 				if err != nil {
 					return fmt.Errorf("walk dir %s: %w", path, err)
@@ -62,6 +65,10 @@ func fromWorkFS(ctx context.Context, root string, fsys fs.FS) (Report, error) {
 				return nil
 			},
 		)
+		// The packages which were not modified have no such directory.
+		if err != nil && !errors.Is(err, fs.ErrNotExist) {
+			return Report{}, err
+		}
 	}
 
 	// Sort the files by their modified path relative to the work directory.
-- 
2.43.0


From 12409e40d6610ed716785506a8bd9ea14459e252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 26/51] fix: the report does not keep the original files open

---
 internal/report/report.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/report/report.go b/internal/report/report.go
index 74e354f..e3e0b31 100644
--- a/internal/report/report.go
+++ b/internal/report/report.go
@@ -217,8 +217,10 @@ func (r Report) Diff(writer io.Writer) error {
 
 func (r Report) diff(writer io.Writer, file ModifiedFile) error {
 	// If originalPath does not exists, it means that we have cgo files in there, just skip it
-	if _, err := os.Open(file.original); os.IsNotExist(err) {
+	if _, err := os.Stat(file.original); errors.Is(err, fs.ErrNotExist) {
 		return nil
+	} else if err != nil {
+		return fmt.Errorf("checking %q: %w", file.original, err)
 	}
 
 	// When adding options, always make sure this is supported on all platforms.
-- 
2.43.0


From c4ad886c3cd798ac07615bc744204caaf66d3f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 27/51] fix: failing to look for the import configuration's
 backup is reported

---
 internal/toolexec/aspect/oncompile-main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/toolexec/aspect/oncompile-main.go b/internal/toolexec/aspect/oncompile-main.go
index 65975dc..9afbca4 100644
--- a/internal/toolexec/aspect/oncompile-main.go
+++ b/internal/toolexec/aspect/oncompile-main.go
@@ -170,6 +170,8 @@ func (w Weaver) OnCompileMain(ctx context.Context, cmd *proxy.CompileCommand) (e
 		if err := os.Rename(cmd.Flags.ImportCfg, backupFile); err != nil {
 			return fmt.Errorf("renaming %q: %w", cmd.Flags.ImportCfg, err)
 		}
+	} else if err != nil {
+		return fmt.Errorf("checking %q: %w", backupFile, err)
 	}
 	log.Trace().Str("path", cmd.Flags.ImportCfg).Msg("Writing updated file")
 	if err := reg.WriteFile(cmd.Flags.ImportCfg); err != nil {
-- 
2.43.0


From eb813ef372449eebace17d60e9f76ae70b7932c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:49 +0000
Subject: [PATCH 28/51] fix: honour -C wherever the go command accepts it,
 before pinning

---
 internal/cmd/diff.go      |  7 ++++++-
 internal/cmd/go.go        |  7 ++++++-
 internal/goproxy/dashc.go | 18 +++++++++++++++---
 internal/goproxy/proxy.go |  8 ++------
 4 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/internal/cmd/diff.go b/internal/cmd/diff.go
index 6bfd983..af8a759 100644
--- a/internal/cmd/diff.go
+++ b/internal/cmd/diff.go
@@ -104,7 +104,12 @@ func workFolder(clictx *cli.Context) (string, error) {
 		return workFolder, nil
 	}
 
-	return executeBuildAndCaptureWorkDir(clictx, prepareBuildArgs(clictx.Args().Slice(), clictx.Bool(noCacheFlag.Name)))
+	args, err := goproxy.ProcessDashC(clictx.Context, clictx.Args().Slice())
+	if err != nil {
+		return "", err
+	}
+
+	return executeBuildAndCaptureWorkDir(clictx, prepareBuildArgs(args, clictx.Bool(noCacheFlag.Name)))
 }
 
 func prepareBuildArgs(args []string, forceRebuild bool) []string {
diff --git a/internal/cmd/go.go b/internal/cmd/go.go
index 195d54b..7fda3aa 100644
--- a/internal/cmd/go.go
+++ b/internal/cmd/go.go
@@ -30,11 +30,16 @@ var (
 			)
 			defer func() { span.Finish(tracer.WithError(err)) }()
 
+			args, err := goproxy.ProcessDashC(ctx, clictx.Args().Slice())
+			if err != nil {
+				return cli.Exit(err, -1)
+			}
+
 			if err := pin.AutoPinOrchestrion(ctx, clictx.App.Writer, clictx.App.ErrWriter); err != nil {
 				return cli.Exit(err, -1)
 			}
 
-			if err := goproxy.Run(ctx, clictx.Args().Slice(), goproxy.WithToolexec(binpath.Orchestrion, "toolexec")); err != nil {
+			if err := goproxy.Run(ctx, args, goproxy.WithToolexec(binpath.Orchestrion, "toolexec")); err != nil {
 				var exitErr *exec.ExitError
 				if errors.As(err, &exitErr) {
 					return cli.Exit(err, exitErr.ExitCode())
diff --git a/internal/goproxy/dashc.go b/internal/goproxy/dashc.go
index 9e1eb7d..c22e65c 100644
--- a/internal/goproxy/dashc.go
+++ b/internal/goproxy/dashc.go
@@ -13,12 +13,15 @@ import (
 	"github.com/rs/zerolog"
 )
 
-// processDashC gets the command line arguments passed to a "go" command (without "go" itself), and processes the "-C"
+// ProcessDashC gets the command line arguments passed to a "go" command (without "go" itself), and processes the "-C"
 // flag present at the beginning of the slice (if present), changing directories as requested, then returns the slice
 // without it.
 //
-// The "-C" flags is required to be the very first argument provided to "go" commands.
-func processDashC(ctx context.Context, args []string) ([]string, error) {
+// The "-C" flags is required to be the very first flag provided to "go" commands; which is either before the command's
+// name, or immediately after it.
+//
+// This must be done before anything else looks at the current working directory.
+func ProcessDashC(ctx context.Context, args []string) ([]string, error) {
 	if len(args) == 0 {
 		return nil, nil
 	}
@@ -26,6 +29,15 @@ func processDashC(ctx context.Context, args []string) ([]string, error) {
 	log := zerolog.Ctx(ctx)
 
 	arg0 := args[0]
+	if !strings.HasPrefix(arg0, "-") && len(args) > 1 && strings.HasPrefix(args[1], "-") {
+		// ["command", "-C", "directory", ...]
+		rest, err := ProcessDashC(ctx, args[1:])
+		return append([]string{arg0}, rest...), err
+	}
+	if strings.HasPrefix(arg0, "--C") {
+		// The Go CLI accepts flags with two hyphens instead of one
+		arg0 = arg0[1:]
+	}
 	if !strings.HasPrefix(arg0, "-C") {
 		return args, nil
 	}
diff --git a/internal/goproxy/proxy.go b/internal/goproxy/proxy.go
index b061e97..0ff4dcf 100644
--- a/internal/goproxy/proxy.go
+++ b/internal/goproxy/proxy.go
@@ -65,7 +65,8 @@ func WithJobServers(wg *sync.WaitGroup) Option {
 	}
 }
 
-// BuildCmd returns a new exec.BuildCmd that will run the given goArgs, with the given opts applied.
+// BuildCmd returns a new exec.BuildCmd that will run the given goArgs, with the given opts applied. The goArgs must not
+// include a "-C" flag, see [ProcessDashC].
 func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd, error) {
 	log := zerolog.Ctx(ctx)
 
@@ -74,11 +75,6 @@ func BuildCmd(ctx context.Context, goArgs []string, opts ...Option) (*exec.Cmd,
 		opt(&cfg)
 	}
 
-	goArgs, err := processDashC(ctx, goArgs)
-	if err != nil {
-		return nil, err
-	}
-
 	goBin, err := goenv.GoBinPath()
 	if err != nil {
 		return nil, fmt.Errorf("locating 'go' binary: %w", err)
-- 
2.43.0


From 3bcd658baca9986a0afb0769bc88ab5ba38fa0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:49 +0000
Subject: [PATCH 29/51] fix: exit with a failure when the job server does not
 start

---
 internal/cmd/server.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/cmd/server.go b/internal/cmd/server.go
index 29672d4..2fac88e 100644
--- a/internal/cmd/server.go
+++ b/internal/cmd/server.go
@@ -85,6 +85,9 @@ var Server = &cli.Command{
 		if urlFile := ctx.String("url-file"); urlFile != "" {
 			if err := startWithURLFile(ctx.Context, &opts, urlFile); err != nil {
 				log.Error().Err(err).Str("url-file", urlFile).Msg("Failed to start job server")
+				if err.ExitCode() != exitCodeAlreadyServing {
+					return err
+				}
 			}
 			return nil
 		}
@@ -96,6 +99,10 @@ var Server = &cli.Command{
 	},
 }
 
+// exitCodeAlreadyServing is the code of the error returned when another process is already serving the URL file; which
+// is a success as far as this process' parent is concerned.
+const exitCodeAlreadyServing = 2
+
 // start starts a new job server, and waits for it to have completely shut down if `wait` is true.
 // When `wait` is true, the server is always returned as `nil`.
 func start(ctx context.Context, opts *jobserver.Options, wait bool) (*jobserver.Server, cli.ExitCoder) {
@@ -129,7 +136,7 @@ func startWithURLFile(ctx context.Context, opts *jobserver.Options, urlFile stri
 	if url, err := hasURLToRunningServer(file); err != nil {
 		return cli.Exit(err, 1)
 	} else if url != "" {
-		return cli.Exit(fmt.Sprintf("A server is already listening on %q", url), 2)
+		return cli.Exit(fmt.Sprintf("A server is already listening on %q", url), exitCodeAlreadyServing)
 	}
 
 	// No existing server, so now we're actually going to try starting our own
@@ -144,7 +151,7 @@ func startWithURLFile(ctx context.Context, opts *jobserver.Options, urlFile stri
 	if url, err := hasURLToRunningServer(file); err != nil {
 		return cli.Exit(err, 1)
 	} else if url != "" {
-		return cli.Exit(fmt.Sprintf("A server is already listening on %q", url), 2)
+		return cli.Exit(fmt.Sprintf("A server is already listening on %q", url), exitCodeAlreadyServing)
 	}
 
 	// This process "owns" the URL file, so it'll try had to remove it when it terminates...
-- 
2.43.0


From c07e6ca1e73aec199d1db5419cf90a9a827b6af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 30/51] fix: write the imports pruned by orchestrion pin back
 to the tool file

---
 internal/pin/pin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/pin/pin.go b/internal/pin/pin.go
index fb127f3..60fb9f6 100644
--- a/internal/pin/pin.go
+++ b/internal/pin/pin.go
@@ -146,6 +146,9 @@ func PinOrchestrion(ctx context.Context, opts Options) error {
 	if err != nil {
 		return fmt.Errorf("pruning imports from %q: %w", toolFile, err)
 	}
+	if err := writeUpdated(toolFile, dstFile); err != nil {
+		return fmt.Errorf("updating %q: %w", toolFile, err)
+	}
 
 	if pruned {
 		// Run "go mod tidy" to ensure the `go.mod` file is up-to-date with detected dependencies.
-- 
2.43.0


From 039e24cfc8ae5f8592a2335551bda8d4ccc2213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 31/51] fix: do not panic when a pinned import resolves to
 another path

---
 internal/pin/pin.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/pin/pin.go b/internal/pin/pin.go
index 60fb9f6..ea62561 100644
--- a/internal/pin/pin.go
+++ b/internal/pin/pin.go
@@ -320,8 +320,9 @@ func pruneImports(ctx context.Context, importSet *importSet, opts Options) (bool
 			pruned = pruneImport(importSet, pkg.PkgPath, "there is no "+config.FilenameOrchestrionYML+" nor "+config.FilenameOrchestrionToolGo+" file in this package", opts) || pruned
 			continue
 		}
-		decl := importSet.Find(pkg.PkgPath)
-		decl.Decs.End.Replace("// integration")
+		if decl := importSet.Find(pkg.PkgPath); decl != nil {
+			decl.Decs.End.Replace("// integration")
+		}
 	}
 
 	return pruned, nil
-- 
2.43.0


From 6c4b69d83707b1dbca420c8d097f224662af7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:49 +0000
Subject: [PATCH 32/51] fix: keep the mode of the pinned tool file, and remove
 its temporary file on failure

---
 internal/pin/pin.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/internal/pin/pin.go b/internal/pin/pin.go
index ea62561..4acaae4 100644
--- a/internal/pin/pin.go
+++ b/internal/pin/pin.go
@@ -353,21 +353,36 @@ func pruneImport(importSet *importSet, path string, reason string, opts Options)
 
 // writeUpdated writes the updated AST to the given file, using a temporary file
 // to write the content before renaming it, to maximize atomicity of the update.
-func writeUpdated(filename string, file *dst.File) error {
+func writeUpdated(filename string, file *dst.File) (err error) {
 	var src bytes.Buffer
 	if err := decorator.Fprint(&src, file); err != nil {
 		return fmt.Errorf("formatting source code for %q: %w", filename, err)
 	}
 
+	mode := os.FileMode(0o644)
+	if stat, err := os.Stat(filename); err == nil {
+		mode = stat.Mode().Perm()
+	} else if !errors.Is(err, os.ErrNotExist) {
+		return fmt.Errorf("looking for %q: %w", filename, err)
+	}
+
 	tmpFile, err := os.CreateTemp(filepath.Dir(filename), filepath.Base(filename)+".*")
 	if err != nil {
 		return fmt.Errorf("creating temporary file for %q: %w", filename, err)
 	}
 
 	tmpFilename := tmpFile.Name()
+	defer func() {
+		if err != nil {
+			err = errors.Join(err, os.Remove(tmpFilename))
+		}
+	}()
 	if _, err := io.Copy(tmpFile, &src); err != nil {
 		return errors.Join(fmt.Errorf("writing to temporary file %q: %w", tmpFilename, err), tmpFile.Close())
 	}
+	if err := tmpFile.Chmod(mode); err != nil {
+		return errors.Join(fmt.Errorf("setting the mode of %q: %w", tmpFilename, err), tmpFile.Close())
+	}
 
 	if err := tmpFile.Close(); err != nil {
 		return fmt.Errorf("closing %q: %w", tmpFilename, err)
-- 
2.43.0


From b552cb16a0156034e787037b6765b3645a51564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 33/51] fix: do not panic on a //line directive without a file
 name

---
 internal/injector/parse/mappedfilename.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/injector/parse/mappedfilename.go b/internal/injector/parse/mappedfilename.go
index 29e9af5..15279be 100644
--- a/internal/injector/parse/mappedfilename.go
+++ b/internal/injector/parse/mappedfilename.go
@@ -84,14 +84,14 @@ func cutPositionSuffix(buf []byte) ([]byte, int, bool) {
 	// First, consume the integer at the end of the buffer.
 	pos := 0
 	pow := 1
-	for buf[cutOff] >= '0' && buf[cutOff] <= '9' {
+	for cutOff >= 0 && buf[cutOff] >= '0' && buf[cutOff] <= '9' {
 		pos += pow * int(buf[cutOff]-'0')
 		pow *= 10
 		cutOff--
 	}
 
 	// If there's no ":" before the integer, or there was no digit at all, it was not a position...
-	if buf[cutOff] != ':' || pow == 1 {
+	if cutOff < 0 || buf[cutOff] != ':' || pow == 1 {
 		return buf, 0, false
 	}
 
-- 
2.43.0


From 649faff850306e707c1b22c5bc44c0ba874b40d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 34/51] fix: do not remove white space from raw strings that
 look like //line directives

---
 internal/injector/postprocess.go | 61 +++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/internal/injector/postprocess.go b/internal/injector/postprocess.go
index 24138b7..daf300e 100644
--- a/internal/injector/postprocess.go
+++ b/internal/injector/postprocess.go
@@ -6,37 +6,50 @@
 package injector
 
 import (
-	"bytes"
+	"go/scanner"
+	"go/token"
+	"strings"
 )
 
-var lineDirectivePrefix = []byte("//line ")
+const lineDirectivePrefix = "//line "
 
-// postProcess modifies the provided source text to remove leading white space ahead of //line directives, as they are
-// otherwise ignored by the compiler (directives must begin at the first column of a line). It modifies the input slice
-// to avoid re-allocating (since the output is guaranteed to be the same size or smaller than the input).
+// postProcess returns the provided source text without the leading white space ahead of //line directives, as they are
+// otherwise ignored by the compiler (directives must begin at the first column of a line). Only actual comments are
+// considered: text that looks like a directive within a raw string literal is part of the program, and is left alone.
 func postProcess(src []byte) []byte {
-	for i := 0; i < len(src); {
-		slice := src[i:]
-
-		trimmed := bytes.TrimLeft(slice, " \t")
-		trimmedLen := len(trimmed)
-		if trimmedLen != len(slice) && bytes.HasPrefix(trimmed, lineDirectivePrefix) {
-			// This line has a line directive with leading white space. We need to remove that whilte space, otherwise the
-			// directive will be ignored by the compiler. To do so we move the source data left by the padding amount, and
-			// then truncate the source slice to its new length.
-			newEnd := i + trimmedLen
-			copy(src[i:newEnd], trimmed)
-			src = src[:newEnd]
-		}
+	var (
+		file = token.NewFileSet().AddFile("", -1, len(src))
+		scan scanner.Scanner
+		res  []byte
+		last int // Everything before this offset is already in res, or was removed.
+	)
 
-		// Advance to the next line
-		lf := bytes.IndexByte(src[i:], '\n')
-		if lf < 0 {
-			// This was the last line: we can break out.
+	scan.Init(file, src, nil, scanner.ScanComments)
+	for {
+		pos, tok, lit := scan.Scan()
+		if tok == token.EOF {
 			break
 		}
-		i += lf + 1
+		if tok != token.COMMENT || !strings.HasPrefix(lit, lineDirectivePrefix) {
+			continue
+		}
+
+		end := file.Offset(pos)
+		start := end
+		for start > 0 && (src[start-1] == ' ' || src[start-1] == '\t') {
+			start--
+		}
+		if start == end || (start > 0 && src[start-1] != '\n') {
+			// There is no white space to remove, or the comment does not start its line.
+			continue
+		}
+
+		res = append(res, src[last:start]...)
+		last = end
+	}
+	if last == 0 {
+		return src
 	}
 
-	return src
+	return append(res, src[last:]...)
 }
-- 
2.43.0


From a4aac5dc7fcd5d0576bbb09bddf10885407440b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:59 +0000
Subject: [PATCH 35/51] fix: emit a //line directive whenever the current line
 offset is not the previous one

---
 internal/injector/lineinfo/annotation.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/internal/injector/lineinfo/annotation.go b/internal/injector/lineinfo/annotation.go
index 234e6f5..6041cd2 100644
--- a/internal/injector/lineinfo/annotation.go
+++ b/internal/injector/lineinfo/annotation.go
@@ -75,6 +75,7 @@ func (v *annotationVisitor) Visit(node ast.Node) ast.Visitor {
 
 	// Emit a `//line <file>:1:1` directive at start of file to act as a base for all subsequent declarations.
 	if prevInfo.adjFile == "" {
+		prevInfo.curFile, prevInfo.curLine = curPosition.Filename, 1
 		prevInfo.adjFile, prevInfo.adjLine = curPosition.Filename, 1
 		dstNode.Decorations().Start.Prepend(prevInfo.directive(true))
 	}
@@ -108,12 +109,6 @@ func (v *annotationVisitor) Visit(node ast.Node) ast.Visitor {
 	// Update the adjusted position to the current observed one...
 	v.adjFile, v.adjLine = adjPosition.Filename, adjPosition.Line
 
-	if curPosition.Line == adjPosition.Line && curPosition.Filename == adjPosition.Filename &&
-		adjPosition.Filename == prevInfo.adjFile {
-		// Current & adjusted positions match, and we've not changed adjusted files -- nothing to do!
-		return v
-	}
-
 	if adjPosition.Line-prevInfo.adjLine == curPosition.Line-prevInfo.curLine &&
 		prevInfo.curFile == curPosition.Filename &&
 		prevInfo.adjFile == adjPosition.Filename {
-- 
2.43.0


From 819758fe7fb61dbb5942fbb28c7be93faf48d653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 36/51] fix: accept all valid import paths and identifiers in
 type names

The configuration schema allows any Go identifier, and import paths may contain
'~' and '+' (e.g. git.sr.ht/~user/repo), but type names using these were refused.
---
 internal/injector/typed/typename.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/injector/typed/typename.go b/internal/injector/typed/typename.go
index 2a83829..8512d32 100644
--- a/internal/injector/typed/typename.go
+++ b/internal/injector/typed/typename.go
@@ -41,7 +41,7 @@ type TypeName struct {
 
 // FIXME: this does not support all the type syntax, like: "chan Event"
 // It primarily handles identifiers, qualified identifiers, and pointers to those.
-var typeNameRe = regexp.MustCompile(`\A(\*)?\s*(?:([A-Za-z0-9_.-]+(?:/[A-Za-z0-9_.-]+)*)\.)?([A-Za-z_][A-Za-z0-9_]*)\z`)
+var typeNameRe = regexp.MustCompile(`\A(\*)?\s*(?:([A-Za-z0-9_.~+-]+(?:/[A-Za-z0-9_.~+-]+)*)\.)?([\p{L}_][\p{L}_\p{Nd}]*)\z`)
 
 // NewTypeName parses a string representation of a type name into a TypeName struct.
 // It returns an error if the syntax is invalid according to its limited regular expression.
-- 
2.43.0


From 77f9d0506e382554b3267c5f3fb2467a79cbe6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 37/51] fix: accept interface{} as a type name

The configuration schema documents interface{} as a valid type reference, but
join points and advice using it were refused when loading the configuration.
---
 internal/injector/typed/typename.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/injector/typed/typename.go b/internal/injector/typed/typename.go
index 8512d32..1f53901 100644
--- a/internal/injector/typed/typename.go
+++ b/internal/injector/typed/typename.go
@@ -46,6 +46,11 @@ var typeNameRe = regexp.MustCompile(`\A(\*)?\s*(?:([A-Za-z0-9_.~+-]+(?:/[A-Za-z0
 // NewTypeName parses a string representation of a type name into a TypeName struct.
 // It returns an error if the syntax is invalid according to its limited regular expression.
 func NewTypeName(n string) (tn TypeName, err error) {
+	if n == "interface{}" {
+		// The pre-go1.18 spelling of "any", which the configuration schema allows.
+		n = "any"
+	}
+
 	matches := typeNameRe.FindStringSubmatch(n)
 	if matches == nil {
 		err = fmt.Errorf("invalid TypeName syntax: %q", n)
-- 
2.43.0


From fdd1772563ddaad3b6688363f00cd1655d66087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 38/51] fix: expand parameters that share a type when matching
 function signatures

---
 internal/injector/aspect/join/function.go | 37 ++++++++++-------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/internal/injector/aspect/join/function.go b/internal/injector/aspect/join/function.go
index 675404b..f9924b2 100644
--- a/internal/injector/aspect/join/function.go
+++ b/internal/injector/aspect/join/function.go
@@ -191,34 +191,29 @@ func (fo *signature) impliesImported() (list []string) {
 }
 
 func (fo *signature) evaluate(info functionInformation) bool {
-	if info.Type.Results == nil || len(info.Type.Results.List) == 0 {
-		if len(fo.Results) != 0 {
-			return false
-		}
-	} else if len(info.Type.Results.List) != len(fo.Results) {
-		return false
-	} else {
-		for i := 0; i < len(fo.Results); i++ {
-			if !fo.Results[i].Matches(info.Type.Results.List[i].Type) {
-				return false
+	return matchTypes(fo.Results, info.Type.Results) && matchTypes(fo.Arguments, info.Type.Params)
+}
+
+// matchTypes checks that the types of the fields are the expected ones, in order. Names that share
+// a type (e.g. `a, b string`) are fields of their own.
+func matchTypes(expected []typed.TypeName, fields *dst.FieldList) bool {
+	var actual []dst.Expr
+	if fields != nil {
+		for _, field := range fields.List {
+			for range max(1, len(field.Names)) {
+				actual = append(actual, field.Type)
 			}
 		}
 	}
 
-	if info.Type.Params == nil || len(info.Type.Params.List) == 0 {
-		if len(fo.Arguments) != 0 {
-			return false
-		}
-	} else if len(info.Type.Params.List) != len(fo.Arguments) {
+	if len(actual) != len(expected) {
 		return false
-	} else {
-		for i := 0; i < len(fo.Arguments); i++ {
-			if !fo.Arguments[i].Matches(info.Type.Params.List[i].Type) {
-				return false
-			}
+	}
+	for i, typeName := range expected {
+		if !typeName.Matches(actual[i]) {
+			return false
 		}
 	}
-
 	return true
 }
 
-- 
2.43.0


From 67ab181201092bc60e961895fe10df895a271c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 39/51] fix: do not match interface{} against a pointer to any

---
 internal/injector/typed/typename.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/injector/typed/typename.go b/internal/injector/typed/typename.go
index 1f53901..5248de0 100644
--- a/internal/injector/typed/typename.go
+++ b/internal/injector/typed/typename.go
@@ -105,7 +105,7 @@ func (n TypeName) Matches(node dst.Expr) bool {
 		if len(node.Methods.List) != 0 {
 			return false
 		}
-		return n.ImportPath == "" && n.Name == "any"
+		return !n.Pointer && n.ImportPath == "" && n.Name == "any"
 
 	default:
 		return false
-- 
2.43.0


From ffb4ac1ad6251898b3401813847af1f22780c3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 40/51] fix: return the last of the results that share a type
 from LastResultThatImplements

---
 internal/injector/aspect/advice/code/dot_function.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/injector/aspect/advice/code/dot_function.go b/internal/injector/aspect/advice/code/dot_function.go
index 395976f..b1680e9 100644
--- a/internal/injector/aspect/advice/code/dot_function.go
+++ b/internal/injector/aspect/advice/code/dot_function.go
@@ -182,15 +182,15 @@ func (s signature) LastResultThatImplements(name string) (string, error) {
 	if tn, err := typed.NewTypeName(name); err == nil {
 		currentIndex := 0
 		for _, field := range s.Results.List {
-			if tn.Matches(field.Type) {
-				lastMatchIndex = currentIndex // Update last found index
-			}
 			// Increment index by the number of names in the field (or 1 if unnamed).
 			count := len(field.Names)
 			if count == 0 {
 				count = 1
 			}
 			currentIndex += count
+			if tn.Matches(field.Type) {
+				lastMatchIndex = currentIndex - 1 // Update last found index (the last name of the field)
+			}
 		}
 	}
 	// If we found a match via TypeName, return it.
@@ -206,16 +206,16 @@ func (s signature) LastResultThatImplements(name string) (string, error) {
 	}
 
 	// Fallback: Check using ExprImplements, iterating backward.
-	// Need field indices map again for this path.
+	// Need field indices map again for this path (of the last name of each field).
 	fieldIndices := make(map[*dst.Field]int)
 	index := 0
 	for _, field := range s.Results.List {
-		fieldIndices[field] = index
 		count := len(field.Names)
 		if count == 0 {
 			count = 1
 		}
 		index += count
+		fieldIndices[field] = index - 1
 	}
 
 	for i := len(s.Results.List) - 1; i >= 0; i-- {
-- 
2.43.0


From 0bf86c6e5b57fd330a15c82c5935ada046442ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 41/51] fix: boolean go flags orchestrion does not process do
 not take the next argument

---
 internal/goflags/flags.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/internal/goflags/flags.go b/internal/goflags/flags.go
index 67e22ec..6637303 100644
--- a/internal/goflags/flags.go
+++ b/internal/goflags/flags.go
@@ -67,6 +67,20 @@ var (
 		"-tags":          {}, // Set build tags
 		"-toolexec":      {}, // Set the command to run around tool execution
 	}
+	// unknownShortFlags are the boolean flags of the "build", "install", "run", and "test" commands that we don't process.
+	// These never consume the argument that follows them.
+	unknownShortFlags = map[string]struct{}{
+		"-artifacts": {}, // Save test artifacts
+		"-benchmem":  {}, // Print memory allocation statistics for benchmarks
+		"-c":         {}, // Compile the test binary without running it
+		"-failfast":  {}, // Do not start new tests after the first failure
+		"-fullpath":  {}, // Show full file names in error messages
+		"-json":      {}, // Emit output in JSON
+		"-n":         {}, // Print the commands without running them
+		"-short":     {}, // Tell long-running tests to shorten their run time
+		"-v":         {}, // Print the names of packages as they are compiled, or tests as they are run
+		"-x":         {}, // Print the commands
+	}
 )
 
 // Get returns the value of the specified long-form flag if present. The name is
@@ -214,8 +228,8 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 			// Intentionally the un-normalized variant in Unknown flags.
 			flags.Unknown = append(flags.Unknown, arg)
 			// If there's more args, and the next one does not have a leading -, we'll assume this is the value of this
-			// unknown flag and consume it.
-			if len(args) > i+1 && !strings.HasPrefix(args[i+1], "-") {
+			// unknown flag (unless it is known not to have one) and consume it.
+			if _, isBool := unknownShortFlags[normArg]; !isBool && len(args) > i+1 && !strings.HasPrefix(args[i+1], "-") {
 				flags.Unknown = append(flags.Unknown, args[i+1])
 				i++
 			}
-- 
2.43.0


From 41164e16fa1420507ecf082774f080eea0fa617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 42/51] fix: do not take arguments to the program or test
 binary for go flags

---
 internal/goflags/flags.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/goflags/flags.go b/internal/goflags/flags.go
index 6637303..34d0998 100644
--- a/internal/goflags/flags.go
+++ b/internal/goflags/flags.go
@@ -166,9 +166,11 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 	}
 
 	// The next argument after a `-C` (if present) would be the go command name ("run", "test", "list", etc...). This is
-	// not interesting for our purposes, so we skip it.
+	// only interesting for the purpose of telling go flags from arguments to the program or test binary.
+	var command string
 	if len(args) > 0 {
-		log.Trace().Str("command", args[0]).Msg("Go command from arguments")
+		command = args[0]
+		log.Trace().Str("command", command).Msg("Go command from arguments")
 		args = args[1:]
 	}
 
@@ -189,6 +191,10 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 		// Any argument without a leading "-" is a positional argument (until proven otherwise).
 		if !strings.HasPrefix(arg, "-") {
 			positional = append(positional, arg)
+			if command == "run" && (!strings.HasSuffix(arg, ".go") || i+1 >= len(args) || !strings.HasSuffix(args[i+1], ".go")) {
+				// This is the package (or the last file) to run, the rest are arguments to the program.
+				break
+			}
 			continue
 		}
 
@@ -199,6 +205,11 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 			normArg = arg[1:]
 		}
 
+		if command == "test" && normArg == "-args" {
+			// The rest are arguments to the test binary.
+			break
+		}
+
 		if key, val, isAssigned := strings.Cut(normArg, "="); isAssigned {
 			if isLong(key) {
 				flags.Long[key] = val
-- 
2.43.0


From f8aa38a1d276a3c4d4191f63c012e597a8d8271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 43/51] fix: expand all relative patterns of -coverpkg

---
 internal/goflags/flags.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/goflags/flags.go b/internal/goflags/flags.go
index 34d0998..a12e9ef 100644
--- a/internal/goflags/flags.go
+++ b/internal/goflags/flags.go
@@ -12,6 +12,7 @@ import (
 	"context"
 	"errors"
 	"fmt"
+	"go/build"
 	"io/fs"
 	"os"
 	"os/exec"
@@ -258,7 +259,7 @@ func ParseCommandFlags(ctx context.Context, wd string, args []string) (CommandFl
 // inferCoverpkg will add the necessary `-coverpkg` argument if the `-cover` flags is present and
 // `-coverpkg` is not, as otherwise, sub-commands triggered with these flags will not apply coverage
 // to the intended packages.
-// If `-coverpkg` is present, it will expand any relative paths (recognized by a `./` prefix) into
+// If `-coverpkg` is present, it will expand any relative paths (`.`, `..`, or with a `./` or `../` prefix) into
 // absolute package names, so that child builds do not interpret these relative to a different
 // package root.
 func (f *CommandFlags) inferCoverpkg(ctx context.Context, wd string, positionalArgs []string) error {
@@ -284,7 +285,7 @@ func (f *CommandFlags) inferCoverpkg(ctx context.Context, wd string, positionalA
 			if idx > 0 {
 				_ = newValBuf.WriteByte(',')
 			}
-			if !strings.HasPrefix(pattern, "./") && !strings.HasPrefix(pattern, ".\\") {
+			if !build.IsLocalImport(filepath.ToSlash(pattern)) {
 				// If the pattern is not relative, so we're good.
 				_, _ = newValBuf.WriteString(pattern)
 				continue
-- 
2.43.0


From 8237d216a48247c3a3617b6caa2e1d7b90c5d8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 44/51] fix: parse the command line of the emulated go command,
 not that of the emulator

---
 internal/goflags/flags.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/goflags/flags.go b/internal/goflags/flags.go
index a12e9ef..382cd5d 100644
--- a/internal/goflags/flags.go
+++ b/internal/goflags/flags.go
@@ -454,8 +454,10 @@ func parentGoCommandFlags(ctx context.Context, pid int) (flags CommandFlags, err
 			if err2 != nil {
 				err = errors.Join(err, fmt.Errorf("failed to resolve argv1 (%q) of %d (attempting Apple rosetta fallback): %w", args[1], p.Pid, err2))
 			} else {
-				// The fallback was successful, we no longer have an error!
+				// The fallback was successful, we no longer have an error! The command line we are looking for is that of the
+				// emulated command.
 				err = nil
+				args = args[1:]
 				log.Trace().Str("command", cmd).Msg("Rosetta fall-back was successful")
 			}
 		}
-- 
2.43.0


From ffa112778672d6df92c7ed4732a8e41ad2b9a418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:15 +0000
Subject: [PATCH 45/51] fix: accept the counts given to flags of the compiler
 and linker (e.g. -gcflags=-m=2)

---
 internal/toolexec/proxy/compile.flags.go  | 76 +++++++++++------------
 internal/toolexec/proxy/generator/main.go |  6 +-
 internal/toolexec/proxy/link.flags.go     | 44 ++++++-------
 internal/toolexec/proxy/parse.go          |  5 ++
 4 files changed, 70 insertions(+), 61 deletions(-)

diff --git a/internal/toolexec/proxy/compile.flags.go b/internal/toolexec/proxy/compile.flags.go
index 95b8dff..2abf504 100644
--- a/internal/toolexec/proxy/compile.flags.go
+++ b/internal/toolexec/proxy/compile.flags.go
@@ -11,77 +11,77 @@ import "flag"
 
 func (f *compileFlagSet) parse(args []string) ([]string, error) {
 	flagSet := flag.NewFlagSet("compile version go1.25", flag.ContinueOnError)
-	flagSet.Bool("%", false, "debug non-static initializers")
-	flagSet.Bool("+", false, "compiling runtime")
-	flagSet.Bool("B", false, "disable bounds checking")
-	flagSet.Bool("C", false, "disable printing of columns in error messages")
+	flagSet.BoolFunc("%", "debug non-static initializers", ignoreValue)
+	flagSet.BoolFunc("+", "compiling runtime", ignoreValue)
+	flagSet.BoolFunc("B", "disable bounds checking", ignoreValue)
+	flagSet.BoolFunc("C", "disable printing of columns in error messages", ignoreValue)
 	flagSet.String("D", "", "set relative path for local imports")
-	flagSet.Bool("E", false, "debug symbol export")
+	flagSet.BoolFunc("E", "debug symbol export", ignoreValue)
 	flagSet.String("I", "", "add directory to import search path")
-	flagSet.Bool("K", false, "debug missing line numbers")
-	flagSet.Bool("L", false, "also show actual source file names in error messages for positions affected by //line directives")
-	flagSet.Bool("N", false, "disable optimizations")
-	flagSet.Bool("S", false, "print assembly listing")
+	flagSet.BoolFunc("K", "debug missing line numbers", ignoreValue)
+	flagSet.BoolFunc("L", "also show actual source file names in error messages for positions affected by //line directives", ignoreValue)
+	flagSet.BoolFunc("N", "disable optimizations", ignoreValue)
+	flagSet.BoolFunc("S", "print assembly listing", ignoreValue)
 	flagSet.BoolFunc("V", "print version and exit", func(string) error {
 		f.ShowVersion = true
 		return nil
 	})
-	flagSet.Bool("W", false, "debug parse tree after type checking")
-	flagSet.Bool("asan", false, "build code compatible with C/C++ address sanitizer")
+	flagSet.BoolFunc("W", "debug parse tree after type checking", ignoreValue)
+	flagSet.BoolFunc("asan", "build code compatible with C/C++ address sanitizer", ignoreValue)
 	flagSet.StringVar(&f.Asmhdr, "asmhdr", "", "write assembly header to file")
 	flagSet.String("bench", "", "append benchmark times to file")
 	flagSet.String("blockprofile", "", "write block profile to file")
 	flagSet.StringVar(&f.BuildID, "buildid", "", "record id as the build id in the export metadata")
 	flagSet.Int("c", 0, "concurrency during compilation (1 means no concurrency)")
-	flagSet.Bool("clobberdead", false, "clobber dead stack slots (for debugging)")
-	flagSet.Bool("clobberdeadreg", false, "clobber dead registers (for debugging)")
-	flagSet.Bool("complete", false, "compiling complete package (no C or assembly)")
+	flagSet.BoolFunc("clobberdead", "clobber dead stack slots (for debugging)", ignoreValue)
+	flagSet.BoolFunc("clobberdeadreg", "clobber dead registers (for debugging)", ignoreValue)
+	flagSet.BoolFunc("complete", "compiling complete package (no C or assembly)", ignoreValue)
 	flagSet.String("coveragecfg", "", "read coverage configuration from file")
 	flagSet.String("cpuprofile", "", "write cpu profile to file")
 	flagSet.String("d", "", "enable debugging settings; try -d help")
-	flagSet.Bool("dwarf", false, "generate DWARF symbols")
-	flagSet.Bool("dwarfbasentries", false, "use base address selection entries in DWARF")
-	flagSet.Bool("dwarflocationlists", false, "add location lists to DWARF in optimized mode")
-	flagSet.Bool("dynlink", false, "support references to Go symbols defined in other shared libraries")
-	flagSet.Bool("e", false, "no limit on number of errors reported")
+	flagSet.BoolFunc("dwarf", "generate DWARF symbols", ignoreValue)
+	flagSet.BoolFunc("dwarfbasentries", "use base address selection entries in DWARF", ignoreValue)
+	flagSet.BoolFunc("dwarflocationlists", "add location lists to DWARF in optimized mode", ignoreValue)
+	flagSet.BoolFunc("dynlink", "support references to Go symbols defined in other shared libraries", ignoreValue)
+	flagSet.BoolFunc("e", "no limit on number of errors reported", ignoreValue)
 	flagSet.String("embedcfg", "", "read go:embed configuration from file")
 	flagSet.String("env", "", "add definition of the form key=value to environment")
-	flagSet.Bool("errorurl", false, "print explanatory URL with error message if applicable")
+	flagSet.BoolFunc("errorurl", "print explanatory URL with error message if applicable", ignoreValue)
 	flagSet.Int("gendwarfinl", 0, "generate DWARF inline info records")
 	flagSet.String("goversion", "", "required version of the runtime")
-	flagSet.Bool("h", false, "halt on error")
+	flagSet.BoolFunc("h", "halt on error", ignoreValue)
 	flagSet.StringVar(&f.ImportCfg, "importcfg", "", "read import configuration from file")
 	flagSet.String("installsuffix", "", "set pkg directory suffix")
-	flagSet.Bool("j", false, "debug runtime-initialized variables")
+	flagSet.BoolFunc("j", "debug runtime-initialized variables", ignoreValue)
 	flagSet.String("json", "", "version,file for JSON compiler/optimizer detail output")
-	flagSet.Bool("l", false, "disable inlining")
+	flagSet.BoolFunc("l", "disable inlining", ignoreValue)
 	flagSet.StringVar(&f.Lang, "lang", "", "Go language version source code expects")
 	flagSet.String("linkobj", "", "write linker-specific object to file")
-	flagSet.Bool("linkshared", false, "generate code that will be linked against Go shared libraries")
-	flagSet.Bool("live", false, "debug liveness analysis")
-	flagSet.Bool("m", false, "print optimization decisions")
+	flagSet.BoolFunc("linkshared", "generate code that will be linked against Go shared libraries", ignoreValue)
+	flagSet.BoolFunc("live", "debug liveness analysis", ignoreValue)
+	flagSet.BoolFunc("m", "print optimization decisions", ignoreValue)
 	flagSet.String("memprofile", "", "write memory profile to file")
 	flagSet.String("memprofilerate", "", "set runtime.MemProfileRate to rate")
-	flagSet.Bool("msan", false, "build code compatible with C/C++ memory sanitizer")
+	flagSet.BoolFunc("msan", "build code compatible with C/C++ memory sanitizer", ignoreValue)
 	flagSet.String("mutexprofile", "", "write mutex profile to file")
-	flagSet.Bool("nolocalimports", false, "reject local (relative) imports")
+	flagSet.BoolFunc("nolocalimports", "reject local (relative) imports", ignoreValue)
 	flagSet.StringVar(&f.Output, "o", "", "write output to file")
 	flagSet.StringVar(&f.Package, "p", "", "set expected package import path")
-	flagSet.Bool("pack", false, "write to file.a instead of file.o")
+	flagSet.BoolFunc("pack", "write to file.a instead of file.o", ignoreValue)
 	flagSet.String("pgoprofile", "", "read profile or pre-process profile from file")
-	flagSet.Bool("r", false, "debug generated wrappers")
-	flagSet.Bool("race", false, "enable race detector")
-	flagSet.Bool("shared", false, "generate code that can be linked into a shared library")
-	flagSet.Bool("smallframes", false, "reduce the size limit for stack allocated objects")
+	flagSet.BoolFunc("r", "debug generated wrappers", ignoreValue)
+	flagSet.BoolFunc("race", "enable race detector", ignoreValue)
+	flagSet.BoolFunc("shared", "generate code that can be linked into a shared library", ignoreValue)
+	flagSet.BoolFunc("smallframes", "reduce the size limit for stack allocated objects", ignoreValue)
 	flagSet.String("spectre", "", "enable spectre mitigations in list (all, index, ret)")
-	flagSet.Bool("std", false, "compiling standard library")
+	flagSet.BoolFunc("std", "compiling standard library", ignoreValue)
 	flagSet.String("symabis", "", "read symbol ABIs from file")
-	flagSet.Bool("t", false, "enable tracing for debugging the compiler")
+	flagSet.BoolFunc("t", "enable tracing for debugging the compiler", ignoreValue)
 	flagSet.String("traceprofile", "", "write an execution trace to file")
 	flagSet.String("trimpath", "", "remove prefix from recorded source file paths")
-	flagSet.Bool("v", false, "increase debug verbosity")
-	flagSet.Bool("w", false, "debug type checking")
-	flagSet.Bool("wb", false, "enable write barrier")
+	flagSet.BoolFunc("v", "increase debug verbosity", ignoreValue)
+	flagSet.BoolFunc("w", "debug type checking", ignoreValue)
+	flagSet.BoolFunc("wb", "enable write barrier", ignoreValue)
 
 	err := flagSet.Parse(args)
 	return flagSet.Args(), err
diff --git a/internal/toolexec/proxy/generator/main.go b/internal/toolexec/proxy/generator/main.go
index 069ecbb..1b7c492 100644
--- a/internal/toolexec/proxy/generator/main.go
+++ b/internal/toolexec/proxy/generator/main.go
@@ -262,7 +262,11 @@ func main() {
 
 				flagName := jen.Lit(spec.Flag[1:])
 
-				if funcName == "Bool" && spec.Flag == "-V" {
+				if funcName == "Bool" && spec.Flag != "-V" && !captured {
+					// The usage text does not tell boolean flags from counting ones (e.g, "-m=2"); so leave it up to the tool to
+					// validate the value.
+					g.Id("flagSet").Dot("BoolFunc").Call(flagName, jen.Lit(descr), jen.Id("ignoreValue"))
+				} else if funcName == "Bool" && spec.Flag == "-V" {
 					var handler *jen.Statement
 					if captured {
 						handler = jen.Func().Params(jen.String()).Error().Block(
diff --git a/internal/toolexec/proxy/link.flags.go b/internal/toolexec/proxy/link.flags.go
index 1e6cfca..d6d5ec7 100644
--- a/internal/toolexec/proxy/link.flags.go
+++ b/internal/toolexec/proxy/link.flags.go
@@ -23,54 +23,54 @@ func (f *linkFlagSet) parse(args []string) ([]string, error) {
 		return nil
 	})
 	flagSet.String("X", "", "add string value definition of the form importpath.name=value")
-	flagSet.Bool("a", false, "no-op (deprecated)")
-	flagSet.Bool("asan", false, "enable ASan interface")
-	flagSet.Bool("aslr", false, "enable ASLR for buildmode=c-shared on windows")
+	flagSet.BoolFunc("a", "no-op (deprecated)", ignoreValue)
+	flagSet.BoolFunc("asan", "enable ASan interface", ignoreValue)
+	flagSet.BoolFunc("aslr", "enable ASLR for buildmode=c-shared on windows", ignoreValue)
 	flagSet.String("benchmark", "", "set to 'mem' or 'cpu' to enable phase benchmarking")
 	flagSet.String("benchmarkprofile", "", "emit phase profiles to base_phase.{cpu,mem}prof")
-	flagSet.Bool("bindnow", false, "mark a dynamically linked ELF object for immediate function binding")
+	flagSet.BoolFunc("bindnow", "mark a dynamically linked ELF object for immediate function binding", ignoreValue)
 	flagSet.String("buildid", "", "record id as Go toolchain build id")
 	flagSet.StringVar(&f.BuildMode, "buildmode", "", "set build mode")
-	flagSet.Bool("c", false, "dump call graph")
+	flagSet.BoolFunc("c", "dump call graph", ignoreValue)
 	flagSet.String("capturehostobjs", "", "capture host object files loaded during internal linking to specified dir")
-	flagSet.Bool("checklinkname", false, "check linkname symbol references")
-	flagSet.Bool("compressdwarf", false, "compress DWARF if possible")
+	flagSet.BoolFunc("checklinkname", "check linkname symbol references", ignoreValue)
+	flagSet.BoolFunc("compressdwarf", "compress DWARF if possible", ignoreValue)
 	flagSet.String("cpuprofile", "", "write cpu profile to file")
-	flagSet.Bool("d", false, "disable dynamic executable")
-	flagSet.Bool("debugnosplit", false, "dump nosplit call graph")
+	flagSet.BoolFunc("d", "disable dynamic executable", ignoreValue)
+	flagSet.BoolFunc("debugnosplit", "dump nosplit call graph", ignoreValue)
 	flagSet.Int("debugtextsize", 0, "debug text section max size")
 	flagSet.Int("debugtramp", 0, "debug trampolines")
-	flagSet.Bool("dumpdep", false, "dump symbol dependency graph")
-	flagSet.Bool("e", false, "no limit on number of errors reported")
+	flagSet.BoolFunc("dumpdep", "dump symbol dependency graph", ignoreValue)
+	flagSet.BoolFunc("e", "no limit on number of errors reported", ignoreValue)
 	flagSet.String("extar", "", "archive program for buildmode=c-archive")
 	flagSet.String("extld", "", "use linker when linking in external mode")
 	flagSet.String("extldflags", "", "pass flags to external linker")
-	flagSet.Bool("f", false, "ignore version mismatch")
+	flagSet.BoolFunc("f", "ignore version mismatch", ignoreValue)
 	flagSet.String("fipso", "", "write fips module to file")
 	flagSet.String("funcalign", "", "set function align to N bytes")
-	flagSet.Bool("g", false, "disable go package data checks")
-	flagSet.Bool("h", false, "halt on error")
+	flagSet.BoolFunc("g", "disable go package data checks", ignoreValue)
+	flagSet.BoolFunc("h", "halt on error", ignoreValue)
 	flagSet.StringVar(&f.ImportCfg, "importcfg", "", "read import configuration from file")
 	flagSet.String("installsuffix", "", "set package directory suffix")
 	flagSet.String("k", "", "set field tracking symbol")
 	flagSet.String("libgcc", "", "compiler support lib for internal linking; use \"none\" to disable")
 	flagSet.String("linkmode", "", "set link mode")
-	flagSet.Bool("linkshared", false, "link against installed Go shared libraries")
+	flagSet.BoolFunc("linkshared", "link against installed Go shared libraries", ignoreValue)
 	flagSet.String("memprofile", "", "write memory profile to file")
 	flagSet.String("memprofilerate", "", "set runtime.MemProfileRate to rate")
-	flagSet.Bool("msan", false, "enable MSan interface")
-	flagSet.Bool("n", false, "no-op (deprecated)")
+	flagSet.BoolFunc("msan", "enable MSan interface", ignoreValue)
+	flagSet.BoolFunc("n", "no-op (deprecated)", ignoreValue)
 	flagSet.StringVar(&f.Output, "o", "", "write output to file")
 	flagSet.String("pluginpath", "", "full path name for plugin")
-	flagSet.Bool("pruneweakmap", false, "prune weak mapinit refs")
+	flagSet.BoolFunc("pruneweakmap", "prune weak mapinit refs", ignoreValue)
 	flagSet.String("r", "", "set the ELF dynamic linker search path to dir1:dir2:...")
-	flagSet.Bool("race", false, "enable race detector")
+	flagSet.BoolFunc("race", "enable race detector", ignoreValue)
 	flagSet.Int("randlayout", 0, "randomize function layout")
-	flagSet.Bool("s", false, "disable symbol table")
+	flagSet.BoolFunc("s", "disable symbol table", ignoreValue)
 	flagSet.Int("strictdups", 0, "sanity check duplicate symbol contents during object file reading (1=warn 2=err).")
 	flagSet.String("tmpdir", "", "use directory for temporary files")
-	flagSet.Bool("v", false, "print link trace")
-	flagSet.Bool("w", false, "disable DWARF generation")
+	flagSet.BoolFunc("v", "print link trace", ignoreValue)
+	flagSet.BoolFunc("w", "disable DWARF generation", ignoreValue)
 
 	err := flagSet.Parse(args)
 	return flagSet.Args(), err
diff --git a/internal/toolexec/proxy/parse.go b/internal/toolexec/proxy/parse.go
index 96a8b72..cd6dea5 100644
--- a/internal/toolexec/proxy/parse.go
+++ b/internal/toolexec/proxy/parse.go
@@ -75,3 +75,8 @@ func parseCommandID(cmd string) (CommandType, error) {
 	}
 	return cmdType, nil
 }
+
+// ignoreValue is the handler of flags the value of which is of no interest.
+func ignoreValue(string) error {
+	return nil
+}
-- 
2.43.0


From 0419c8ac3c29a353abb40b63bb23db7cbd4f1c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:01 +0000
Subject: [PATCH 46/51] fix: change the last occurrence of a flag given several
 times

---
 internal/toolexec/proxy/proxy.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/toolexec/proxy/proxy.go b/internal/toolexec/proxy/proxy.go
index 296d3c2..5ebe790 100644
--- a/internal/toolexec/proxy/proxy.go
+++ b/internal/toolexec/proxy/proxy.go
@@ -104,8 +104,10 @@ func (*command) Close(context.Context, error) error {
 // SetFlag replaces the value of the specified flag with the provided one.
 // Returns an error if the flag is not present in the current arguments list.
 func (cmd *command) SetFlag(flag string, val string) error {
-	for arg, idx := range cmd.paramPos {
-		if arg == flag || arg == "-"+flag {
+	// If the flag is specified multiple times, the last occurrence is the effective one.
+	for idx := len(cmd.args) - 1; idx > 0; idx-- {
+		arg := cmd.args[idx]
+		if (arg == flag || arg == "-"+flag) && idx+1 < len(cmd.args) {
 			cmd.args[idx+1] = val
 			return nil
 		}
-- 
2.43.0


From e2355b8659dc019e769dfd22cf33b1ec2d147135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:02 +0000
Subject: [PATCH 47/51] fix: accept the -D flag of the linker of go1.26

---
 internal/toolexec/proxy/compile.flags.go | 2 +-
 internal/toolexec/proxy/link.flags.go    | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/toolexec/proxy/compile.flags.go b/internal/toolexec/proxy/compile.flags.go
index 2abf504..98b56f9 100644
--- a/internal/toolexec/proxy/compile.flags.go
+++ b/internal/toolexec/proxy/compile.flags.go
@@ -10,7 +10,7 @@ package proxy
 import "flag"
 
 func (f *compileFlagSet) parse(args []string) ([]string, error) {
-	flagSet := flag.NewFlagSet("compile version go1.25", flag.ContinueOnError)
+	flagSet := flag.NewFlagSet("compile version go1.26", flag.ContinueOnError)
 	flagSet.BoolFunc("%", "debug non-static initializers", ignoreValue)
 	flagSet.BoolFunc("+", "compiling runtime", ignoreValue)
 	flagSet.BoolFunc("B", "disable bounds checking", ignoreValue)
diff --git a/internal/toolexec/proxy/link.flags.go b/internal/toolexec/proxy/link.flags.go
index d6d5ec7..3f4d78b 100644
--- a/internal/toolexec/proxy/link.flags.go
+++ b/internal/toolexec/proxy/link.flags.go
@@ -10,8 +10,9 @@ package proxy
 import "flag"
 
 func (f *linkFlagSet) parse(args []string) ([]string, error) {
-	flagSet := flag.NewFlagSet("link version go1.25", flag.ContinueOnError)
+	flagSet := flag.NewFlagSet("link version go1.26", flag.ContinueOnError)
 	flagSet.String("B", "", "set ELF NT_GNU_BUILD_ID note or Mach-O UUID; use \"gobuildid\" to generate it from the Go build ID; \"none\" to disable")
+	flagSet.Int("D", 0, "set the start address of data symbols")
 	flagSet.String("E", "", "set entry symbol name")
 	flagSet.String("H", "", "set header type")
 	flagSet.String("I", "", "use linker as ELF dynamic linker")
-- 
2.43.0


From ab707668d8c06e566f234a17aa2d69721e631e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:04 +0000
Subject: [PATCH 48/51] fix: close the archives export data is read from

---
 internal/injector/restorer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/injector/restorer.go b/internal/injector/restorer.go
index 2a9d495..7012bac 100644
--- a/internal/injector/restorer.go
+++ b/internal/injector/restorer.go
@@ -57,6 +57,7 @@ func (r *lookupResolver) ResolvePackage(path string) (string, error) {
 	if err != nil {
 		return "", fmt.Errorf("lookup %q: %w", path, err)
 	}
+	defer rd.Close()
 	gcr, err := gcexportdata.NewReader(rd)
 	if err != nil {
 		return "", fmt.Errorf("locating gc export data: %w", err)
-- 
2.43.0


From 28b9403be7db8aadff54b5e0d784781a4e2c049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:00 +0000
Subject: [PATCH 49/51] fix: declaration-of and value-declaration only match
 top-level declarations

Both are documented to match package-level declarations, but also matched
variables declared within functions, and declaration-of also matched methods.
---
 internal/injector/aspect/join/declaration.go | 35 +++++++++++++-------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/internal/injector/aspect/join/declaration.go b/internal/injector/aspect/join/declaration.go
index 42ef9bb..fe0557a 100644
--- a/internal/injector/aspect/join/declaration.go
+++ b/internal/injector/aspect/join/declaration.go
@@ -36,13 +36,10 @@ func (i *declarationOf) Matches(ctx context.AspectContext) bool {
 
 	switch node := ctx.Node().(type) {
 	case *dst.FuncDecl:
-		return node.Name != nil && node.Name.Name == i.Name
+		// Methods are not top-level symbols of their package.
+		return node.Recv == nil && node.Name != nil && node.Name.Name == i.Name
 	case *dst.ValueSpec:
-		if parent := ctx.Chain().Parent(); parent == nil {
-			// No parent, this is almost certainly a syntax error...
-			return false
-		} else if _, isGenDecl := parent.Node().(*dst.GenDecl); !isGenDecl {
-			// Parent isn't a GenDecl, so this is not a top-level declaration.
+		if !isTopLevelSpec(ctx.Chain()) {
 			return false
 		}
 		for _, name := range node.Names {
@@ -56,6 +53,25 @@ func (i *declarationOf) Matches(ctx context.AspectContext) bool {
 	}
 }
 
+// isTopLevelSpec determines whether the node at the head of the chain is a spec of a top-level
+// declaration, as opposed to one of a declaration statement within a function's body.
+func isTopLevelSpec(chain *context.NodeChain) bool {
+	parent := chain.Parent()
+	if parent == nil {
+		// No parent, this is almost certainly a syntax error...
+		return false
+	}
+	if _, isGenDecl := parent.Node().(*dst.GenDecl); !isGenDecl {
+		return false
+	}
+	if grandParent := parent.Parent(); grandParent != nil {
+		if _, isStmt := grandParent.Node().(*dst.DeclStmt); isStmt {
+			return false
+		}
+	}
+	return true
+}
+
 func (i *declarationOf) ImpliesImported() []string {
 	return []string{i.ImportPath}
 }
@@ -89,12 +105,7 @@ func (*valueDeclaration) FileMayMatch(_ *may.FileContext) may.MatchType {
 }
 
 func (i *valueDeclaration) Matches(ctx context.AspectContext) bool {
-	parent := ctx.Chain().Parent()
-	if parent == nil {
-		return false
-	}
-
-	if _, ok := parent.Node().(*dst.GenDecl); !ok {
+	if !isTopLevelSpec(ctx.Chain()) {
 		return false
 	}
 
-- 
2.43.0


From 943a8ad52f0c92a65945ec9e125fe3e3eb2faa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:00 +0000
Subject: [PATCH 50/51] fix: method-call matches receivers whose type is
 spelled with an alias

---
 internal/injector/aspect/join/method_call.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/injector/aspect/join/method_call.go b/internal/injector/aspect/join/method_call.go
index 9061fdb..ff17ab9 100644
--- a/internal/injector/aspect/join/method_call.go
+++ b/internal/injector/aspect/join/method_call.go
@@ -80,7 +80,7 @@ func (m *methodCall) matchesType(t types.Type) bool {
 
 	switch m.Match {
 	case MethodCallMatchPointerOnly:
-		ptr, ok := t.(*types.Pointer)
+		ptr, ok := types.Unalias(t).(*types.Pointer)
 		if !ok {
 			return false
 		}
@@ -88,7 +88,7 @@ func (m *methodCall) matchesType(t types.Type) bool {
 	case MethodCallMatchValueOnly:
 		return m.matchesNamed(t)
 	default: // MethodCallMatchAny
-		if ptr, ok := t.(*types.Pointer); ok {
+		if ptr, ok := types.Unalias(t).(*types.Pointer); ok {
 			t = ptr.Elem()
 		}
 		return m.matchesNamed(t)
@@ -96,7 +96,7 @@ func (m *methodCall) matchesType(t types.Type) bool {
 }
 
 func (m *methodCall) matchesNamed(t types.Type) bool {
-	named, ok := t.(*types.Named)
+	named, ok := types.Unalias(t).(*types.Named)
 	if !ok {
 		return false
 	}
-- 
2.43.0


From 58948b53883fb41c2e61a20494ea00a06f95b55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:00 +0000
Subject: [PATCH 51/51] fix: assign-value reads its template from the
 configuration

The template was decoded into a nil pointer, which the decoder leaves as it is;
applying the advice panicked.
---
 internal/injector/aspect/advice/assign.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/injector/aspect/advice/assign.go b/internal/injector/aspect/advice/assign.go
index 1f8a39d..ac23bb7 100644
--- a/internal/injector/aspect/advice/assign.go
+++ b/internal/injector/aspect/advice/assign.go
@@ -56,10 +56,10 @@ func (a *assignValue) Hash(h *fingerprint.Hasher) error {
 
 func init() {
 	unmarshalers["assign-value"] = func(ctx gocontext.Context, node ast.Node) (Advice, error) {
-		var template *code.Template
+		var template code.Template
 		if err := yaml.NodeToValueContext(ctx, node, &template); err != nil {
 			return nil, err
 		}
-		return AssignValue(template), nil
+		return AssignValue(&template), nil
 	}
 }
-- 
2.43.0

