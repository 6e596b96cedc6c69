From d46bd32febf299a25308c4ce542778e026069d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:17 +0000
Subject: [PATCH 01/17] fix: do not print internal state to stdout when adding
 exit watchers

---
 src/config_manip.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/config_manip.rs b/src/config_manip.rs
index fcce13a..f19835a 100644
--- a/src/config_manip.rs
+++ b/src/config_manip.rs
@@ -651,7 +651,6 @@ fn add_launch_exit_spies(config: &mut Config, to_add: Vec<String>) {
 
     let mut existing_connection_keys = config.connection.keys().map(|x| x.clone()).collect();
     let mut existing_drains = config.drain.keys().map(|x| x.clone()).collect();
-    println!("{:?}", existing_drains);
 
     for launch_name in to_add {
         let new_drain_key = generate_new_key("dyn_drain", &existing_drains);
-- 
2.43.0


From d9ef68c39c1a7aa1aad8187d5165437e14f3eef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 02/17] fix: junction inputs with the same priority share one
 priority group

Only the lowest priority was ever remembered, so two inputs which had an
equal but higher priority number were put into groups of their own and one
of them could starve the other.
---
 src/junction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/junction.rs b/src/junction.rs
index 6ffd1ed..36b6ece 100644
--- a/src/junction.rs
+++ b/src/junction.rs
@@ -88,6 +88,7 @@ impl Junction {
                 self.stdin.push(vec![])
             }
             if priority > old_priority {
+                old_priority = priority;
                 self.stdin.push(vec![])
             }
             if let Some(v) = self.stdin.last_mut() {
-- 
2.43.0


From 2030e42b1cec9cac8e8cb6f4fb932ecc7aee87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:11 +0000
Subject: [PATCH 03/17] fix: a junction which fails closes its outputs

A junction with a terminate output which had closed kept its other outputs
open, so the components reading from these waited forever and pa2 hung.
---
 src/junction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/junction.rs b/src/junction.rs
index 36b6ece..5e83d92 100644
--- a/src/junction.rs
+++ b/src/junction.rs
@@ -177,6 +177,7 @@ impl StartableControl for Junction {
                 Ok((false, n)) => { read_count += n }
                 Err(e) => {
                     self.stdin.clear();
+                    self.stdout.clear();
                     return MotionResult::Err(e);
                 }
             }
-- 
2.43.0


From 7f32012af5826b55cd3c93eb121bc8beaff6feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:16 +0000
Subject: [PATCH 04/17] fix: a faucet which cannot open its source closes its
 output

The output was kept open, so everything downstream waited forever and pa2
never exited nor reported the error.
---
 src/faucet.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/faucet.rs b/src/faucet.rs
index ef5142d..1124545 100644
--- a/src/faucet.rs
+++ b/src/faucet.rs
@@ -91,8 +91,13 @@ impl StartableControl for Faucet {
         self.stdin = Some(match (self.pull_journey, read_location) {
             (Some(journey), Some(f)) if f == "-" => Pull::Stdin(journey, async_std::io::stdin(), ReadSplitControl::new()),
             (Some(journey), Some(filename)) => {
-                let file = async_std::fs::File::open(filename).await
-                    .map_err(|e| MotionError::OpenIOError(journey, Instant::now(), e))?;
+                let file = match async_std::fs::File::open(filename).await {
+                    Ok(file) => file,
+                    Err(e) => {
+                        self.stdout = None;
+                        return Err(MotionError::OpenIOError(journey, Instant::now(), e));
+                    }
+                };
                 Pull::File(journey, file, ReadSplitControl::new())
             },
             _ => Pull::None,
-- 
2.43.0


From 6e0945b086921906c63792f7d63d3c3855d6fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:58 +0000
Subject: [PATCH 05/17] fix: resuming a regulator does not wait for its next
 message

The control channel held one item, so after a pause the resume blocked
until the regulator happened to forward a message. That blocked the
buffer size monitoring and, through it, the monitored buffers themselves:
pa2 stalled with data waiting in a buffer and a willing consumer.
---
 src/regulator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/regulator.rs b/src/regulator.rs
index 512f0c1..17d16a9 100644
--- a/src/regulator.rs
+++ b/src/regulator.rs
@@ -7,7 +7,7 @@ use crate::connectable::ConnectableAddOutputError;
 use crate::connectable::ConnectableAddInputError;
 use crate::motion::SpyMessage;
 use async_std::channel::Sender;
-use async_std::channel::{SendError, Receiver, bounded};
+use async_std::channel::{SendError, Receiver, bounded, unbounded};
 use super::motion::{ MotionResult, MotionNotifications, Pull, Push, motion_close, motion_worker };
 use crate::startable_control::StartableControl;
 use async_trait::async_trait;
@@ -40,7 +40,7 @@ impl Regulator {
 
     pub fn get_control(&mut self) -> RegulatorControl {
         assert!(self.control.is_none(), "Each regulator can only have one control");
-        let (send, recv) = bounded(1);
+        let (send, recv) = unbounded();
         self.control = Some(recv);
         RegulatorControl {
             paused: false,
@@ -108,7 +108,7 @@ impl Regulator {
         let mut notifications = MotionNotifications::empty();
         async fn control(opt_rec: &mut Option<Receiver<()>>) {
             if let Some(rec) = opt_rec {
-                if rec.try_recv().is_ok() {
+                while rec.try_recv().is_ok() {
                     let _x = rec.recv().await;
                 }
             }
-- 
2.43.0


From 50abf0fe3ded1b7d59409a86dfe1dcbb445a527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:02 +0000
Subject: [PATCH 06/17] fix: wait for programs which only receive data

A launch at the end of a connection, with none of its outputs connected,
was given no exit watcher, so pa2 exited while the program still ran.
---
 src/config_manip.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/config_manip.rs b/src/config_manip.rs
index f19835a..9dee622 100644
--- a/src/config_manip.rs
+++ b/src/config_manip.rs
@@ -568,15 +568,18 @@ fn identify_required_spies_for_launch_exits(connections: &BTreeMap<String, Deser
         }
     }).collect();
 
-    let all_launch = connection_pairs.into_iter().fold(HashSet::new(), |mut acc, (first, _last)| {
-        match first {
-            Connection::StartConnection { component_type, component_name, .. }
-                if component_type == ComponentType::Launch => {
-                    acc.insert(component_name.clone());
-                    acc
-                },
-            _ => acc,
+    let all_launch = connection_pairs.into_iter().fold(HashSet::new(), |mut acc, (first, last)| {
+        for connection in vec![first, last] {
+            match connection {
+                Connection::StartConnection { component_type, component_name, .. } |
+                Connection::EndConnection { component_type, component_name, .. }
+                    if component_type == ComponentType::Launch => {
+                        acc.insert(component_name.clone());
+                    },
+                _ => (),
+            }
         }
+        acc
     });
 
     all_launch.into_iter().filter_map(|name| {
-- 
2.43.0


From d1c38a1154326d0fdd9776e436a2b6a0a6451671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 07/17] fix: report malformed join strings instead of panicking

process and config manipulate panicked on a connection which lint reports
as error 0003.
---
 src/bin/pa2.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bin/pa2.rs b/src/bin/pa2.rs
index 33ce179..4ccc35d 100644
--- a/src/bin/pa2.rs
+++ b/src/bin/pa2.rs
@@ -510,11 +510,20 @@ fn process_user_config_action(result_config: Result<UserRequest, String>) -> Res
             return Err(format!("We found the following warnings / errors: \n\n * {}\n", errs.join("\n * ")));
         },
         Ok(UserRequest::Manipulate { config_in, config_format }) => {
-            let config = read_config(&config_format, &config_in)?;
+            let mut config = read_config(&config_format, &config_in)?;
+            let errs = Config::convert_connections(&mut config.connection).into_iter().map(|c| c.to_string()).collect::<Vec<String>>();
+            if !errs.is_empty() {
+                return Err(format!("Manipulate {}", errs.join("\n * ")));
+            }
             Ok(connection_manipulation_light(config)).map(UserResponse::Config)
         },
         Ok(UserRequest::Process { config_in, config_format }) => {
-            let mut config = connection_manipulation(read_config(&config_format, &config_in)?);
+            let mut config = read_config(&config_format, &config_in)?;
+            let errs = Config::convert_connections(&mut config.connection).into_iter().map(|c| c.to_string()).collect::<Vec<String>>();
+            if !errs.is_empty() {
+                return Err(format!("Process {}", errs.join("\n * ")));
+            }
+            let mut config = connection_manipulation(config);
 
             let errs = Config::lint(&mut config).into_iter()
                 .filter(|lint_err| !matches!(lint_err, ConfigLintWarning::InConfigButMissingFlowConnection { .. }))
-- 
2.43.0


From 1442d86e819bba73e4fff736748dc1a8442e66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:31 +0000
Subject: [PATCH 08/17] fix: a buffer without an input closes its output

It kept its output open while reporting its error, so the components
reading from it waited forever and pa2 hung.
---
 src/buffer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 9dbb728..53f8c93 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -84,8 +84,9 @@ impl StartableControl for Buffer {
         let (monitor_i_snd, monitor_i_rcv): (Sender<MonitorMessage>, Receiver<MonitorMessage>) = bounded(8);
         let (monitor_o_snd, monitor_o_rcv): (Sender<MonitorMessage>, Receiver<MonitorMessage>) = bounded(8);
 
-        let stdin = std::mem::take(&mut self.stdin).ok_or(MotionError::NoneError)?;
-        let stdout = std::mem::take(&mut self.stdout).ok_or(MotionError::NoneError)?;
+        let (stdin, stdout) = (std::mem::take(&mut self.stdin), std::mem::take(&mut self.stdout));
+        let stdin = stdin.ok_or(MotionError::NoneError)?;
+        let stdout = stdout.ok_or(MotionError::NoneError)?;
 
         let push_a = Push::Sender(
             Journey { src: 0, dst: 0, src_port: None, breakable: stdout.journey().ok_or(MotionError::NoneError)?.breakable },
-- 
2.43.0


From 2ccd1c9ca4bdb556dcd076a04896d3810614216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 09/17] fix: an empty faucet source or drain destination means
 NULL

As the help of config faucet source and config drain destination says; it
was taken for the name of a file.
---
 src/drain.rs  | 2 +-
 src/faucet.rs | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drain.rs b/src/drain.rs
index d57186e..3d48edc 100644
--- a/src/drain.rs
+++ b/src/drain.rs
@@ -63,7 +63,7 @@ impl StartableControl for Drain {
         if let Some(pull) = std::mem::take(&mut self.stdin) {
 
             let push = match (pull.journey(), std::mem::take(&mut self.write_location)) {
-                (Some(PullJourney { .. }), Some(f)) if f == "/dev/null" => Push::None,
+                (Some(PullJourney { .. }), Some(f)) if f == "/dev/null" || f.is_empty() => Push::None,
                 (Some(PullJourney { src, dst }), Some(f)) if f == "-" => Push::Stdout(Journey { src: *src, src_port: None, dst: *dst, breakable: Breakable::Terminate }, async_std::io::stdout()),
                 (Some(PullJourney { src, dst }), Some(f)) if f == "_" => Push::Stderr(Journey { src: *src, src_port: None, dst: *dst, breakable: Breakable::Terminate }, async_std::io::stderr()),
                 (Some(PullJourney { src, dst }), Some(filename)) => {
diff --git a/src/faucet.rs b/src/faucet.rs
index 1124545..10b63c0 100644
--- a/src/faucet.rs
+++ b/src/faucet.rs
@@ -90,6 +90,7 @@ impl StartableControl for Faucet {
         let read_location = std::mem::take(&mut self.read_location);
         self.stdin = Some(match (self.pull_journey, read_location) {
             (Some(journey), Some(f)) if f == "-" => Pull::Stdin(journey, async_std::io::stdin(), ReadSplitControl::new()),
+            (Some(_), Some(f)) if f.is_empty() => Pull::None,
             (Some(journey), Some(filename)) => {
                 let file = match async_std::fs::File::open(filename).await {
                     Ok(file) => file,
-- 
2.43.0


From e2f0e57d931688bc096c851b6f5e58a35148bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:47 +0000
Subject: [PATCH 10/17] fix: exit codes honour the connection's policy when it
 has closed

---
 src/launch.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/launch.rs b/src/launch.rs
index bc254fb..1dbc9af 100644
--- a/src/launch.rs
+++ b/src/launch.rs
@@ -245,7 +245,11 @@ impl <E: IntoIterator<Item = (K, V)>,
                 };
                 match msg {
                     Some(m) => {
-                        exit_status_tx.send(m.clone()).await.map_err(|e| MotionError::SendError(*journey, Instant::now(), e))?;
+                        if let Err(e) = exit_status_tx.send(m.clone()).await {
+                            if journey.breakable == Breakable::Terminate {
+                                return MotionResult::Err(MotionError::SendError(*journey, Instant::now(), e));
+                            }
+                        }
                         if let (Some(spy), src, dst, Some(src_port)) = (spy, journey.src, journey.dst, journey.src_port) {
                             let spy_msg = SpyMessage { src, msg: IODataWrapper::IOData(m), dst, src_port };
                             spy.send(spy_msg).await.map_err(|e| MotionError::SpyWriteError(Instant::now(), e))?;
-- 
2.43.0


From b12c551ed49175a8041002fe2ea913d91d5a7195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:34 +0000
Subject: [PATCH 11/17] fix: a buffer whose output has ended stops taking input

---
 src/buffer.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 53f8c93..6a3223d 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -163,7 +163,17 @@ impl StartableControl for Buffer {
             }
         }
 
-        let r_out_prep = r_a.join(r_b).join(
+        // When the output ends before the input does, nothing more can be delivered
+        async fn both<A, B>(r_a: A, r_b: B) -> (MotionResult<usize>, MotionResult<usize>)
+            where A: Future<Output = MotionResult<usize>> + Send, B: Future<Output = MotionResult<usize>> + Send
+        {
+            match futures::future::select(Box::pin(r_a), Box::pin(r_b)).await {
+                futures::future::Either::Left((a, r_b)) => (a, r_b.await),
+                futures::future::Either::Right((b, _)) => (MotionResult::Ok(0), b),
+            }
+        }
+
+        let r_out_prep = both(r_a, r_b).join(
             total_in_buffer(std::mem::take(&mut self.buffer_size_monitor), monitor_i_rcv, monitor_o_rcv)
         ).await;
 
-- 
2.43.0


From 4177aae775cab9c343babf25457c4dfe8772979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:41 +0000
Subject: [PATCH 12/17] fix: quote names and labels in the graph

---
 src/graph.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/graph.rs b/src/graph.rs
index a48f415..3fdcc1e 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -73,6 +73,11 @@ pub fn convert_connection_components_fold<'a>(mut acc: HashMap<&'a ComponentType
     acc
 }
 
+/// Names come from the user, so they may be DOT keywords or include any character.
+fn quoted(s: &str) -> String {
+    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
+}
+
 pub fn get_graph(subgraph: Vec<Subgraph>) -> String {
     let mut stmts: Vec<Stmt> = vec![Stmt::Attribute(attr!("labeljust","l")),Stmt::Attribute(attr!("newrank","true"))];
     let mut more_stmts = subgraph.into_iter().map(|sg| { Stmt::Subgraph(sg) }).collect();
@@ -125,7 +130,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
     }
 
     fn node_id(component_type: &ComponentType, name: &str) -> NodeId {
-        NodeId(Id::Plain(format!("{}_{}", component_type_to_letter(component_type), name)), None)
+        NodeId(Id::Plain(quoted(&format!("{}_{}", component_type_to_letter(component_type), name))), None)
     }
 
     fn get_connection_set_name(possible_graph_connection_for_connection_set: Option<&GraphConnection>, component_type: &ComponentType, component_name: &str) -> String {
@@ -169,7 +174,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
         BTreeMap::new(),
         |mut acc, (component_type, component_names)| {
             for component_name in component_names {
-                let label = component_name;
+                let label = quoted(component_name);
                 let connection_set_graph_connection: Option<&GraphConnection> = connections.iter().find(|connection| {
                     (
                         (connection.src.1 == *component_name) && (connection.src.0 == *component_type)
@@ -221,7 +226,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
     }
 
     let mut stmts: Vec<Stmt> = graph_components.into_iter().fold(FrontAndBack::new(), |mut acc, (connection_set, nodes)| {
-        let title = format!("\"{}:\"", connection_set);
+        let title = quoted(&format!("{}:", connection_set));
         let rank = if connection_set_with_faucet.contains(&connection_set) { "min" }
             else if connection_set_with_drain.contains(&connection_set) { "max" }
             else { "same" };
@@ -233,7 +238,7 @@ pub fn get_diagram(components: HashMap<&ComponentType, Vec<&str>>, connections:
         }
         stmts.append(&mut stmts_to_add.into_iter().collect::<Vec<Stmt>>());
         let subgraph = Stmt::Subgraph(Subgraph {
-            id: id!(format!("cluster_nodes_{}", connection_set)),
+            id: id!(quoted(&format!("cluster_nodes_{}", connection_set))),
             stmts
         });
         if connection_set_with_faucet.contains(&connection_set) {
-- 
2.43.0


From 4710565738cec8ed9c350551cf864122e5b0db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:42 +0000
Subject: [PATCH 13/17] fix: graph parallel connections as separate edges

---
 src/graph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph.rs b/src/graph.rs
index 3fdcc1e..80fa29d 100644
--- a/src/graph.rs
+++ b/src/graph.rs
@@ -85,7 +85,7 @@ pub fn get_graph(subgraph: Vec<Subgraph>) -> String {
 
     let graph = Graph::DiGraph {
         id: Id::Plain("g_get_graph".to_string()),
-        strict: true,
+        strict: false,
         stmts
     };
 
-- 
2.43.0


From 9516e754274638f5f22da151849083b691b657cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:10 +0000
Subject: [PATCH 14/17] fix: a buffer which cannot start closes its size
 monitor

A buffer without input or output kept the channel on which it reports its
size open, so the regulator monitoring it was managed forever and pa2 hung.
---
 src/buffer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index 6a3223d..bef22e8 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -85,6 +85,7 @@ impl StartableControl for Buffer {
         let (monitor_o_snd, monitor_o_rcv): (Sender<MonitorMessage>, Receiver<MonitorMessage>) = bounded(8);
 
         let (stdin, stdout) = (std::mem::take(&mut self.stdin), std::mem::take(&mut self.stdout));
+        let buffer_size_monitor = std::mem::take(&mut self.buffer_size_monitor);
         let stdin = stdin.ok_or(MotionError::NoneError)?;
         let stdout = stdout.ok_or(MotionError::NoneError)?;
 
@@ -174,7 +175,7 @@ impl StartableControl for Buffer {
         }
 
         let r_out_prep = both(r_a, r_b).join(
-            total_in_buffer(std::mem::take(&mut self.buffer_size_monitor), monitor_i_rcv, monitor_o_rcv)
+            total_in_buffer(buffer_size_monitor, monitor_i_rcv, monitor_o_rcv)
         ).await;
 
         fn structure_motion_result(input: ((MotionResult<usize>, MotionResult<usize>), Result<usize, SendError<BufferSizeMessage>>)) -> MotionResult<usize> {
-- 
2.43.0


From 056bfd8fb310f006e9aa5cbf50d5a50d8a75a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:17 +0000
Subject: [PATCH 15/17] fix: name the drain which could not be opened

An error about opening or reading knows where it happened as a pull
journey, of which the report used only the source, so that a drain whose
file cannot be created was reported as a problem of what feeds it.
---
 src/bin_support.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bin_support.rs b/src/bin_support.rs
index 97440c5..661b46b 100644
--- a/src/bin_support.rs
+++ b/src/bin_support.rs
@@ -1,5 +1,5 @@
 use std::collections::HashMap;
-use crate::{waiter::WaiterError, config::ComponentType, motion::Journey};
+use crate::{waiter::WaiterError, config::ComponentType, motion::{Journey, PullJourney}};
 
 pub fn waiter_error_to_string(waiter_err: WaiterError, id_to_component_type_name: &HashMap<usize, (ComponentType, String)>) -> String {
 
@@ -14,7 +14,10 @@ pub fn waiter_error_to_string(waiter_err: WaiterError, id_to_component_type_name
     };
     let motion_dst: Option<&(ComponentType, String)> = match waiter_err.caused_by_error().map(|err| err.journey()).flatten() {
         Some(Journey { dst, .. }) => id_to_component_type_name.get(&dst),
-        _ => None
+        None => match waiter_err.caused_by_error().map(|err| err.pull_journey()).flatten() {
+            Some(PullJourney { dst, .. }) => id_to_component_type_name.get(&dst),
+            _ => None
+        }
     };
 
     let (src, dst) = match (waiter_src, motion_src, motion_dst) {
-- 
2.43.0


From 9348c61133ccf0afd814c5b6b73a07d1fe9ab63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:17 +0000
Subject: [PATCH 16/17] fix: a program which cannot be started is reported

pa2 panicked in that case, taking down everything which was running and
without saying which component it was.
---
 src/launch.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/launch.rs b/src/launch.rs
index 1dbc9af..6e5f9be 100644
--- a/src/launch.rs
+++ b/src/launch.rs
@@ -16,7 +16,7 @@ use crate::motion::{IOData, MotionError, MotionNotifications, ReadSplitControl};
 
 use async_std::process as aip;
 use async_std::channel::bounded;
-use super::motion::{ motion, MotionResult, Pull, Push, };
+use super::motion::{ motion, motion_close, MotionResult, Pull, Push, };
 
 
 pub struct Launch<E, P, O, A, K, V, R>
@@ -180,11 +180,19 @@ impl <E: IntoIterator<Item = (K, V)>,
             false => { child_builder.stderr(async_std::process::Stdio::null()); }
         }
 
-        let mut child = child_builder.spawn().map_err(
-            |_c| {
-                MotionError::LaunchSpawnError(self.command.as_ref().to_str().map(|s| s.to_owned()))
+        let mut child = match child_builder.spawn() {
+            Ok(child) => child,
+            Err(_) => {
+                // Nothing will ever come out, so close everything which is connected
+                for push in [&mut self.stdout, &mut self.stderr].iter_mut().filter_map(|p| p.as_mut()) {
+                    motion_close(push).await?;
+                }
+                if let Some((_, exit_status_tx)) = &self.exit_status {
+                    exit_status_tx.close();
+                }
+                return Err(MotionError::LaunchSpawnError(self.command.as_ref().to_str().map(|s| s.to_owned())));
             }
-        ).unwrap();
+        };
 
         let child_stdin_push = match std::mem::take(&mut child.stdin) {
             Some(stdin) => {
-- 
2.43.0


From 4589acde2beae3a07b1cf7b1a78605207256f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 17/17] fix: a buffer can be monitored by more than one
 regulator

The second regulator which monitored a buffer tripped an assertion, and a
buffer named twice by one regulator did so as well.
---
 src/buffer.rs | 26 ++++++++++++--------------
 src/waiter.rs |  4 ++--
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/buffer.rs b/src/buffer.rs
index bef22e8..2bab065 100644
--- a/src/buffer.rs
+++ b/src/buffer.rs
@@ -24,7 +24,7 @@ pub struct Buffer {
     stdout_size: usize,
     stdout: Option<Push>,
     stdin: Option<Pull>,
-    buffer_size_monitor: Option<Sender<BufferSizeMessage>>,
+    buffer_size_monitors: Vec<Sender<BufferSizeMessage>>,
 }
 
 
@@ -58,14 +58,13 @@ impl Buffer {
             stdout_size: 8,
             stdin: None,
             stdout: None,
-            buffer_size_monitor: None,
+            buffer_size_monitors: vec![],
         }
     }
 
     pub fn add_buffer_size_monitor(&mut self) -> Receiver<BufferSizeMessage> {
-        assert!(self.buffer_size_monitor.is_none(), "Each buffer can only be monitored once");
         let (tx, rx) = bounded(self.stdout_size);
-        self.buffer_size_monitor = Some(tx);
+        self.buffer_size_monitors.push(tx);
         rx
     }
 
@@ -85,7 +84,7 @@ impl StartableControl for Buffer {
         let (monitor_o_snd, monitor_o_rcv): (Sender<MonitorMessage>, Receiver<MonitorMessage>) = bounded(8);
 
         let (stdin, stdout) = (std::mem::take(&mut self.stdin), std::mem::take(&mut self.stdout));
-        let buffer_size_monitor = std::mem::take(&mut self.buffer_size_monitor);
+        let buffer_size_monitors = std::mem::take(&mut self.buffer_size_monitors);
         let stdin = stdin.ok_or(MotionError::NoneError)?;
         let stdout = stdout.ok_or(MotionError::NoneError)?;
 
@@ -111,7 +110,7 @@ impl StartableControl for Buffer {
             stdout,
         );
 
-        async fn total_in_buffer(sender: Option<Sender<BufferSizeMessage>>, m_in: Receiver<MonitorMessage>, m_out: Receiver<MonitorMessage>) -> Result<usize, SendError<BufferSizeMessage>> {
+        async fn total_in_buffer(senders: Vec<Sender<BufferSizeMessage>>, m_in: Receiver<MonitorMessage>, m_out: Receiver<MonitorMessage>) -> Result<usize, SendError<BufferSizeMessage>> {
             let mut size: usize = 0;
             let mut back_off = BackOff::new();
             let mut last = 0;
@@ -143,13 +142,12 @@ impl StartableControl for Buffer {
                         panic!("SHOULD NOT BE HERE");
                     }
                 }
-                match (last != size, &sender) {
-                    (true, Some(s)) => {
-                        last = size;
-                        s.send(BufferSizeMessage(size)).await
-                    },
-                    _ => Ok(()),
-                }?;
+                if last != size {
+                    last = size;
+                    for sender in senders.iter() {
+                        sender.send(BufferSizeMessage(size)).await?;
+                    }
+                }
                 if m_in.is_empty() && m_in.is_closed() && m_out.is_empty() && m_out.is_closed() {
                     return Ok(size as usize);
                 }
@@ -175,7 +173,7 @@ impl StartableControl for Buffer {
         }
 
         let r_out_prep = both(r_a, r_b).join(
-            total_in_buffer(buffer_size_monitor, monitor_i_rcv, monitor_o_rcv)
+            total_in_buffer(buffer_size_monitors, monitor_i_rcv, monitor_o_rcv)
         ).await;
 
         fn structure_motion_result(input: ((MotionResult<usize>, MotionResult<usize>), Result<usize, SendError<BufferSizeMessage>>)) -> MotionResult<usize> {
diff --git a/src/waiter.rs b/src/waiter.rs
index 5a22ba4..3c41ed4 100644
--- a/src/waiter.rs
+++ b/src/waiter.rs
@@ -1,4 +1,4 @@
-use std::collections::BTreeMap;
+use std::collections::{BTreeMap, BTreeSet};
 use crate::connectable::Breakable;
 use crate::motion::SpyMessage;
 use std::time::Instant;
@@ -330,7 +330,7 @@ impl Waiter {
             let regulator = self.regulator.get_mut(regulator_name).ok_or_else(|| WaiterError::SettingsForMissingRegulator(regulator_name.to_string()))?;
             let regulator_component = regulator.get_control();
             let mut buffer_size_monitors = vec![];
-            for buffer_name in settings.buffer_names.iter() {
+            for buffer_name in settings.buffer_names.iter().collect::<BTreeSet<_>>() {
                 let buf = self.buffer.get_mut(buffer_name).ok_or_else(|| WaiterError::SettingsRefersMissingBuffer(regulator_name.to_string(), buffer_name.to_string()))?;
                 buffer_size_monitors.push(buf.add_buffer_size_monitor());
             }
-- 
2.43.0

