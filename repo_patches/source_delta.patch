From 6013adaf9a81cbe52e79f2fa6b93ae151433eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:51 +0000
Subject: [PATCH 01/33] fix: let Dijkstra handle two-node graphs and reuse on
 smaller graphs

The length of the (two-element) array of directions was compared with the
node-count, so a graph of two nodes never got its vectors resized, and touched
nodes of a previous, bigger graph were reset after shrinking.
---
 src/routing/dijkstra.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/routing/dijkstra.rs b/src/routing/dijkstra.rs
index acdb424..6dbc2ff 100644
--- a/src/routing/dijkstra.rs
+++ b/src/routing/dijkstra.rs
@@ -72,16 +72,17 @@ impl Dijkstra {
         // fwd and bwd
         for &dir in &[Direction::FWD, Direction::BWD] {
             let dir = self.dir_idx(dir);
-            if self.costs.len() != new_len {
-                self.costs[dir].resize(new_len, std::f64::INFINITY);
-                self.predecessors[dir].resize(new_len, None);
-            }
-
+            // Reset before resizing, because the previous graph could have more nodes.
             for i in self.touched[dir].drain(..) {
                 self.costs[dir][i] = std::f64::INFINITY;
                 self.predecessors[dir][i] = None;
             }
 
+            if self.costs[dir].len() != new_len {
+                self.costs[dir].resize(new_len, std::f64::INFINITY);
+                self.predecessors[dir].resize(new_len, None);
+            }
+
             // assert!(self.costs[dir].iter().all(|&c| c == f64::INFINITY));
             // assert!(self.predecessors[dir].iter().all(|&p| p == None));
 
-- 
2.43.0


From d0928ac1793291b0a137c3e9fbc8ed61eb1422f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:51 +0000
Subject: [PATCH 02/33] fix: provide offsets for trailing nodes without leaving
 edges

The last nodes (by id) could have no outgoing (or incoming) edges, in which case
accessing their edges has panicked.
---
 src/network/graph/building.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index c6b81c8..fba0c70 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -759,7 +759,8 @@ impl GraphBuilder {
                 edge_idx += 1;
             }
             // last node needs an upper bound as well for `leaving_edges(...)`
-            graph.fwd_offsets.push(offset);
+            // and the same holds for all remaining nodes having no leaving edges
+            graph.fwd_offsets.resize(graph.node_ids.len() + 1, offset);
             progress_bar.set(offset);
             if progress_bar.has_progressed_significantly() {
                 progress_bar.remember_significant_progress();
@@ -873,7 +874,8 @@ impl GraphBuilder {
                 proto_edges.len(),
                 "Last offset-value should be as big as the number of proto-edges."
             );
-            graph.bwd_offsets.push(offset);
+            // and the same holds for all remaining nodes having no leaving (backward-)edges
+            graph.bwd_offsets.resize(graph.node_ids.len() + 1, offset);
             progress_bar.set(graph.fwd_dsts.len());
             if progress_bar.has_progressed_significantly() {
                 progress_bar.remember_significant_progress();
-- 
2.43.0


From 38a85271eab7e0f4f921cbe2b8cfa6fe0ee5df41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:51 +0000
Subject: [PATCH 03/33] fix: write coordinates of an edge's destination instead
 of its source

---
 src/io/writing/network/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/writing/network/mod.rs b/src/io/writing/network/mod.rs
index 8bb40f4..1c5fe8b 100644
--- a/src/io/writing/network/mod.rs
+++ b/src/io/writing/network/mod.rs
@@ -118,12 +118,12 @@ fn write_edges_to_file<W: Write>(
                                     write!(writer, "{}", dst_idx)?;
                                 }
                                 configs::parsing::edges::MetaInfo::DstLat => {
-                                    let dst_idx = bwd_edges.dst_idx(edge_idx);
+                                    let dst_idx = fwd_edges.dst_idx(edge_idx);
                                     let dst_lat = nodes.coord(dst_idx).lat;
                                     write!(writer, "{}", dst_lat)?;
                                 }
                                 configs::parsing::edges::MetaInfo::DstLon => {
-                                    let dst_idx = bwd_edges.dst_idx(edge_idx);
+                                    let dst_idx = fwd_edges.dst_idx(edge_idx);
                                     let dst_lon = nodes.coord(dst_idx).lon;
                                     write!(writer, "{}", dst_lon)?;
                                 }
-- 
2.43.0


From 5f6a5bb8c5f078e6b63e17a222b71895347f9b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:36 +0000
Subject: [PATCH 04/33] fix: report errors of the last write when exporting
 files

The buffered writers have been dropped without flushing, which ignores errors,
so a truncated file (e.g. due to a full disk) was reported as success.
---
 src/io/writing/network/edges.rs         | 6 ++++++
 src/io/writing/network/graph/fmi.rs     | 3 +++
 src/io/writing/routing/random_or_all.rs | 3 +++
 src/io/writing/smarts.rs                | 3 +++
 4 files changed, 15 insertions(+)

diff --git a/src/io/writing/network/edges.rs b/src/io/writing/network/edges.rs
index 2aaf532..46f00fa 100644
--- a/src/io/writing/network/edges.rs
+++ b/src/io/writing/network/edges.rs
@@ -55,6 +55,9 @@ impl Writer {
 
         write_edges_to_file(&mut writer, graph, writing_cfg)?;
 
+        // flush explicitly, because errors are ignored when dropping the writer
+        writer.flush()?;
+
         info!("FINISHED");
         Ok(())
     }
@@ -119,6 +122,9 @@ impl Writer {
             writeln!(writer, "{} {}", fwd_edges.id(edge_idx), values[*edge_idx])?;
         }
 
+        // flush explicitly, because errors are ignored when dropping the writer
+        writer.flush()?;
+
         Ok(())
     }
 }
diff --git a/src/io/writing/network/graph/fmi.rs b/src/io/writing/network/graph/fmi.rs
index 224594f..39bf2f7 100644
--- a/src/io/writing/network/graph/fmi.rs
+++ b/src/io/writing/network/graph/fmi.rs
@@ -205,6 +205,9 @@ impl Writer {
             &writing::network::edges::Config::from(writing_cfg.clone()),
         )?;
 
+        // flush explicitly, because errors are ignored when dropping the writer
+        writer.flush()?;
+
         info!("FINISHED");
         Ok(())
     }
diff --git a/src/io/writing/routing/random_or_all.rs b/src/io/writing/routing/random_or_all.rs
index 1d88b37..d9f8956 100644
--- a/src/io/writing/routing/random_or_all.rs
+++ b/src/io/writing/routing/random_or_all.rs
@@ -154,6 +154,9 @@ impl Writer {
             writeln!(writer, "{} {} {}", src_id, dst_id, 1)?;
         }
 
+        // flush explicitly, because errors are ignored when dropping the writer
+        writer.flush()?;
+
         Ok(())
     }
 }
diff --git a/src/io/writing/smarts.rs b/src/io/writing/smarts.rs
index a96ee52..b330c6e 100644
--- a/src/io/writing/smarts.rs
+++ b/src/io/writing/smarts.rs
@@ -68,6 +68,9 @@ impl Writer {
 
         writeln!(writer, "</data>")?;
 
+        // flush explicitly, because errors are ignored when dropping the writer
+        writer.flush()?;
+
         Ok(())
     }
 }
-- 
2.43.0


From af5cc2ea9f40add4832af8687dc2c1ddb9f23816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:36 +0000
Subject: [PATCH 05/33] fix: detect every cycle of shortcut-references when
 flattening

Cycles through a shortcut's second edge keep the stack small, so they have not
been detected and flattening has never stopped.
---
 src/routing/paths.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/routing/paths.rs b/src/routing/paths.rs
index 0eda0b8..213a4f0 100644
--- a/src/routing/paths.rs
+++ b/src/routing/paths.rs
@@ -100,19 +100,20 @@ impl Path {
         };
 
         // interpret old edges as stack, beginning with src
-        let mut old_edges = self.edges;
-        old_edges.reverse();
+        // and remember for every edge, by how many shortcuts it is nested
+        let mut old_edges: Vec<_> = self.edges.into_iter().rev().map(|e| (e, 0)).collect();
 
         let fwd_edges = graph.fwd_edges();
-        while let Some(mut edge_idx) = old_edges.pop() {
+        while let Some((mut edge_idx, mut depth)) = old_edges.pop() {
             // if edge is shortcut
             // -> push on old-edges
             while let Some(sc_edges) = fwd_edges.sc_edges(edge_idx) {
-                old_edges.push(sc_edges[1]);
+                depth += 1;
+                old_edges.push((sc_edges[1], depth));
                 edge_idx = sc_edges[0];
 
-                // max path-length contains all edges in a graph
-                if old_edges.len() > fwd_edges.count() {
+                // without cycles, every shortcut can be nested in other edges only
+                if depth > fwd_edges.count() {
                     return Err("There is a cycle of shortcut-references in the graph.".into());
                 }
             }
-- 
2.43.0


From ace6eb594ad06309ace97aca185e40484ec3ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:37 +0000
Subject: [PATCH 06/33] fix: return errors instead of panicking for unreadable
 fmi-params

---
 src/io/parsing/network/graph/fmi.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index b8e70f0..feeb71a 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -190,7 +190,7 @@ impl ProtoShortcut {
                         edge_id = param.parse::<usize>().ok();
 
                         // multi-ch-constructor uses ids like "ch123" for shortcuts
-                        if edge_id.is_none() && &param[0..2] == "ch" {
+                        if edge_id.is_none() && param.starts_with("ch") {
                             edge_id = param[2..].parse::<usize>().ok();
                         }
 
@@ -359,7 +359,7 @@ impl ProtoNode {
                             Err(_) => {
                                 return Err(format!(
                                     "Parsing lat '{:?}' from fmi-file, which is not f64.",
-                                    params[2]
+                                    param
                                 ))
                             }
                         };
@@ -370,7 +370,7 @@ impl ProtoNode {
                             Err(_) => {
                                 return Err(format!(
                                     "Parsing lon '{:?}' from fmi-file, which is not f64.",
-                                    params[3]
+                                    param
                                 ))
                             }
                         };
-- 
2.43.0


From b012c80639c2381d85a389e2c2f71d6b68fa8552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:37 +0000
Subject: [PATCH 07/33] fix: refuse incomplete and dangling shortcut-references

A shortcut with one valid reference was read as normal edge, and references to
not existing edges have panicked.
---
 src/io/parsing/network/graph/fmi.rs | 13 ++++++++-----
 src/network/graph/building.rs       | 10 +++++++---
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index feeb71a..d853f41 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -288,11 +288,14 @@ impl ProtoShortcut {
             }
         }
 
-        let sc_edges = {
-            if let (Some(sc_edge_0), Some(sc_edge_1)) = (sc_edge_0, sc_edge_1) {
-                Some([EdgeIdx(sc_edge_0), EdgeIdx(sc_edge_1)])
-            } else {
-                None
+        let sc_edges = match (sc_edge_0, sc_edge_1) {
+            (Some(sc_edge_0), Some(sc_edge_1)) => Some([EdgeIdx(sc_edge_0), EdgeIdx(sc_edge_1)]),
+            (None, None) => None,
+            _ => {
+                return Err(format!(
+                    "A shortcut should have two shortcut-indices, but has only one in line '{}'.",
+                    line
+                ))
             }
         };
 
diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index fba0c70..f320ce0 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -489,9 +489,13 @@ impl GraphBuilder {
             // update shortcuts due to new sorted proto-edges
             for edge in proto_edges.iter() {
                 if let Some(sc_idx) = edge.sc_edges {
-                    let shortcuts = &mut self.proto_shortcuts[sc_idx];
-                    shortcuts[0] = EdgeIdx(new_indices[*shortcuts[0]]);
-                    shortcuts[1] = EdgeIdx(new_indices[*shortcuts[1]]);
+                    for shortcut in self.proto_shortcuts[sc_idx].iter_mut() {
+                        *shortcut = EdgeIdx(*new_indices.get(**shortcut).ok_or(format!(
+                            "A shortcut refers to edge {}, but there are only {} edges.",
+                            shortcut,
+                            new_indices.len()
+                        ))?);
+                    }
                 }
             }
         }
-- 
2.43.0


From d3b3d33b39558e768efe91e6ce600b64b1085949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:37 +0000
Subject: [PATCH 08/33] fix: refuse metrics being not a number

---
 src/network/graph/building.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index f320ce0..de69c68 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -661,7 +661,8 @@ impl GraphBuilder {
 
         for metrics in &graph.metrics {
             for metric in metrics {
-                if metric < &defaults::accuracy::F64_ABS {
+                // NaN is not comparable
+                if metric.is_nan() || metric < &defaults::accuracy::F64_ABS {
                     return Err(err::Msg::from(
                         "A metric is smaller than accuracy allows it.",
                     ));
-- 
2.43.0


From caebab1f1a4ebfa29ee0cc8c75650083f674d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 09/33] fix: return errors for missing and unreadable
 input-files instead of panicking

---
 src/io/parsing/network/edges.rs     | 11 +++----
 src/io/parsing/network/graph/fmi.rs | 45 ++++++++++++++---------------
 src/io/parsing/network/graph/pbf.rs |  7 ++---
 src/io/parsing/routing/mod.rs       |  2 +-
 src/io/parsing/routing/routes.rs    | 26 +++++++++--------
 src/network/graph/building.rs       |  1 +
 6 files changed, 45 insertions(+), 47 deletions(-)

diff --git a/src/io/parsing/network/edges.rs b/src/io/parsing/network/edges.rs
index 594488f..b3a6059 100644
--- a/src/io/parsing/network/edges.rs
+++ b/src/io/parsing/network/edges.rs
@@ -14,22 +14,23 @@ impl Parser {
     pub fn new_reader<P: AsRef<Path>>(
         path: &P,
         is_file_with_header: bool,
-    ) -> err::Result<impl Iterator<Item = String>> {
+    ) -> err::Result<impl Iterator<Item = std::io::Result<String>>> {
         let path = path.as_ref();
 
         io::network::edges::Parser::check_ext_support(&path)?;
         let file = OpenOptions::new()
             .read(true)
             .open(&path)
-            .expect(&format!("Couldn't open {}", path.display()));
+            .map_err(|e| format!("Couldn't open {}: {}", path.display(), e))?;
+
+        // errors are kept, because they are no valid lines
         let mut reader = BufReader::new(file)
             .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional);
+            .filter(|line| line.as_ref().map_or(true, helpers::is_line_functional));
 
         // consume header-line
         if is_file_with_header {
-            reader.next();
+            reader.next().transpose()?;
         }
 
         Ok(reader)
diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index d853f41..029f92f 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -43,12 +43,13 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(&cfg.map_file)
-            .expect(&format!("Couldn't open {}", cfg.map_file.display()));
-        for line in BufReader::new(file)
-            .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
-        {
+            .map_err(|e| format!("Couldn't open {}: {}", cfg.map_file.display(), e))?;
+        for line in BufReader::new(file).lines() {
+            let line = line?;
+            if !helpers::is_line_functional(&line) {
+                continue;
+            }
+
             // If there is a count, remember it.
             // The first occuring count let `is_taking_counts` getting true.
             // If all counts have been processed, `is_taking_counts` would change to false,
@@ -100,15 +101,13 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(&builder.cfg().map_file)
-            .expect(&format!(
-                "Couldn't open {}",
-                builder.cfg().map_file.display()
-            ));
-        for line in BufReader::new(file)
-            .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
-        {
+            .map_err(|e| format!("Couldn't open {}: {}", builder.cfg().map_file.display(), e))?;
+        for line in BufReader::new(file).lines() {
+            let line = line?;
+            if !helpers::is_line_functional(&line) {
+                continue;
+            }
+
             // check if line contains edge
             if !self.edge_lines.contains(&line_number) {
                 line_number += 1;
@@ -131,15 +130,13 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(&builder.cfg().map_file)
-            .expect(&format!(
-                "Couldn't open {}",
-                builder.cfg().map_file.display()
-            ));
-        for line in BufReader::new(file)
-            .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
-        {
+            .map_err(|e| format!("Couldn't open {}: {}", builder.cfg().map_file.display(), e))?;
+        for line in BufReader::new(file).lines() {
+            let line = line?;
+            if !helpers::is_line_functional(&line) {
+                continue;
+            }
+
             // check if line contains edge
             if !self.node_lines.contains(&line_number) {
                 line_number += 1;
diff --git a/src/io/parsing/network/graph/pbf.rs b/src/io/parsing/network/graph/pbf.rs
index bf2f5e5..a5946a7 100644
--- a/src/io/parsing/network/graph/pbf.rs
+++ b/src/io/parsing/network/graph/pbf.rs
@@ -73,10 +73,7 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(&builder.cfg().map_file)
-            .expect(&format!(
-                "Couldn't open {}",
-                builder.cfg().map_file.display()
-            ));
+            .map_err(|e| format!("Couldn't open {}: {}", builder.cfg().map_file.display(), e))?;
 
         for mut way in OsmPbfReader::new(file)
             .par_iter()
@@ -178,7 +175,7 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(&cfg.map_file)
-            .expect(&format!("Couldn't open {}", cfg.map_file.display()));
+            .map_err(|e| format!("Couldn't open {}: {}", cfg.map_file.display(), e))?;
         for node in OsmPbfReader::new(file)
             .par_iter()
             .filter_map(Result::ok)
diff --git a/src/io/parsing/routing/mod.rs b/src/io/parsing/routing/mod.rs
index 43c950a..dd1ac15 100644
--- a/src/io/parsing/routing/mod.rs
+++ b/src/io/parsing/routing/mod.rs
@@ -10,7 +10,7 @@ impl Parser {
         let route_pairs_file = cfg
             .route_pairs_file
             .as_ref()
-            .expect("No routes-file specified.");
+            .ok_or("No routes-file specified.")?;
 
         match Parser::find_supported_ext(route_pairs_file) {
             Ok(_) => routes::Parser::new().parse(cfg),
diff --git a/src/io/parsing/routing/routes.rs b/src/io/parsing/routing/routes.rs
index 315d435..7a062f1 100644
--- a/src/io/parsing/routing/routes.rs
+++ b/src/io/parsing/routing/routes.rs
@@ -34,12 +34,13 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(route_pairs_file)
-            .expect(&format!("Couldn't open {}", route_pairs_file.display()));
-        for line in BufReader::new(file)
-            .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
-        {
+            .map_err(|e| format!("Couldn't open {}: {}", route_pairs_file.display(), e))?;
+        for line in BufReader::new(file).lines() {
+            let line = line.map_err(|e| e.to_string())?;
+            if !helpers::is_line_functional(&line) {
+                continue;
+            }
+
             // If there is a count, remember it.
             // The first occuring count let `is_taking_counts` getting true.
             // If all counts have been processed, `is_taking_counts` would change to false,
@@ -87,12 +88,13 @@ impl super::Parsing for Parser {
         let file = OpenOptions::new()
             .read(true)
             .open(route_pairs_file)
-            .expect(&format!("Couldn't open {}", route_pairs_file.display()));
-        for line in BufReader::new(file)
-            .lines()
-            .map(Result::unwrap)
-            .filter(helpers::is_line_functional)
-        {
+            .map_err(|e| format!("Couldn't open {}: {}", route_pairs_file.display(), e))?;
+        for line in BufReader::new(file).lines() {
+            let line = line.map_err(|e| e.to_string())?;
+            if !helpers::is_line_functional(&line) {
+                continue;
+            }
+
             // check if line contains route
             if !self.route_lines.contains(&line_number) {
                 line_number += 1;
diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index de69c68..e82905d 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1337,6 +1337,7 @@ impl GraphBuilder {
                         // parse edge-id and metric
 
                         for line in reader {
+                            let line = line?;
                             let params: Vec<&str> = line.split_whitespace().collect();
 
                             // get edge-idx
-- 
2.43.0


From 02a5d74a2d1c51b9f85f2fe8de7024587209289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:21 +0000
Subject: [PATCH 10/33] fix: return an error for unreadable blocks of a
 pbf-file

Such blocks have been skipped silently, leading to a graph with missing streets.
---
 src/io/parsing/network/graph/pbf.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/io/parsing/network/graph/pbf.rs b/src/io/parsing/network/graph/pbf.rs
index a5946a7..bd59eab 100644
--- a/src/io/parsing/network/graph/pbf.rs
+++ b/src/io/parsing/network/graph/pbf.rs
@@ -75,14 +75,12 @@ impl super::Parsing for Parser {
             .open(&builder.cfg().map_file)
             .map_err(|e| format!("Couldn't open {}: {}", builder.cfg().map_file.display(), e))?;
 
-        for mut way in OsmPbfReader::new(file)
-            .par_iter()
-            .filter_map(Result::ok)
-            .filter_map(|obj| match obj {
-                OsmObj::Way(way) => Some(way),
-                _ => None,
-            })
-        {
+        for obj in OsmPbfReader::new(file).par_iter() {
+            let mut way = match obj.map_err(|e| format!("Couldn't read pbf-file: {}", e))? {
+                OsmObj::Way(way) => way,
+                _ => continue,
+            };
+
             if way.nodes.len() < 2 {
                 continue;
             }
@@ -176,14 +174,12 @@ impl super::Parsing for Parser {
             .read(true)
             .open(&cfg.map_file)
             .map_err(|e| format!("Couldn't open {}: {}", cfg.map_file.display(), e))?;
-        for node in OsmPbfReader::new(file)
-            .par_iter()
-            .filter_map(Result::ok)
-            .filter_map(|obj| match obj {
-                OsmObj::Node(node) => Some(node),
-                _ => None,
-            })
-        {
+        for obj in OsmPbfReader::new(file).par_iter() {
+            let node = match obj.map_err(|e| format!("Couldn't read pbf-file: {}", e))? {
+                OsmObj::Node(node) => node,
+                _ => continue,
+            };
+
             // add node to graph if it's part of an edge
             builder.insert(ProtoNode {
                 id: node.id.0,
-- 
2.43.0


From cc379386107363b00867eb919a66b3c895153673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:50 +0000
Subject: [PATCH 11/33] fix: refuse map- and routes-files with less lines than
 announced

---
 src/io/parsing/network/graph/fmi.rs | 13 +++++++++++++
 src/io/parsing/routing/routes.rs    |  9 +++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index 029f92f..43dcef1 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -29,6 +29,17 @@ impl Parser {
     }
 }
 
+/// The map-file could be truncated.
+fn check_line_count(line_count: usize, expected_line_count: usize) -> err::Feedback {
+    if line_count < expected_line_count {
+        return Err(err::Msg::from(format!(
+            "The map-file has less lines ({}) than expected by its counts ({}).",
+            line_count, expected_line_count
+        )));
+    }
+    Ok(())
+}
+
 impl super::Parsing for Parser {
     /// Remembers range of edge-lines and node-lines
     fn preprocess(&mut self, cfg: &parsing::Config) -> err::Feedback {
@@ -119,6 +130,7 @@ impl super::Parsing for Parser {
             let proto_edge = ProtoShortcut::try_from_str(&line, &builder.cfg().edges.categories)?;
             builder.insert(proto_edge)?;
         }
+        check_line_count(line_number, self.edge_lines.end)?;
         info!("FINISHED");
 
         Ok(())
@@ -148,6 +160,7 @@ impl super::Parsing for Parser {
             let proto_node = ProtoNode::from_str(&line, &builder.cfg().nodes)?;
             builder.insert(proto_node);
         }
+        check_line_count(line_number, self.node_lines.end)?;
         info!("FINISHED");
 
         Ok(())
diff --git a/src/io/parsing/routing/routes.rs b/src/io/parsing/routing/routes.rs
index 7a062f1..37fb4a6 100644
--- a/src/io/parsing/routing/routes.rs
+++ b/src/io/parsing/routing/routes.rs
@@ -138,6 +138,15 @@ impl super::Parsing for Parser {
             ));
         }
 
+        // the file could be truncated
+        if route_pairs.len() < self.route_lines.len() {
+            return Err(format!(
+                "The routes-file has less routes ({}) than expected by its count ({}).",
+                route_pairs.len(),
+                self.route_lines.len()
+            ));
+        }
+
         Ok(route_pairs)
     }
 }
-- 
2.43.0


From 1fce35212c08c0389400913342d618d61b3220a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:50 +0000
Subject: [PATCH 12/33] fix: don't overflow or allocate by wrong counts in map-
 and routes-files

---
 src/io/parsing/network/graph/fmi.rs | 10 +++++++---
 src/io/parsing/routing/routes.rs    |  9 ++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index 43dcef1..026e6e7 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -47,7 +47,7 @@ impl super::Parsing for Parser {
         super::check_config(cfg)?;
 
         // only functional-lines are counted
-        let mut line_number = 0;
+        let mut line_number: usize = 0;
         let mut is_taking_counts = false;
         // counts are only metric-count, node-count, edge-count (in this order)
         let mut counts = vec![];
@@ -94,12 +94,16 @@ impl super::Parsing for Parser {
 
         // nodes
         let start = line_number;
-        let end = start + node_count;
+        let end = start
+            .checked_add(node_count)
+            .ok_or("The node-count in the fmi-map-file is too high.")?;
         self.node_lines = start..end;
 
         // edges
         let start = end;
-        let end = start + edge_count;
+        let end = start
+            .checked_add(edge_count)
+            .ok_or("The edge-count in the fmi-map-file is too high.")?;
         self.edge_lines = start..end;
 
         info!("FINISHED");
diff --git a/src/io/parsing/routing/routes.rs b/src/io/parsing/routing/routes.rs
index 37fb4a6..57146fc 100644
--- a/src/io/parsing/routing/routes.rs
+++ b/src/io/parsing/routing/routes.rs
@@ -27,7 +27,7 @@ impl super::Parsing for Parser {
             .expect("No routes-file specified.");
 
         // only functional-lines are counted
-        let mut line_number = 0;
+        let mut line_number: usize = 0;
         let mut is_taking_counts = false;
         // counts are only metric-count, node-count, edge-count (in this order)
         let mut counts = vec![];
@@ -68,7 +68,9 @@ impl super::Parsing for Parser {
         let routes_count = counts.pop().expect("Expect counts.len() >= 1");
 
         let start = line_number;
-        let end = start + routes_count;
+        let end = start
+            .checked_add(routes_count)
+            .ok_or("The routes-count in the routes-file is too high.")?;
         self.route_lines = start..end;
 
         Ok(())
@@ -78,7 +80,8 @@ impl super::Parsing for Parser {
         &self,
         cfg: &configs::routing::Config,
     ) -> Result<Vec<(RoutePair<i64>, usize)>, String> {
-        let mut route_pairs = Vec::with_capacity(self.route_lines.len());
+        // don't reserve memory, because the count could be wrong
+        let mut route_pairs = Vec::new();
         let route_pairs_file = cfg
             .route_pairs_file
             .as_ref()
-- 
2.43.0


From 2eeaa0d231df3a2950ea92e16f9ad72cd0fd224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:50 +0000
Subject: [PATCH 13/33] fix: return an error when generating from unknown
 metrics instead of panicking

---
 src/network/graph/building.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index e82905d..22ce379 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1217,7 +1217,7 @@ impl GraphBuilder {
                         // loop over all edges
                         // and add to their metrics
 
-                        let metric_idx = graph.cfg.edges.metrics.idx_of(&from.id);
+                        let metric_idx = graph.cfg.edges.metrics.try_idx_of(&from.id)?;
                         for edge_idx in 0..graph.metrics.len() {
                             // get old value
                             // and generate new value
@@ -1249,7 +1249,7 @@ impl GraphBuilder {
                         // loop over all edges
                         // and replace their existing metrics
 
-                        let metric_idx = graph.cfg.edges.metrics.idx_of(&from.id);
+                        let metric_idx = graph.cfg.edges.metrics.try_idx_of(&from.id)?;
                         for edge_idx in 0..graph.metrics.len() {
                             // get old value
                             // and generate new value
@@ -1291,8 +1291,8 @@ impl GraphBuilder {
                         // loop over all edges
                         // and replace their existing metrics
 
-                        let metric_idx_a = graph.cfg.edges.metrics.idx_of(&a.id);
-                        let metric_idx_b = graph.cfg.edges.metrics.idx_of(&b.id);
+                        let metric_idx_a = graph.cfg.edges.metrics.try_idx_of(&a.id)?;
+                        let metric_idx_b = graph.cfg.edges.metrics.try_idx_of(&b.id)?;
                         for edge_idx in 0..graph.metrics.len() {
                             // get old value
                             // and generate new value
@@ -1378,7 +1378,7 @@ impl GraphBuilder {
                                             continue;
                                         }
 
-                                        let metric_idx = graph.cfg.edges.metrics.idx_of(id);
+                                        let metric_idx = graph.cfg.edges.metrics.try_idx_of(id)?;
 
                                         let param = params[col_idx];
                                         if let Ok(raw_value) = param.parse::<f64>() {
-- 
2.43.0


From 50d2e806281a4635dbbaaff0eba8bf7fd40f7898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:17 +0000
Subject: [PATCH 14/33] fix: return an error for too short lines when merging
 edge-data

---
 src/network/graph/building.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 22ce379..9d0b756 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1346,7 +1346,10 @@ impl GraphBuilder {
                             for (col_idx, category) in edges_info.iter().enumerate() {
                                 match category {
                                     generating::edges::merge::Category::Id(id) => {
-                                        let param = params[col_idx];
+                                        let param = *params.get(col_idx).ok_or(format!(
+                                            "The line '{}' has too few columns.",
+                                            line
+                                        ))?;
 
                                         if id == edge_id {
                                             let raw_edge_id =
@@ -1380,7 +1383,10 @@ impl GraphBuilder {
 
                                         let metric_idx = graph.cfg.edges.metrics.try_idx_of(id)?;
 
-                                        let param = params[col_idx];
+                                        let param = *params.get(col_idx).ok_or(format!(
+                                            "The line '{}' has too few columns.",
+                                            line
+                                        ))?;
                                         if let Ok(raw_value) = param.parse::<f64>() {
                                             graph.metrics[*edge_idx][*metric_idx] = raw_value;
                                         } else {
-- 
2.43.0


From af819775735f5c3099b58ece4fba863a64c4eb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:40 +0000
Subject: [PATCH 15/33] fix: refuse ids being generated twice

Only ids of the map-file have been compared with generated ids, so two generated
metrics could share an id and the second one has not been accessible.
---
 src/network/graph/building.rs | 43 +++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 9d0b756..440f363 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1010,6 +1010,49 @@ impl GraphBuilder {
             // add new data
 
             for category in generating_cfg.edges.categories.iter() {
+                // check again, because a previous category could have generated this id
+
+                let new_id = match category {
+                    generating::edges::Category::Meta { info: _, id } => Some(id),
+                    generating::edges::Category::Custom {
+                        unit: _,
+                        id,
+                        default: _,
+                    } => Some(id),
+                    generating::edges::Category::Haversine { unit: _, id } => Some(id),
+                    generating::edges::Category::Copy { from: _, to } => Some(&to.id),
+                    generating::edges::Category::Calc { result, a: _, b: _ } => Some(&result.id),
+                    generating::edges::Category::Convert { from, to } => {
+                        // in-place
+                        if from.id == to.id {
+                            None
+                        } else {
+                            Some(&to.id)
+                        }
+                    }
+                    generating::edges::Category::Merge {
+                        from: _,
+                        is_file_with_header: _,
+                        edge_id: _,
+                        edges_info: _,
+                    } => None,
+                };
+                if graph
+                    .cfg
+                    .edges
+                    .categories
+                    .iter()
+                    .any(|category| match category {
+                        parsing::edges::Category::Meta { info: _, id }
+                        | parsing::edges::Category::Metric { unit: _, id } => new_id == Some(id),
+                        parsing::edges::Category::Ignored => false,
+                    })
+                {
+                    return Err(err::Msg::from(
+                        "An id should be generated, but does already exist.",
+                    ));
+                }
+
                 match category {
                     generating::edges::Category::Meta { info, id: new_id } => {
                         match info {
-- 
2.43.0


From e2eb527b43dcbef6186892b85190bcaa123dd70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:40 +0000
Subject: [PATCH 16/33] fix: don't panic when writing route-pairs of a graph
 without nodes

---
 src/io/writing/routing/random_or_all.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/writing/routing/random_or_all.rs b/src/io/writing/routing/random_or_all.rs
index d9f8956..623256e 100644
--- a/src/io/writing/routing/random_or_all.rs
+++ b/src/io/writing/routing/random_or_all.rs
@@ -11,7 +11,7 @@ use rand::{
     SeedableRng,
 };
 use std::{
-    cmp::min,
+    cmp::{max, min},
     collections::HashSet,
     fs::OpenOptions,
     io::{BufWriter, Write},
@@ -56,7 +56,8 @@ impl Writer {
             let mut processed_indices = HashSet::new();
 
             let mut rng = rand_pcg::Pcg32::seed_from_u64(self.seed);
-            let die = Uniform::from(0..nodes.count());
+            // at least one, because the range mustn't be empty (die isn't used without nodes)
+            let die = Uniform::from(0..max(nodes.count(), 1));
 
             let mut dijkstra = Dijkstra::new();
 
-- 
2.43.0


From 9b9aa1cb56987f724d19e08d69205845dd0c5e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:40 +0000
Subject: [PATCH 17/33] fix: don't lose routes silently when balancing

A panicking worker (or no worker at all) has led to missing workloads without an
error, and a route-count of zero has underflowed.
---
 src/bin/osmgraphing/balancing/multithreading.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/bin/osmgraphing/balancing/multithreading.rs b/src/bin/osmgraphing/balancing/multithreading.rs
index d6e42bd..99738ea 100644
--- a/src/bin/osmgraphing/balancing/multithreading.rs
+++ b/src/bin/osmgraphing/balancing/multithreading.rs
@@ -154,6 +154,19 @@ impl Master {
             }
         }
 
+        // A worker stopping by itself has failed, so its routes are missing.
+        for socket in self.worker_sockets.iter_mut() {
+            if let Some(socket) = socket.take() {
+                socket.drop_and_join()?;
+            }
+        }
+        if !route_pairs.is_empty() {
+            return Err(err::Msg::from(format!(
+                "{} route-pairs have not been worked off.",
+                route_pairs.len()
+            )));
+        }
+
         info!(
             "{}{:.1}{}{:.1}{}",
             "On average, ",
@@ -464,10 +477,9 @@ impl Worker {
             if let Some(best_path) = best_path {
                 num_of_found_paths.push(1);
 
-                for _ in 0..(route_count - 1) {
+                for _ in 0..route_count {
                     chosen_paths.push(best_path.clone());
                 }
-                chosen_paths.push(best_path);
             } else {
                 warn!("Didn't find any path when executing Dijkstra.")
             }
-- 
2.43.0


From 9c0289368c77357b0d8fa65d6c81112db2ea9acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:43 +0000
Subject: [PATCH 18/33] fix: refuse unknown keys of columns, generators and
 route-pairs in configs

Unknown keys, e.g. a misspelled 'seed' or 'default', have been ignored silently.
---
 src/configs/parsing/edges/mod.rs                | 2 +-
 src/configs/parsing/generating/edges/metrics.rs | 1 +
 src/configs/parsing/generating/edges/mod.rs     | 2 +-
 src/configs/parsing/generating/nodes/mod.rs     | 2 +-
 src/configs/parsing/nodes/mod.rs                | 2 +-
 src/configs/writing/routing.rs                  | 1 +
 6 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/configs/parsing/edges/mod.rs b/src/configs/parsing/edges/mod.rs
index 5aa89ee..972c7e2 100644
--- a/src/configs/parsing/edges/mod.rs
+++ b/src/configs/parsing/edges/mod.rs
@@ -254,7 +254,7 @@ pub struct RawConfig {
 }
 
 #[derive(Clone, Debug, Deserialize)]
-#[serde(rename_all = "lowercase")]
+#[serde(deny_unknown_fields, rename_all = "lowercase")]
 pub enum RawCategory {
     Meta {
         info: RawMetaInfo,
diff --git a/src/configs/parsing/generating/edges/metrics.rs b/src/configs/parsing/generating/edges/metrics.rs
index 7077b1b..2be44aa 100644
--- a/src/configs/parsing/generating/edges/metrics.rs
+++ b/src/configs/parsing/generating/edges/metrics.rs
@@ -306,6 +306,7 @@ impl From<RawUnitInfo> for ProtoUnitInfo {
 }
 
 #[derive(Clone, Debug, Deserialize)]
+#[serde(deny_unknown_fields)]
 pub struct RawCategory {
     pub unit: RawUnitInfo,
     pub id: SimpleId,
diff --git a/src/configs/parsing/generating/edges/mod.rs b/src/configs/parsing/generating/edges/mod.rs
index 4f55514..5f40970 100644
--- a/src/configs/parsing/generating/edges/mod.rs
+++ b/src/configs/parsing/generating/edges/mod.rs
@@ -251,7 +251,7 @@ impl From<RawMetaInfo> for ProtoMetaInfo {
 pub struct RawConfig(pub Vec<RawCategory>);
 
 #[derive(Clone, Debug, Deserialize)]
-#[serde(rename_all = "lowercase")]
+#[serde(deny_unknown_fields, rename_all = "lowercase")]
 pub enum RawCategory {
     Meta {
         info: RawMetaInfo,
diff --git a/src/configs/parsing/generating/nodes/mod.rs b/src/configs/parsing/generating/nodes/mod.rs
index 4233e27..3b42738 100644
--- a/src/configs/parsing/generating/nodes/mod.rs
+++ b/src/configs/parsing/generating/nodes/mod.rs
@@ -90,7 +90,7 @@ impl From<RawMetaInfo> for ProtoMetaInfo {
 pub struct RawConfig(pub Vec<RawCategory>);
 
 #[derive(Clone, Debug, Deserialize)]
-#[serde(rename_all = "lowercase")]
+#[serde(deny_unknown_fields, rename_all = "lowercase")]
 pub enum RawCategory {
     Meta { info: RawMetaInfo, id: SimpleId },
 }
diff --git a/src/configs/parsing/nodes/mod.rs b/src/configs/parsing/nodes/mod.rs
index a71729a..cf07f7f 100644
--- a/src/configs/parsing/nodes/mod.rs
+++ b/src/configs/parsing/nodes/mod.rs
@@ -143,7 +143,7 @@ impl From<RawMetaInfo> for ProtoMetaInfo {
 pub struct RawConfig(pub Vec<RawCategory>);
 
 #[derive(Clone, Debug, Deserialize)]
-#[serde(rename_all = "lowercase")]
+#[serde(deny_unknown_fields, rename_all = "lowercase")]
 pub enum RawCategory {
     Meta {
         info: RawMetaInfo,
diff --git a/src/configs/writing/routing.rs b/src/configs/writing/routing.rs
index 6188773..1c4d6ef 100644
--- a/src/configs/writing/routing.rs
+++ b/src/configs/writing/routing.rs
@@ -144,6 +144,7 @@ pub struct RawContent {
 }
 
 #[derive(Clone, Debug, Deserialize)]
+#[serde(deny_unknown_fields)]
 pub enum RawCategory {
     #[serde(rename = "random_or_all")]
     RandomOrAll { seed: Option<u64>, max_count: usize },
-- 
2.43.0


From 27f1e9c24a21b18c325c9071ab3d1cd933b5195f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:56 +0000
Subject: [PATCH 19/33] fix: return an error for pbf-files ending in the middle
 of a block

---
 src/io/parsing/network/graph/pbf.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/io/parsing/network/graph/pbf.rs b/src/io/parsing/network/graph/pbf.rs
index bd59eab..3b28f44 100644
--- a/src/io/parsing/network/graph/pbf.rs
+++ b/src/io/parsing/network/graph/pbf.rs
@@ -8,7 +8,24 @@ use kissunits::geo::Coordinate;
 use log::info;
 use osmpbfreader::{reader::OsmPbfReader, OsmObj};
 use smallvec::smallvec;
-use std::fs::OpenOptions;
+use std::{
+    fs::OpenOptions,
+    io::{self, Read},
+};
+
+/// The pbf-reader panics if the file ends in the middle of a block.
+/// Reporting the file's end as error lets the pbf-reader return this error instead.
+/// If the file ends between two blocks, the pbf-reader handles this error as end.
+struct CompleteReader<R>(R);
+
+impl<R: Read> Read for CompleteReader<R> {
+    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        match self.0.read(buf)? {
+            0 if !buf.is_empty() => Err(io::ErrorKind::UnexpectedEof.into()),
+            n => Ok(n),
+        }
+    }
+}
 
 pub struct Parser;
 
@@ -75,7 +92,7 @@ impl super::Parsing for Parser {
             .open(&builder.cfg().map_file)
             .map_err(|e| format!("Couldn't open {}: {}", builder.cfg().map_file.display(), e))?;
 
-        for obj in OsmPbfReader::new(file).par_iter() {
+        for obj in OsmPbfReader::new(CompleteReader(file)).par_iter() {
             let mut way = match obj.map_err(|e| format!("Couldn't read pbf-file: {}", e))? {
                 OsmObj::Way(way) => way,
                 _ => continue,
@@ -174,7 +191,7 @@ impl super::Parsing for Parser {
             .read(true)
             .open(&cfg.map_file)
             .map_err(|e| format!("Couldn't open {}: {}", cfg.map_file.display(), e))?;
-        for obj in OsmPbfReader::new(file).par_iter() {
+        for obj in OsmPbfReader::new(CompleteReader(file)).par_iter() {
             let node = match obj.map_err(|e| format!("Couldn't read pbf-file: {}", e))? {
                 OsmObj::Node(node) => node,
                 _ => continue,
-- 
2.43.0


From 59ce75a34e208a86474a7432de8bcd6da2d7134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:21 +0000
Subject: [PATCH 20/33] fix: don't return a path several times when exploring

---
 src/routing/explorating.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/routing/explorating.rs b/src/routing/explorating.rs
index 06eb0a6..333a5de 100644
--- a/src/routing/explorating.rs
+++ b/src/routing/explorating.rs
@@ -309,7 +309,8 @@ impl ConvexHullExplorator {
                         // is smaller.
 
                         let is_path_new = Approx(new_alpha_cost) < Approx(any_alpha_cost)
-                            && !new_found_paths.contains(&new_path);
+                            && !new_found_paths.contains(&new_path)
+                            && !self.found_paths.values().any(|path| path == &new_path);
                         if is_path_new {
                             trace!("Push {}", new_path);
                             new_found_paths.push(new_path);
-- 
2.43.0


From 09c374ecebad0b1b659d4d67104df616e3c55a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:22 +0000
Subject: [PATCH 21/33] fix: explore also facets whose ignored metrics have
 weights of zero only up to rounding

---
 src/routing/explorating.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/routing/explorating.rs b/src/routing/explorating.rs
index 333a5de..6af6be0 100644
--- a/src/routing/explorating.rs
+++ b/src/routing/explorating.rs
@@ -275,6 +275,18 @@ impl ConvexHullExplorator {
                         } else {
                             continue;
                         };
+                    // Ignored metrics have an alpha of zero up to rounding-errors,
+                    // but Dijkstra refuses even tiny negative values.
+                    for (alpha, is_considered) in query
+                        .routing_cfg
+                        .alphas
+                        .iter_mut()
+                        .zip(query.is_metric_considered.iter())
+                    {
+                        if !is_considered {
+                            *alpha = 0.0;
+                        }
+                    }
                     trace!("alphas = {:?}", query.routing_cfg.alphas);
                     for (i, vertex) in cell.vertices().iter().enumerate() {
                         // for i in 0..candidate.len() {
-- 
2.43.0


From 01e9dd9bb3fa47faad1ea18a385ecaec8a12671f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:03 +0000
Subject: [PATCH 22/33] fix: write route-pairs also when exploring is
 configured

---
 src/io/writing/routing/random_or_all.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/io/writing/routing/random_or_all.rs b/src/io/writing/routing/random_or_all.rs
index 623256e..66a0e70 100644
--- a/src/io/writing/routing/random_or_all.rs
+++ b/src/io/writing/routing/random_or_all.rs
@@ -46,6 +46,16 @@ impl Writer {
         let nodes = graph.nodes();
         let fwd_edges = graph.fwd_edges();
 
+        // Exploring needs an underlying algorithm, which suffices for looking for existing routes.
+        #[cfg(feature = "gpl")]
+        let routing_cfg = &{
+            let mut routing_cfg = routing_cfg.clone();
+            if let configs::routing::RoutingAlgo::Explorator { algo } = routing_cfg.routing_algo {
+                routing_cfg.routing_algo = configs::routing::RoutingAlgo::from(algo);
+            }
+            routing_cfg
+        };
+
         // create routes
 
         let num_possible_routes = nodes.count() * nodes.count();
-- 
2.43.0


From 501a37444996528a84e97a3a3da0f8952b0fba8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:42 +0000
Subject: [PATCH 23/33] Hook: cfg vmon_small_chunks builds graphs out of small
 chunks

---
 src/defaults.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/defaults.rs b/src/defaults.rs
index 2987328..d6c6119 100644
--- a/src/defaults.rs
+++ b/src/defaults.rs
@@ -32,7 +32,11 @@ pub mod capacity {
     // Change this value before compiling, dependent of your number of stored metrics in the graph.
     pub const SMALL_VEC_INLINE_SIZE: usize = compiler::GRAPH_DIM;
     pub type DimVec<T> = smallvec::SmallVec<[T; SMALL_VEC_INLINE_SIZE]>;
+    #[cfg(not(vmon_small_chunks))]
     pub const MAX_BYTE_PER_CHUNK: usize = 200 * 1_000_000;
+    // lets small graphs be built out of several chunks (only for verification)
+    #[cfg(vmon_small_chunks)]
+    pub const MAX_BYTE_PER_CHUNK: usize = 1_000;
 }
 
 pub mod parsing {
-- 
2.43.0


From 3d7d8104134e1802f8057145359a07e335ed0bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:10 +0000
Subject: [PATCH 24/33] fix: refuse infinite metrics

---
 src/network/graph/building.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 440f363..14b9801 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -667,6 +667,10 @@ impl GraphBuilder {
                         "A metric is smaller than accuracy allows it.",
                     ));
                 }
+                // neither weighting with 0.0 nor normalizing is possible
+                if metric.is_infinite() {
+                    return Err(err::Msg::from("A metric is infinite."));
+                }
             }
         }
 
-- 
2.43.0


From 55180068c8137fc7cbb236f079093f3ce7ec4c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 25/33] fix: refuse normalizing metrics without a finite mean

---
 src/network/graph/building.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/network/graph/building.rs b/src/network/graph/building.rs
index 14b9801..5cefae1 100644
--- a/src/network/graph/building.rs
+++ b/src/network/graph/building.rs
@@ -1496,6 +1496,14 @@ impl GraphBuilder {
                 ));
             }
 
+            // values or their sum may be too large, leading to metrics being 0.0 or NaN
+
+            if means.iter().any(|mean| !mean.is_finite()) {
+                return Err(err::Msg::from(
+                    "A metric-mean is not finite, hence no normalization can be done.",
+                ));
+            }
+
             // normalize
 
             for edge_metrics in graph.metrics.iter_mut() {
-- 
2.43.0


From 8aa14347c910eb29aca43c20b5cbe418676cf29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:11 +0000
Subject: [PATCH 26/33] fix: access elements of non-square matrices

---
 src/helpers/algebra.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/helpers/algebra.rs b/src/helpers/algebra.rs
index ba0423d..ced2444 100644
--- a/src/helpers/algebra.rs
+++ b/src/helpers/algebra.rs
@@ -52,8 +52,7 @@ impl Index<(usize, usize)> for Matrix {
     type Output = f64;
 
     fn index(&self, (row, col): (usize, usize)) -> &f64 {
-        let (_n_rows, n_cols) = self.data.shape();
-        &self.data[n_cols * col + row]
+        &self.data[(row, col)]
     }
 }
 
-- 
2.43.0


From c47cdacc8180e95dfbfffa6ff063373d74a81133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:26 +0000
Subject: [PATCH 27/33] fix: compare equal infinities as equal

---
 src/approximating.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/approximating.rs b/src/approximating.rs
index 8cfa162..b35905d 100644
--- a/src/approximating.rs
+++ b/src/approximating.rs
@@ -194,7 +194,8 @@ impl Ord for Approx<f64> {
 
 impl PartialEq for Approx<f64> {
     fn eq(&self, other: &Approx<f64>) -> bool {
-        Approx(self.0 - other.0).approx().abs() <= accuracy::F64_ABS
+        // the difference of equal infinities is not a number
+        self.0 == other.0 || Approx(self.0 - other.0).approx().abs() <= accuracy::F64_ABS
     }
 }
 
-- 
2.43.0


From d0c2e326d9e81d75a4107f31c5852c92c4ebf1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:24 +0000
Subject: [PATCH 28/33] fix: refuse maps whose header has unreadable or too
 many counts

---
 src/io/parsing/network/graph/fmi.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/io/parsing/network/graph/fmi.rs b/src/io/parsing/network/graph/fmi.rs
index 026e6e7..ee4be6a 100644
--- a/src/io/parsing/network/graph/fmi.rs
+++ b/src/io/parsing/network/graph/fmi.rs
@@ -69,9 +69,9 @@ impl super::Parsing for Parser {
             if params.len() == 1 {
                 is_taking_counts = true;
 
-                if let Ok(count) = params[0].parse::<usize>() {
-                    counts.push(count);
-                }
+                counts.push(params[0].parse::<usize>().map_err(|e| {
+                    format!("Couldn't parse count '{}' in the fmi-map-file: {}", params[0], e)
+                })?);
             } else if is_taking_counts {
                 break;
             }
@@ -86,6 +86,12 @@ impl super::Parsing for Parser {
             )
             .into());
         }
+        // e.g. because the columns of the first node-line are missing
+        if counts.len() > 3 {
+            return Err(err::Msg::from(
+                "The provided fmi-map-file has more counts than (metric-, node-, edge-) counts.",
+            ));
+        }
 
         // Current state: Last line-number is first node-line.
         // Further, the last two counts are the node- and edge-counts.
-- 
2.43.0


From 89c9d689f0f0f49c5f2cde26836dd500258990ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:24 +0000
Subject: [PATCH 29/33] fix: refuse route-pairs files with an unreadable or a
 second count

---
 src/io/parsing/routing/routes.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/io/parsing/routing/routes.rs b/src/io/parsing/routing/routes.rs
index 57146fc..45a9f54 100644
--- a/src/io/parsing/routing/routes.rs
+++ b/src/io/parsing/routing/routes.rs
@@ -49,9 +49,9 @@ impl super::Parsing for Parser {
             if params.len() == 1 {
                 is_taking_counts = true;
 
-                if let Ok(count) = params[0].parse::<usize>() {
-                    counts.push(count);
-                }
+                counts.push(params[0].parse::<usize>().map_err(|e| {
+                    format!("Couldn't parse count '{}' in the routes-file: {}", params[0], e)
+                })?);
             } else if is_taking_counts {
                 break;
             }
@@ -63,6 +63,10 @@ impl super::Parsing for Parser {
         if counts.len() < 1 {
             return Err("The provided routes-file doesn't have the routes-count.".into());
         }
+        // e.g. because the columns of the first route-line are missing
+        if counts.len() > 1 {
+            return Err("The provided routes-file has more than one routes-count.".into());
+        }
 
         // Current state: Last line-number is first route-line.
         let routes_count = counts.pop().expect("Expect counts.len() >= 1");
-- 
2.43.0


From 2b924164328d59ac0d289e7743f5a6cc3805358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:34 +0000
Subject: [PATCH 30/33] fix: don't overwrite the results of a balancing run
 started in the same second

---
 src/bin/osmgraphing/balancing/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bin/osmgraphing/balancing/mod.rs b/src/bin/osmgraphing/balancing/mod.rs
index 46c2173..298d5a7 100644
--- a/src/bin/osmgraphing/balancing/mod.rs
+++ b/src/bin/osmgraphing/balancing/mod.rs
@@ -107,11 +107,19 @@ mod simulation_pipeline {
         let raw_cfg = raw_cfg.as_ref();
 
         // set results-directory dependent of the current date in utc
+        fs::create_dir_all(&balancing_cfg.results_dir)?;
         balancing_cfg.results_dir = balancing_cfg.results_dir.join(format!(
             "utc_{}",
             chrono::Utc::now().format("%Y-%m-%d_%H-%M-%S")
         ));
-        fs::create_dir_all(&balancing_cfg.results_dir)?;
+        // fails if the directory exists, e.g. belonging to a run started in the same second
+        fs::create_dir(&balancing_cfg.results_dir).map_err(|e| {
+            format!(
+                "Couldn't create {} due to error: {}",
+                balancing_cfg.results_dir.display(),
+                e
+            )
+        })?;
         info!("Storing results in {}", balancing_cfg.results_dir.display());
 
         fs::copy(
-- 
2.43.0


From 719b917f1583fe960a25bf3bf2d7546bb4e9215a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:19 +0000
Subject: [PATCH 31/33] fix: map values of the visualizer's norms to [0, 1]

TwoSlopeLoggedNorm documents a mapping to [0, 1], but doubled it, so colours of everything above vcenter were the same.
---
 scripts/balancing/visualizer/visualizing/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/balancing/visualizer/visualizing/helpers.py b/scripts/balancing/visualizer/visualizing/helpers.py
index 466aa59..0d12703 100644
--- a/scripts/balancing/visualizer/visualizing/helpers.py
+++ b/scripts/balancing/visualizer/visualizing/helpers.py
@@ -79,7 +79,7 @@ class TwoSlopeLoggedNorm(Normalize):
             mapped_value = np.log(mapped_value) / log_base
         else:
             xp, fp = [vmin, vcenter, vmax], [-1.0, 0.0, 1.0]
-            mapped_value = 2.0 * np.interp(x=value, xp=xp, fp=fp)
+            mapped_value = np.interp(x=value, xp=xp, fp=fp)
 
             for i in range(len(mapped_value)):
                 v = mapped_value[i]
-- 
2.43.0


From f0ca8b5c680533eb2bc4e3adedf1892f7a581e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:19 +0000
Subject: [PATCH 32/33] fix: visualize iterations without used edges and with
 equal workloads

The maximum of an empty list was plotted, and a histogram without any bins was asked for.
---
 .../visualizer/visualizing/plotting.py        | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/scripts/balancing/visualizer/visualizing/plotting.py b/scripts/balancing/visualizer/visualizing/plotting.py
index ef4d822..3d2769e 100644
--- a/scripts/balancing/visualizer/visualizing/plotting.py
+++ b/scripts/balancing/visualizer/visualizing/plotting.py
@@ -132,14 +132,15 @@ class Machine():
                 color=color,
                 alpha=alpha
             )
-            # plot maximum
-            ax.plot(
-                len(mapped_values)-1,
-                mapped_values[-1],
-                'x',
-                color=color,
-                alpha=alpha
-            )
+            # plot maximum, if any edge is used
+            if len(mapped_values) > 0:
+                ax.plot(
+                    len(mapped_values)-1,
+                    mapped_values[-1],
+                    'x',
+                    color=color,
+                    alpha=alpha
+                )
 
         # finalize plot
 
@@ -725,8 +726,9 @@ class Machine():
 
         # plot data
 
-        num_bins = int(np.ceil(data.workloads.max)) - \
-            int(np.floor(data.workloads.min))
+        # at least one bin, because all workloads could be equal
+        num_bins = max(1, int(np.ceil(data.workloads.max)) -
+                       int(np.floor(data.workloads.min)))
         _n, _bins, _patches = ax.hist(
             data.workloads.raw_nz,
             bins=num_bins,
@@ -802,6 +804,10 @@ class Machine():
         # ]
 
         for vec in zipped_data:
+            # no edge is used
+            if len(vec) == 0:
+                continue
+
             workloads = list(map(lambda x: x[1], vec))
             lane_count = int(vec[0][0])
             ax.boxplot(
-- 
2.43.0


From 40b0682c78ca3ffb58d12621b8ad64ac1bd1d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:20 +0000
Subject: [PATCH 33/33] fix: visualize changes being all positive or all
 negative

Limits coming from the data didn't include vcenter, which the norm needs.
---
 scripts/balancing/visualizer/visualizing/helpers.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/scripts/balancing/visualizer/visualizing/helpers.py b/scripts/balancing/visualizer/visualizing/helpers.py
index 0d12703..e39e1e3 100644
--- a/scripts/balancing/visualizer/visualizing/helpers.py
+++ b/scripts/balancing/visualizer/visualizing/helpers.py
@@ -38,6 +38,19 @@ class TwoSlopeLoggedNorm(Normalize):
         self.base = base
         self.vcenter = vcenter
 
+    def autoscale_None(self, A):
+        '''
+        Limits coming from data include vcenter, e.g. if all values are positive.
+        '''
+        is_vmin_missing = self.vmin is None
+        is_vmax_missing = self.vmax is None
+        super().autoscale_None(A)
+        if self.vcenter is not None and np.size(A) > 0:
+            if is_vmin_missing:
+                self.vmin = min(self.vmin, self.vcenter)
+            if is_vmax_missing:
+                self.vmax = max(self.vmax, self.vcenter)
+
     def __call__(self, value, clip=None):
         '''
         In the following explanation, vcenter is expected to be zero.
-- 
2.43.0

