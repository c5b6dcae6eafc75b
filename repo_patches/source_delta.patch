From 66f746cf015a9476df2dac2ee6c8c549ce71916b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:49 +0000
Subject: [PATCH 01/45] fix: an Engine used for a second analysis stamped the
 first circuit's devices again

---
 src/engine.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index e11a08d..156e075 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -461,6 +461,12 @@ impl Engine {
         // assume here that nodes have been indexed 0 -> N-1
         // where n is the number of nodes (including ground) in the circuit
 
+        // forget whatever circuit this engine looked at last
+        self.nonlinear_elements.clear();
+        self.independent_sources.clear();
+        self.v_dependent_sources.clear();
+        self.storage_elements.clear();
+
         // Number of nodes, including ground (aka 0, aka gnd)
         self.c_nodes = ckt.count_nodes();
         println!("*INFO* There are {} nodes in the design, including ground", self.c_nodes);
-- 
2.43.0


From 4ad87bbf7b0fa09970335a37c2d8c2d9eae1631c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:21 +0000
Subject: [PATCH 02/45] fix: transient analysis started capacitors at 0 V
 instead of at the operating point

---
 src/engine.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 156e075..953c40d 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -188,7 +188,11 @@ impl Engine {
 
         // prep values
         let c_mna = self.c_nodes + self.c_vsrcs;
-        let mut unknowns_prev : Vec<f64> = vec![0.0; c_mna];
+        let mut unknowns_prev : Vec<f64> = if unknowns.iter().all(|x| x.is_finite()) {
+            unknowns.clone()
+        } else {
+            vec![0.0; c_mna] // no usable operating point
+        };
 
         // transient loop
         let mut t_delta = cfg.TSTEP * cfg.FS;
-- 
2.43.0


From 552579c7046c8aac0e3dacac9896dbf7827ec1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:54 +0000
Subject: [PATCH 03/45] fix: waveform rows were stamped with a later time than
 the one solved for, and the last step overshot TSTOP

---
 src/engine.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 953c40d..019f2dc 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -233,6 +233,9 @@ impl Engine {
             }
 
 
+            // don't step past the end of the simulation
+            t_delta = t_delta.min(cfg.TSTOP - t_now);
+
             // solver loop
             // breaks when solved, or time-step too small
 
@@ -315,6 +318,9 @@ impl Engine {
                 unknowns_solve = unknowns.to_vec();
             }
 
+            // the timepoint that was just solved, t_delta might change below
+            t_now += t_delta;
+
             if converged {
                 // update things for next loop
                 unknowns_prev = unknowns.to_vec();
@@ -334,8 +340,7 @@ impl Engine {
             }
 
             c_step += 1;
-            t_now += t_delta;
-            if t_now > cfg.TSTOP {
+            if cfg.TSTOP - t_now < 1e-6 * cfg.TSTEP { // no slivers
                 t_now = cfg.TSTOP;
                 is_final_timestep = true;
 
-- 
2.43.0


From 6f9224abfb8f533a6e04d4837609a5bf3de626d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:04 +0000
Subject: [PATCH 04/45] fix: a transient that failed on its last step reported
 TSTOP as its end time

---
 src/engine.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 019f2dc..261719f 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -318,6 +318,13 @@ impl Engine {
                 unknowns_solve = unknowns.to_vec();
             }
 
+            // break out of this loop if an error was detected
+            // there's no solution here, so stay at the last solved timepoint
+            if error {
+                println!("*ERROR* bad stuff happened, breaking out of timestep loop");
+                break;
+            }
+
             // the timepoint that was just solved, t_delta might change below
             t_now += t_delta;
 
@@ -345,12 +352,6 @@ impl Engine {
                 is_final_timestep = true;
 
             } // solver
-
-            // break out of this loop if an error was detected
-            if error {
-                println!("*ERROR* bad stuff happened, breaking out of timestep loop");
-                break;
-            }
         } // time
 
         println!("*INFO* Finished at time {}", t_now);
-- 
2.43.0


From b8a84153ad4d3165c636b2bf8ab234d2ecaa3e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:48 +0000
Subject: [PATCH 05/45] fix: a failed DC operating point was recorded and used
 as the start of the transient

---
 src/engine.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 261719f..c7d5c88 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -61,6 +61,9 @@ pub struct Engine {
     // DC operating point
     dc_op: Vec<f64>,
 
+    // did the last DC operating point analysis converge?
+    dc_converged: bool,
+
 }
 
 impl Engine {
@@ -76,6 +79,7 @@ impl Engine {
             v_dependent_sources: vec![],
             storage_elements: vec![],
             dc_op: vec![],
+            dc_converged: false,
         }
     }
 
@@ -182,18 +186,18 @@ impl Engine {
         // used as the initial values in the transient simulation
         // this will also build the circuit
         let dc_op_stats = self.dc_operating_point(ckt, cfg);
-        let mut unknowns = self.dc_op.clone();
-
-        trace!(" [TRANSIENT] : DC : {:?}", &unknowns);
-
-        // prep values
         let c_mna = self.c_nodes + self.c_vsrcs;
-        let mut unknowns_prev : Vec<f64> = if unknowns.iter().all(|x| x.is_finite()) {
-            unknowns.clone()
+        let mut unknowns = if self.dc_converged {
+            self.dc_op.clone()
         } else {
             vec![0.0; c_mna] // no usable operating point
         };
 
+        trace!(" [TRANSIENT] : DC : {:?}", &unknowns);
+
+        // prep values
+        let mut unknowns_prev : Vec<f64> = unknowns.clone();
+
         // transient loop
         let mut t_delta = cfg.TSTEP * cfg.FS;
         let t_delta_min = cfg.TSTEP * cfg.RMIN; // not mimimum resistance...
@@ -209,7 +213,9 @@ impl Engine {
         // open waveform database
         let mut wavedb = WaveWriter::new(&cfg.wavefile, &ckt.node_id_lut).unwrap();
         wavedb.header(self.c_nodes, self.c_vsrcs);
-        wavedb.dump_vector(t_now, &unknowns); // DC solution
+        if self.dc_converged {
+            wavedb.dump_vector(t_now, &unknowns); // DC solution
+        }
 
         // timestep loop
         let mut is_final_timestep = false;
@@ -444,6 +450,7 @@ impl Engine {
         };
 
         self.dc_op = unknowns.clone();
+        self.dc_converged = converged;
         stats
     }
 
-- 
2.43.0


From ad97d7b0da10defd2eb99c6e24b3f92720b9cf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:16 +0000
Subject: [PATCH 06/45] fix: contradictory voltage sources were accepted with
 the last branch current set to 0

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index c7d5c88..c50bdc9 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -642,7 +642,7 @@ impl Engine {
         let i_last = c_mna - 1;
         n[i_last] = v[i_last][c_mna] / v[i_last][i_last];
         //println!("[lst]  {} / {}",  v[i_last][c_mna], v[i_last][i_last] );
-        if !n[i_last].is_finite() {
+        if n[i_last].is_nan() { // 0/0 - anything else over 0 has no solution
             println!("*WARNING* have to hack the first solve to 0.0");
             println!(" This can happen if solving a 0V source from a node to ground");
             n[i_last] = 0.0;
-- 
2.43.0


From f787c027b31ab46fc04cda66f3249426430c5f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:46 +0000
Subject: [PATCH 07/45] fix: PWL sources were NaN at t=0, wrong at the end of
 the pattern and active before their delay

---
 src/element/vpwl.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/element/vpwl.rs b/src/element/vpwl.rs
index c38fbcd..67e0676 100644
--- a/src/element/vpwl.rs
+++ b/src/element/vpwl.rs
@@ -27,17 +27,20 @@ impl VoltageSourcePwl {
         let t_period = self.pat[idx_last].0;
         //println!("Pattern: {:?} :: Period {}", self.pat, t_period);
 
-        // If we're not repeating, and we're off the end of the pattern
-        // return the final value
-        if (self.repeat < 0.0) && (t > (self.t_delay + t_period)) {
+        // not started yet?
+        let t_pat = t - self.t_delay;
+        if t_pat < 0.0 {
+            return 0.0;
+        }
+
+        // If we're not repeating (or there's nothing to repeat), and we're
+        // at the end of the pattern or beyond, return the final value
+        if ((self.repeat < 0.0) || (t_period <= 0.0)) && (t_pat >= t_period) {
             return self.pat[idx_last].1;
         }
 
         // where in the cycle are we?
-        let t_cycle = ( t - self.t_delay ) % t_period;
-        if t_cycle < 0.0 {
-            return 0.0;
-        }
+        let t_cycle = if self.repeat < 0.0 { t_pat } else { t_pat % t_period };
 
         // find out which points we're between...
         let mut t1 = 0.0;
@@ -59,10 +62,10 @@ impl VoltageSourcePwl {
         //dbg!(t1,v1, t2,v2);
 
         // ... and interpolate between them
-        let mut gradient = (v2-v1) / (t2-t1);
-        if gradient.is_nan() {
-            gradient = 0.0;
+        if t2 <= t1 {
+            return v2; // bang on the first point, and it's at 0
         }
+        let gradient = (v2-v1) / (t2-t1);
         gradient * (t_cycle - t1) + v1
 
     }
-- 
2.43.0


From 5751afc30bac9f1b6b559050a7550a7adb426555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:09 +0000
Subject: [PATCH 08/45] fix: voltage and current sources inside subcircuits
 were dropped

---
 src/expander.rs | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/expander.rs b/src/expander.rs
index b47dd8c..5e64fff 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -337,11 +337,58 @@ fn expand_subckt(
     }
 
     hier.push(inst.name.to_string()); // inst-name
+    expand_sources(ckts, ckt, subckt_id, &hier);
     expand_instances(ckts, ckt, subckt_id, &hier);
     hier.pop(); // inst-name
 }
 
 
+/// Expand the independent sources of a subcircuit
+///
+/// These are already `Element`s with local nodes. The toplevel ones are already
+/// where they should be.
+fn expand_sources(
+    ckts: &[Circuit],
+    ckt: &mut Circuit,
+    host_ckt_id: usize,
+    hier: &[String], // the scope the sources are in
+) {
+    for el in &ckts[host_ckt_id].elements {
+        match el {
+            Element::I(src) => {
+                let p = local_connect(ckts, ckt, host_ckt_id, hier, src.p);
+                let n = local_connect(ckts, ckt, host_ckt_id, hier, src.n);
+                ckt.add_i(p, n, src.value);
+            },
+            Element::Isin(src) => {
+                let mut src = src.clone();
+                src.p = local_connect(ckts, ckt, host_ckt_id, hier, src.p);
+                src.n = local_connect(ckts, ckt, host_ckt_id, hier, src.n);
+                ckt.add_i_sin(src);
+            },
+            Element::V(src) => {
+                let p = local_connect(ckts, ckt, host_ckt_id, hier, src.p);
+                let n = local_connect(ckts, ckt, host_ckt_id, hier, src.n);
+                ckt.add_v(p, n, src.value);
+            },
+            Element::Vsin(src) => {
+                let mut src = src.clone();
+                src.p = local_connect(ckts, ckt, host_ckt_id, hier, src.p);
+                src.n = local_connect(ckts, ckt, host_ckt_id, hier, src.n);
+                ckt.add_v_sin(src);
+            },
+            Element::Vpwl(src) => {
+                let mut src = src.clone();
+                src.p = local_connect(ckts, ckt, host_ckt_id, hier, src.p);
+                src.n = local_connect(ckts, ckt, host_ckt_id, hier, src.n);
+                ckt.add_v_pwl(src);
+            },
+            _ => {} // everything else is an instance
+        }
+    }
+}
+
+
 /// Expand a primitive instantiation
 /// (not recursive)
 //
-- 
2.43.0


From 71497b712d1b17b624e4e6e0779168eb47da3816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:27 +0000
Subject: [PATCH 09/45] fix: waveform columns of nodes with aliases were named
 at random

---
 src/circuit.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 73fc865..de7f4ec 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -409,9 +409,16 @@ impl Circuit {
 
     /// Build NodeId lookup
     /// Do this after reading in the SPICE circuit
+    ///
+    /// A node might have aliases. Use the name it has highest up in the
+    /// hierarchy, so the choice doesn't depend on the `HashMap` ordering.
     pub fn build_node_id_lut(&mut self) {
-        for (name, id) in &self.nodes {
-            self.node_id_lut.insert(*id, String::from(name));
+        let level = |name: &String| name.matches('.').count();
+        let mut names: Vec<_> = self.nodes.iter().collect();
+        names.sort_by_key(|(name, _)| (level(name), name.to_string()));
+        self.node_id_lut.clear();
+        for (name, id) in names {
+            self.node_id_lut.entry(*id).or_insert_with(|| String::from(name));
         }
     }
 
-- 
2.43.0


From c0ff90475869de301e1b46e1b5310243a0a0edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:34 +0000
Subject: [PATCH 10/45] fix: a comment was only stripped when its ; stood
 alone, otherwise the card was dropped or the reader crashed

---
 src/spice.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 99884ee..b6ca22a 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -128,27 +128,21 @@ impl Reader {
 
         for line_wr in lines_iter {
             let line = line_wr.unwrap();
-            let all_bits :Vec<&str> = line.split_whitespace().collect();
+
+            // strip comments off the end
+            let code = line.split(';').next().unwrap_or("");
+            let bits: Vec<&str> = code.split_whitespace().collect();
 
             // jump blank lines
-            if all_bits.is_empty() {
+            if bits.is_empty() {
                 continue;
             }
 
             // skip comment lines
-            if all_bits[0].starts_with('*') {
+            if bits[0].starts_with('*') {
                 continue;
             }
 
-            // strip comments off the end
-            let mut bits: Vec<&str> = vec![];
-            for b in all_bits {
-                if b == ";" {
-                    break;
-                }
-                bits.push(b);
-            }
-
             trace!("Bits: {:?}", bits);
 
             // if we're reading a lib and we haven't matched the `.lib` start
-- 
2.43.0


From beafc8234de0a723571dec0d5a4024d3413e4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:22 +0000
Subject: [PATCH 11/45] fix: malformed R, C, D, E, G, V, I and SIN() cards were
 skipped and another circuit simulated

---
 src/spice.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index b6ca22a..f561f88 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -217,6 +217,9 @@ impl Reader {
                         trace!("*INFO* Isin");
                         let src = self.extract_i_sine(&bits);
                         self.ckts[self.c].add_i_sin(src);
+                    } else {
+                        println!("*ERROR* can't extract current source: {:?}", bits);
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('V') {
                     let _ = extract_identifier(bits[0]);
@@ -235,38 +238,44 @@ impl Reader {
                         let src = self.extract_v_pwl(&bits);
                         self.ckts[self.c].add_v_pwl(src);
                     } else {
-                        println!("Some weird V thing you've got going here");
+                        println!("*ERROR* Some weird V thing you've got going here");
                         println!("bits: {:?}", bits);
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('R') {
                     if let Some(r) = self.extract_primitive(&bits, 2, 1) {
                         self.ckts[self.c].add_instance(r);
                     } else {
                         println!("*ERROR* can't extract resistance");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('C') {
                     if let Some(c) = self.extract_primitive(&bits, 2, 1) {
                         self.ckts[self.c].add_instance(c);
                     } else {
                         println!("*ERROR* can't extract capacitor");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('D') {
                     if let Some(d) = self.extract_primitive(&bits, 2, 0) {
                         self.ckts[self.c].add_instance(d);
                     } else {
                         println!("*ERROR* can't extract diode");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('E') {
                     if let Some(e) = self.extract_primitive(&bits, 4, 1) {
                         self.ckts[self.c].add_instance(e);
                     } else {
                         println!("*ERROR* can't extract VCVS");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('G') {
                     if let Some(g) = self.extract_primitive(&bits, 4, 1) {
                         self.ckts[self.c].add_instance(g);
                     } else {
                         println!("*ERROR* can't extract VCCS");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('X') {
                     trace!("Found instantiation");
@@ -441,7 +450,8 @@ impl Reader {
 
         let all_bits :Vec<&str> = line.split_whitespace().collect();
         if all_bits.len() != 3 {
-            println!("*ERROR* not enough parameters to SIN()");
+            println!("*ERROR* expected 3 parameters to SIN()");
+            self.there_are_errors = true;
         }
         let offset = extract_value(all_bits[0]).unwrap();
         let amplitude = extract_value(all_bits[1]).unwrap();
@@ -479,7 +489,8 @@ impl Reader {
 
         let all_bits :Vec<&str> = line.split_whitespace().collect();
         if all_bits.len() != 3 {
-            println!("*ERROR* not enough parameters to SIN()");
+            println!("*ERROR* expected 3 parameters to SIN()");
+            self.there_are_errors = true;
         }
         let offset = extract_value(all_bits[0]).unwrap();
         let amplitude = extract_value(all_bits[1]).unwrap();
-- 
2.43.0


From a54907bc1cccf40a478620ead6e146466db29a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:42 +0000
Subject: [PATCH 12/45] fix: an instance with too few connections was simulated
 with its other ports left open

---
 src/expander.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expander.rs b/src/expander.rs
index 5e64fff..e728378 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -306,8 +306,9 @@ fn expand_subckt(
     // number of ports
     //dbg!(ckts[subckt_id].num_ports, inst.conns.len());
     if ckts[subckt_id].num_ports != inst.conns.len() {
-        print!("*ERROR* Instantiation and subcircuit definitions ");
+        print!("*FATAL* Instantiation and subcircuit definitions ");
         println!("have different port sizes");
+        panic!();
     }
 
 
-- 
2.43.0


From ffc99d579e6bd3dfbb6ebbd8b6f3f0a687b3644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:12 +0000
Subject: [PATCH 13/45] fix: a subcircuit that instantiates itself overflowed
 the stack

---
 src/expander.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/expander.rs b/src/expander.rs
index e728378..ba17d1b 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -291,6 +291,13 @@ fn expand_subckt(
 
     trace!("expand_subckt() -> '{}' . '{}'", hier.join("."), inst.name);
 
+    // can't be deeper than the number of definitions unless something
+    // instantiates itself
+    if hier.len() >= ckts.len() {
+        println!("*FATAL* Subcircuit {} instantiates itself", inst.subckt);
+        panic!();
+    }
+
     // find the subckt definition index
     let subckt_id = if let Some(ckt_id) = find_subckt_index(ckts, &inst.subckt) {
         trace!("Found subcircuit definition: index={}; subckt={}; ident={}",
-- 
2.43.0


From 3d1e4870297a583d90ff8013637beafcf514c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:10 +0000
Subject: [PATCH 14/45] fix: a ground or repeated port in a .subckt line
 connected the following ports to wrong nodes

---
 src/spice.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index f561f88..870976a 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -313,8 +313,14 @@ impl Reader {
                                 }
                                 continue;
                             }
-                            self.ckts[self.c].add_node(nn);
+                            // the expander counts on ports being numbered
+                            // 1, 2, 3...
+                            let nid = self.extract_node(nn);
                             num_ports += 1;
+                            if nid != num_ports {
+                                println!("*ERROR* port '{}' is ground or a repeat", nn);
+                                self.there_are_errors = true;
+                            }
                         }
                         self.ckts[self.c].num_ports = num_ports;
 
@@ -625,7 +631,7 @@ impl Reader {
 
         // Store the connections as NodeIds
         for conn in bits.iter().take(subckt_id).skip(1) {
-            let nid = self.ckts[self.c].add_node(conn);
+            let nid = self.extract_node(conn);
             inst.add_connection(nid);
         }
 
-- 
2.43.0


From 07269b4407c4b4db8715f84f2a093a26d4bf0100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:16 +0000
Subject: [PATCH 15/45] fix: everything after an unterminated .subckt was moved
 into it and the rest simulated

---
 src/spice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 870976a..0ce4563 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -375,6 +375,11 @@ impl Reader {
             //println!("{}", line);
         }
 
+        if in_subckt {
+            println!("*ERROR* .subckt without a .ends");
+            self.there_are_errors = true;
+        }
+
         // if we were reading a library definition and we haven't found a
         // start (or FIXME a finish), then complain.
         if let ReadMode::Library(ref libn) = readmode {
-- 
2.43.0


From 1b3da03458983cc3d88d2911301b1b866f7bd906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:38 +0000
Subject: [PATCH 16/45] fix: two instances of the same name in a scope shared
 their internal nodes

---
 src/spice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 0ce4563..e795ea1 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -280,6 +280,11 @@ impl Reader {
                 } else if bits[0].starts_with('X') {
                     trace!("Found instantiation");
                     let inst = self.extract_instance(&bits);
+                    // nodes and parameters are found by instance name
+                    if self.ckts[self.c].instances.iter().any(|i| i.name == inst.name) {
+                        println!("*ERROR* there's already an instance '{}'", inst.name);
+                        self.there_are_errors = true;
+                    }
                     self.ckts[self.c].add_instance(inst);
                 } else if bits[0].starts_with('.') {
                     if bits[0] == ".control" {
-- 
2.43.0


From 5737a386348acec53a35a64d91381ec44d08df18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:44 +0000
Subject: [PATCH 17/45] fix: devices with the same identifier all got the value
 of the first one

---
 src/circuit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index de7f4ec..4e33822 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -425,8 +425,11 @@ impl Circuit {
     /// Find a parameter value
     ///
     /// `N` is small..
+    ///
+    /// The latest one counts: devices in a SPICE deck can share an identifier,
+    /// and each sets its parameters just before it looks them up.
     pub fn get_param_value(&self, name: &str) -> Option<f64> {
-        for p in &self.params {
+        for p in self.params.iter().rev() {
             if p.name == name {
                 return p.value
             }
-- 
2.43.0


From 982f272b3af3e8d2a7a88bea1ec158bd81fed731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:09 +0000
Subject: [PATCH 18/45] fix: a parameter override naming an unknown parameter
 silently became the default

---
 src/expander.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/expander.rs b/src/expander.rs
index ba17d1b..7851782 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -163,9 +163,8 @@ fn expand_instances(
                         trace!("Found value for identifier in param");
                         Some(val)
                     } else {
-                        trace!("Can't find identifier '{}' for param '{}'",
+                        panic!("*FATAL* Can't find identifier '{}' for param '{}'",
                                lookup_param_name, param_full_name);
-                        None
                     }
                 },
 
-- 
2.43.0


From 944b8cf5ab5e0420d5cd862fb0791ea9f43ba6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:35 +0000
Subject: [PATCH 19/45] fix: the documented option spellings NAME=value and
 lower case crashed or were ignored

---
 src/spice.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index e795ea1..5950f87 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -423,21 +423,25 @@ impl Reader {
             return;
         }
 
-        // FIXME - might be "abstol=2e6" too - lower case, no spaces surrounding '='
-        if bits[2] != "=" {
+        // might be "abstol=2e6" too - lower case, no spaces surrounding '='
+        let setting = bits[1..].join(" ");
+        let (name, value) = if let Some((name, value)) = setting.split_once('=') {
+            (name.trim().to_uppercase(), value.trim())
+        } else {
             println!("*ERROR* Expected '=' in option setting");
+            self.there_are_errors = true;
             return;
-        }
+        };
 
-        match bits[1] {
+        match name.as_str() {
             "ABSTOL" => {
-                self.cfg.ABSTOL = extract_value(bits[3]).unwrap();
+                self.cfg.ABSTOL = extract_value(value).unwrap();
             },
             "RELTOL" => {
-                self.cfg.RELTOL = extract_value(bits[3]).unwrap();
+                self.cfg.RELTOL = extract_value(value).unwrap();
             },
             "RMAX" => {
-                self.cfg.RMAX = extract_value(bits[3]).unwrap();
+                self.cfg.RMAX = extract_value(value).unwrap();
             },
             _ => {
             }
-- 
2.43.0


From 265cf2507944e8ef50c3ff7248932c06d082f007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:00 +0000
Subject: [PATCH 20/45] fix: Newton iteration was declared converged while
 diodes were still being limited

---
 src/element/diode.rs |  8 ++++++++
 src/engine.rs        | 13 +++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/element/diode.rs b/src/element/diode.rs
index 9b701d0..86fe311 100644
--- a/src/element/diode.rs
+++ b/src/element/diode.rs
@@ -23,6 +23,7 @@ pub struct Diode {
     v_d_prev: Cell<f64>,
     i_d_prev: Cell<f64>,
     g_eq_prev: Cell<f64>,
+    limited: Cell<bool>,
 }
 
 impl Diode {
@@ -39,6 +40,7 @@ impl Diode {
             v_d_prev: Cell::new(0.0),
             i_d_prev: Cell::new(0.0),
             g_eq_prev: Cell::new(GMIN),
+            limited: Cell::new(false),
         };
         d.update_v_thermal();
         d.update_v_crit();
@@ -105,12 +107,18 @@ impl Diode {
             println!("*ERROR* - banjaxed");
         }
 
+        self.limited.set(v_d_i != v_hat);
         self.v_d_prev.set(v_d_i);
         self.i_d_prev.set(i_d);
         self.g_eq_prev.set(g_eq);
         (g_eq, i_eq)
     }
 
+    /// Was the last linearisation done at another voltage than asked for?
+    pub fn is_limited(&self) -> bool {
+        self.limited.get()
+    }
+
     /// thermal voltage. Should be ~26mV at room temperature
     fn update_v_thermal(&mut self) {
         self.v_thermal = BOLTZMANN * (363.0 + self.tdegc) / CHARGE;
diff --git a/src/engine.rs b/src/engine.rs
index c50bdc9..0ae8d0e 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -292,7 +292,7 @@ impl Engine {
                 // Convergence check
                 match self.convergence_check(&unknowns, &unknowns_solve, cfg) {
                     Ok(cnvg) => {
-                        if cnvg {
+                        if cnvg && !self.nonlinear_limited() {
                             trace!(" [TIMESTEP] Timestep converged after {} iterations", c_itl);
                             converged = true;
                             break;
@@ -419,7 +419,7 @@ impl Engine {
             if c_iteration > 0 {
                 match self.convergence_check(&unknowns, &unknowns_prev, cfg) {
                     Ok(cnvd) => {
-                        if cnvd {
+                        if cnvd && !self.nonlinear_limited() {
                             converged = true;
                             break;
                         }
@@ -860,6 +860,15 @@ impl Engine {
         //self.pp_matrix(&m);
     }
 
+    // are any of the nonlinear devices still being held back from the voltage
+    // the solver has for them?
+    fn nonlinear_limited(&self) -> bool {
+        self.nonlinear_elements.iter().any(|el| match *el {
+            circuit::Element::D(ref d) => d.is_limited(),
+            _ => false,
+        })
+    }
+
     fn v_dependent_source_stamp(&self, m: &mut [Vec<f64>]) {
 
         if !&self.v_dependent_sources.is_empty() {
-- 
2.43.0


From 77955459b9296d25b542195876657e0754fa549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:02 +0000
Subject: [PATCH 21/45] fix: circuits with over 256 node ids crashed, and
 unconnected nodes collided with source currents

---
 src/circuit.rs | 149 +++++++++----------------------------------------
 src/engine.rs  |   8 +++
 2 files changed, 35 insertions(+), 122 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 4e33822..7385946 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -141,135 +141,40 @@ impl Circuit {
     }
 
     /// Count the nodes in the circuit
+    ///
+    /// This is one more than the highest `NodeId`.
     pub fn count_nodes(&self) -> usize {
+        self.connected_nodes().len()
+    }
 
-        // number of nodes in the circuit - there is always at least ground
-        let mut c_nodes: usize = 1;
-
-        let mut seen = [false; 256]; // max nodes magic number
+    /// Find out which nodes have something connected to them
+    ///
+    /// The result is indexed by `NodeId`. There's always at least ground.
+    pub fn connected_nodes(&self) -> Vec<bool> {
+        let mut seen = vec![false; self.nid_next.max(1)];
         seen[0] = true; // always a ground
 
         for el in &self.elements {
-                match *el {
-                    Element::I(CurrentSource{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::R(Resistor{ ref a, ref b, .. }) => {
-                        if !seen[*a] {
-                            seen[*a] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*b] {
-                            seen[*b] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::V(VoltageSource{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::D(Diode{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Isin(CurrentSourceSine{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vsin(VoltageSourceSine{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::C(Capacitor{ ref a, ref b, .. }) => {
-                        if !seen[*a] {
-                            seen[*a] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*b] {
-                            seen[*b] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vpwl(VoltageSourcePwl{ ref p, ref n, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vcvs(Vcvs{ ref p, ref n, ref cp, ref cn, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cp] {
-                            seen[*cp] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cn] {
-                            seen[*cn] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vccs(Vccs{ ref p, ref n, ref cp, ref cn, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cp] {
-                            seen[*cp] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cn] {
-                            seen[*cn] = true;
-                            c_nodes += 1;
-                        }
-                    }
+            let nodes = match *el {
+                Element::I(CurrentSource{ p, n, .. }) => vec![p, n],
+                Element::R(Resistor{ a, b, .. }) => vec![a, b],
+                Element::V(VoltageSource{ p, n, .. }) => vec![p, n],
+                Element::D(Diode{ p, n, .. }) => vec![p, n],
+                Element::Isin(CurrentSourceSine{ p, n, .. }) => vec![p, n],
+                Element::Vsin(VoltageSourceSine{ p, n, .. }) => vec![p, n],
+                Element::C(Capacitor{ a, b, .. }) => vec![a, b],
+                Element::Vpwl(VoltageSourcePwl{ p, n, ..}) => vec![p, n],
+                Element::Vcvs(Vcvs{ p, n, cp, cn, ..}) => vec![p, n, cp, cn],
+                Element::Vccs(Vccs{ p, n, cp, cn, ..}) => vec![p, n, cp, cn],
+            };
+            for nid in nodes {
+                if nid >= seen.len() {
+                    seen.resize(nid + 1, false);
                 }
+                seen[nid] = true;
+            }
         }
-        c_nodes
+        seen
     }
 
     /// Count the voltage sources in the circuit
diff --git a/src/engine.rs b/src/engine.rs
index 0ae8d0e..1691422 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -576,6 +576,14 @@ impl Engine {
                 
             }
         }
+
+        // nothing holds an unconnected node anywhere, so put it at 0V
+        for (nid, connected) in ckt.connected_nodes().iter().enumerate() {
+            if !connected {
+                m[nid][nid] = 1.0;
+            }
+        }
+
         self.base_matrix = m.to_vec();
         self.pp_matrix(&self.base_matrix);
 
-- 
2.43.0


From fcf2974dfe93a494f23c0d06385fb1cd9a4d8bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:07 +0000
Subject: [PATCH 22/45] fix: a deck given by absolute path could not be
 simulated, its waveform directory replaced waves/

---
 src/spice.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 5950f87..5be1bb0 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -28,7 +28,7 @@
 //!   * Subcircuit definitions with `.subckt` and `.ends`
 //!   * Instantiations with `X...`
 
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::fs::File;
 use std::io::{BufReader, BufRead};
 
@@ -165,15 +165,13 @@ impl Reader {
                 trace!("*INFO* Parsing control '{}'", bits[0]);
                 if bits[0] == "op" {
                     self.cfg.kind = Some(Kind::DcOperatingPoint);
-                    let wavefile = Path::new("waves")
-                        .join(&self.cfg.ckt_name)
+                    let wavefile = wave_dir(&self.cfg.ckt_name)
                         .join("dc.dat");
                     self.cfg.set_wavefile(wavefile.to_str().expect("CasdfasDF"));
 
                 } else if bits[0] == "tran" {
                     self.cfg.kind = Some(Kind::Transient);
-                    let wavefile = Path::new("waves")
-                        .join(&self.cfg.ckt_name)
+                    let wavefile = wave_dir(&self.cfg.ckt_name)
                         .join("tran.dat");
                     self.cfg.set_wavefile(wavefile.to_str().expect("CasdfasDF"));
 
@@ -799,6 +797,21 @@ fn extract_identifier(text: &str) -> String {
 }
 
 
+/// Directory for the waveforms of a circuit
+///
+/// The circuit name is the path of the SPICE file, and might be absolute or
+/// have `..`s in it. Either way, the waveforms go somewhere in `waves/`.
+fn wave_dir(ckt_name: &str) -> PathBuf {
+    let mut dir = PathBuf::from("waves");
+    for part in Path::new(ckt_name).components() {
+        if let Component::Normal(name) = part {
+            dir.push(name);
+        }
+    }
+    dir
+}
+
+
 /// Look around for an include or library file.
 ///
 /// It should be relative to the file it is called from, unless
-- 
2.43.0


From c5904e738a2900c3f6c5abca2867d90445d7f678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:22 +0000
Subject: [PATCH 23/45] fix: waveform files rounded to 9 decimals, losing
 sub-nanosecond times and nanoamp currents

---
 src/wavewriter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wavewriter.rs b/src/wavewriter.rs
index 28c0339..73ee6d0 100644
--- a/src/wavewriter.rs
+++ b/src/wavewriter.rs
@@ -83,10 +83,10 @@ impl WaveWriter<'_> {
 
     pub fn dump_vector(&mut self, time: f64, vars: &[f64]) {
         if let Some(ref mut file) = self.file {
-            let mut line = format!("{:0.9}", time);
+            let mut line = format!("{:e}", time);
 
             for var in vars {
-                let bit = format!("\t{:0.9}", var);
+                let bit = format!("\t{:e}", var);
                 line += &bit;
             }
             line += "\n";
-- 
2.43.0


From b28510ca77bc192a5048a8c5b7bffabcc129e380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:55 +0000
Subject: [PATCH 24/45] fix: a transient with a zero or negative step setting
 never ended

---
 src/engine.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index 1691422..8bd3f94 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -182,6 +182,18 @@ impl Engine {
     -> analysis::Statistics
     {
 
+        // there'd be no end to it if time can't advance or shrink
+        let can_step = [cfg.TSTEP, cfg.TSTOP, cfg.FS, cfg.RMAX, cfg.FT, cfg.RMIN]
+            .iter().all(|x| *x > 0.0);
+        if !can_step || cfg.FT >= 1.0 {
+            println!("*ERROR* can't step through time with these transient settings");
+            return analysis::Statistics {
+                kind: analysis::Kind::Transient,
+                end: 0.0,
+                iterations: 0,
+            };
+        }
+
         // Find the DC operating point
         // used as the initial values in the transient simulation
         // this will also build the circuit
-- 
2.43.0


From fd9e840969e3fd1459fc42e01e9e6c1c03eed087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:01 +0000
Subject: [PATCH 25/45] fix: the first transient step could be longer than the
 RMAX limit

---
 src/engine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 8bd3f94..72b840c 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -211,7 +211,8 @@ impl Engine {
         let mut unknowns_prev : Vec<f64> = unknowns.clone();
 
         // transient loop
-        let mut t_delta = cfg.TSTEP * cfg.FS;
+        let t_delta_max = cfg.TSTEP * cfg.RMAX;
+        let mut t_delta = t_delta_max.min(cfg.TSTEP * cfg.FS);
         let t_delta_min = cfg.TSTEP * cfg.RMIN; // not mimimum resistance...
         let mut t_now = 0.0;
 
@@ -354,7 +355,6 @@ impl Engine {
                 // reduce the t_delta
                 if !geared & (c_itl < cfg.ITL3) {
                     t_delta *= 2.0;
-                    let t_delta_max = cfg.TSTEP * cfg.RMAX;
                     if t_delta > t_delta_max {
                         trace!(" [TIMESTEP] Downshifting maxed out");
                         t_delta = t_delta_max;
-- 
2.43.0


From d35c9709a39f4742c989a2457a32bffcfd8c2a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:36 +0000
Subject: [PATCH 26/45] fix: the solution just short of TSTOP was recorded as
 the one at TSTOP

---
 src/engine.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 72b840c..7f182c1 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -252,8 +252,11 @@ impl Engine {
             }
 
 
-            // don't step past the end of the simulation
-            t_delta = t_delta.min(cfg.TSTOP - t_now);
+            // don't step past the end of the simulation, or stop just short of it
+            let t_left = cfg.TSTOP - t_now;
+            if t_delta > t_left - 1e-6 * cfg.TSTEP {
+                t_delta = t_left;
+            }
 
             // solver loop
             // breaks when solved, or time-step too small
@@ -365,7 +368,7 @@ impl Engine {
             }
 
             c_step += 1;
-            if cfg.TSTOP - t_now < 1e-6 * cfg.TSTEP { // no slivers
+            if cfg.TSTOP - t_now < 1e-6 * cfg.TSTEP { // got there
                 t_now = cfg.TSTOP;
                 is_final_timestep = true;
 
-- 
2.43.0


From c46cc0ea794f6ed26c08b0169181f72207d93ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:09 +0000
Subject: [PATCH 27/45] fix: RMIN defaulted to 1e3 instead of the documented
 1e-9, so time steps were never reduced

---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 10a3f37..77f3cea 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -131,7 +131,7 @@ impl Configuration {
 
             FS: 0.25,
             FT: 0.25,
-            RMIN: 1e03,
+            RMIN: 1e-9,
             RMAX: 5.0,
             ITL3: 6,
             ITL4: 50,
-- 
2.43.0


From 5b887444b43d07b1a51c7d2f2288fa731c8a7a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:31 +0000
Subject: [PATCH 28/45] fix: a PWL source written without spaces crashed the
 reader

---
 src/spice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spice.rs b/src/spice.rs
index 5be1bb0..7e1c831 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -223,7 +223,7 @@ impl Reader {
                     let _ = extract_identifier(bits[0]);
                     let node1 = self.extract_node(bits[1]);
                     let node2 = self.extract_node(bits[2]);
-                    if bits.len() == 4 {
+                    if bits.len() == 4 && !bits[3].starts_with("PWL(") {
                         trace!("*INFO* Vdc");
                         let value = extract_value(bits[3]);
                         self.ckts[self.c].add_v(node1, node2, value.unwrap());
-- 
2.43.0


From 5ada76581cd54ce9d5587619fd651c79431e6dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:38 +0000
Subject: [PATCH 29/45] fix: a PWL source with an unusable td=, r= or other
 parameter was simulated without it

---
 src/spice.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spice.rs b/src/spice.rs
index 7e1c831..2d51bc2 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -553,6 +553,9 @@ impl Reader {
                     let val = if let Some(Literal(v)) = param.expr {
                         v
                     } else {
+                        println!("*ERROR* expected a number for PWL parameter '{}'",
+                            param.name);
+                        self.there_are_errors = true;
                         0.0
                     };
 
@@ -560,8 +563,9 @@ impl Reader {
                         "r" => { src.repeat = val},
                         "td" => { src.t_delay = val},
                         _ => {
-                            println!("*WARNING* unrecogised PWL parameter '{}'",
+                            println!("*ERROR* unrecogised PWL parameter '{}'",
                                 param.name);
+                            self.there_are_errors = true;
                         }
                     }
                 } else {
-- 
2.43.0


From efbe4918cb9643a1bb141666b467ed834cf35fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 30/45] fix: a waveform file that could not be written was
 silently left incomplete

---
 src/wavewriter.rs | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/wavewriter.rs b/src/wavewriter.rs
index 73ee6d0..4b883f4 100644
--- a/src/wavewriter.rs
+++ b/src/wavewriter.rs
@@ -75,26 +75,32 @@ impl WaveWriter<'_> {
         }
         units += "\n";
 
-        if let Some(ref mut file) = self.file {
-            let _ = file.write_all(names.as_bytes());
-            let _ = file.write_all(units.as_bytes());
-        }
+        self.write(&names);
+        self.write(&units);
     }
 
     pub fn dump_vector(&mut self, time: f64, vars: &[f64]) {
-        if let Some(ref mut file) = self.file {
-            let mut line = format!("{:e}", time);
+        let mut line = format!("{:e}", time);
 
-            for var in vars {
-                let bit = format!("\t{:e}", var);
-                line += &bit;
-            }
-            line += "\n";
-            let _ = file.write_all(line.as_bytes());
+        for var in vars {
+            let bit = format!("\t{:e}", var);
+            line += &bit;
         }
+        line += "\n";
+        self.write(&line);
 
     }
 
+    // Give up on the file if it can't be written to, but don't keep it a secret
+    fn write(&mut self, text: &str) {
+        if let Some(ref mut file) = self.file {
+            if let Err(why) = file.write_all(text.as_bytes()) {
+                println!("*ERROR* Can't write to waveform file: {}", why);
+                self.file = None;
+            }
+        }
+    }
+
 }
 
 
-- 
2.43.0


From 10e1f3b6ee35f59daf54a309ff624143dce6dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 31/45] fix: a voltage source across one node put that node at
 minus its voltage without an error

---
 src/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 7f182c1..d9f1719 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -772,13 +772,13 @@ impl Engine {
         let n_not_grounded = (vsrc.n != 0);
 
         if p_not_grounded {
-            m[idx_vsrc][vsrc.p] = 1.0;
-            m[vsrc.p][idx_vsrc] = 1.0;
+            m[idx_vsrc][vsrc.p] += 1.0;
+            m[vsrc.p][idx_vsrc] += 1.0;
         }
 
         if n_not_grounded {
-            m[idx_vsrc][vsrc.n] = -1.0;
-            m[vsrc.n][idx_vsrc] = -1.0;
+            m[idx_vsrc][vsrc.n] -= 1.0;
+            m[vsrc.n][idx_vsrc] -= 1.0;
         }
     }
 
-- 
2.43.0


From 28d23560a1124053eba94d021f3337a87c560576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 32/45] fix: a subcircuit named like the deck file was taken to
 be the toplevel circuit

---
 src/expander.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expander.rs b/src/expander.rs
index 7851782..17b3bee 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -536,7 +536,8 @@ fn expand_primitive(
 /// `N` is small, so just search the circuit list one by one until
 /// a name match is found.
 fn find_subckt_index(ckts: &[Circuit], name: &str) -> Option<usize> {
-    for (i, ckt) in ckts.iter().enumerate() {
+    // the toplevel isn't one, and its name is the SPICE filename
+    for (i, ckt) in ckts.iter().enumerate().skip(1) {
         if ckt.name == name {
             return Some(i);
         }
-- 
2.43.0


From e6ba96376f95ed5b28f4de92127ddca26aa7cb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 33/45] fix: a tran command without a start time kept the one
 of an earlier tran

---
 src/spice.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spice.rs b/src/spice.rs
index 2d51bc2..f00fd37 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -182,6 +182,7 @@ impl Reader {
                     }
                     self.cfg.TSTEP = extract_value(bits[1]).unwrap();
                     self.cfg.TSTOP = extract_value(bits[2]).unwrap();
+                    self.cfg.TSTART = 0.0; // might be set by an earlier one
                     if bits.len() > 3 {
                         self.cfg.TSTART = extract_value(bits[3]).unwrap();
                     }
-- 
2.43.0


From 655ddd701034261023f4e363090babe11bdcb33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 34/45] fix: an instance with a dot in its name shared nodes
 with one further down the hierarchy

---
 src/spice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index f00fd37..df79a99 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -279,6 +279,11 @@ impl Reader {
                 } else if bits[0].starts_with('X') {
                     trace!("Found instantiation");
                     let inst = self.extract_instance(&bits);
+                    // 'X1.X2' is instance 'X2' in 'X1'
+                    if inst.name.contains('.') {
+                        println!("*ERROR* instance name '{}' contains a '.'", inst.name);
+                        self.there_are_errors = true;
+                    }
                     // nodes and parameters are found by instance name
                     if self.ckts[self.c].instances.iter().any(|i| i.name == inst.name) {
                         println!("*ERROR* there's already an instance '{}'", inst.name);
-- 
2.43.0


From 13440f62100cdbae5cf98a8226e4071345041191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 35/45] fix: the cards after an unterminated .control were
 ignored and the rest simulated

---
 src/spice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index df79a99..97b854a 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -389,6 +389,11 @@ impl Reader {
             self.there_are_errors = true;
         }
 
+        if in_control_block {
+            println!("*ERROR* .control without a .endc");
+            self.there_are_errors = true;
+        }
+
         // if we were reading a library definition and we haven't found a
         // start (or FIXME a finish), then complain.
         if let ReadMode::Library(ref libn) = readmode {
-- 
2.43.0


From 86aa4303556bfb411d47a1a0c1c1e915b3c16fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:25 +0000
Subject: [PATCH 36/45] fix: one waveform file without data rows stopped r8n
 from drawing the others

---
 bin/r8n/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/r8n/__main__.py b/bin/r8n/__main__.py
index 05a7c8c..cd960fa 100644
--- a/bin/r8n/__main__.py
+++ b/bin/r8n/__main__.py
@@ -99,7 +99,8 @@ for i in range( len(filenames) ):
         wv = waveforms.load( os.path.join(dirname, filename), expr=expr )
         colour = colours[j%len(colours)]
         plt.plot(wv.x, wv.y, color=colour)
-        plt.plot(wv.x[-1], wv.y[-1], 'o', color=colour)
+        if len(wv.x) > 0: # there's no data if the simulation failed at DC
+            plt.plot(wv.x[-1], wv.y[-1], 'o', color=colour)
 
 # show
 plt.show()
-- 
2.43.0


From 98445109f53e26448f96bf931a0f75a7652c45db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:06 +0000
Subject: [PATCH 37/45] fix: don't accept a solution in which the voltage
 sources don't hold

Voltage sources that contradict each other make the matrix singular, but
rounding can leave a pivot of 1e-17 or so and that used to be taken for a
solution with sources at the wrong voltage. Check the sources' equations
before calling it converged.
---
 src/engine.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index d9f1719..dbd853b 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -295,7 +295,7 @@ impl Engine {
                 self.nonlinear_stamp(&mut m, &unknowns, &unknowns_solve_prev);
 
                 // Solve
-                unknowns = self.solve(m);
+                unknowns = self.solve(m.clone());
                 _mse = self.mean_squared_error(&unknowns_solve, &unknowns);
 
                 // enable this to plot delta-time
@@ -308,7 +308,9 @@ impl Engine {
                 // Convergence check
                 match self.convergence_check(&unknowns, &unknowns_solve, cfg) {
                     Ok(cnvg) => {
-                        if cnvg && !self.nonlinear_limited() {
+                        if cnvg && !self.nonlinear_limited()
+                            && self.voltages_hold(&m, &unknowns, cfg)
+                        {
                             trace!(" [TIMESTEP] Timestep converged after {} iterations", c_itl);
                             converged = true;
                             break;
@@ -424,7 +426,7 @@ impl Engine {
 
             // Guassian elimination & back solve of the now linearized
             // circuit matrix
-            unknowns = self.solve(m);
+            unknowns = self.solve(m.clone());
 
             // Convergence check
             trace!(" [CONVERGE] Convergence check {}", c_iteration);
@@ -434,7 +436,9 @@ impl Engine {
             if c_iteration > 0 {
                 match self.convergence_check(&unknowns, &unknowns_prev, cfg) {
                     Ok(cnvd) => {
-                        if cnvd && !self.nonlinear_limited() {
+                        if cnvd && !self.nonlinear_limited()
+                            && self.voltages_hold(&m, &unknowns, cfg)
+                        {
                             converged = true;
                             break;
                         }
@@ -704,6 +708,21 @@ impl Engine {
 
     }
 
+    // Do all voltage sources have their voltage? When they contradict each other
+    // the matrix is singular, but rounding might have hidden that.
+    fn voltages_hold(&self, m: &[Vec<f64>], x: &[f64], cfg: &analysis::Configuration) -> bool {
+        let ia = self.c_nodes + self.c_vsrcs;
+        m[self.c_nodes..].iter().all(|row| {
+            let mut sum = -row[ia];
+            let mut magnitude = row[ia].abs();
+            for (a, v) in row.iter().zip(x) {
+                sum += a * v;
+                magnitude += (a * v).abs();
+            }
+            sum.abs() <= 1e-3 * magnitude + cfg.VNTOL
+        })
+    }
+
     fn index_of_next_abs( &self, m: &[Vec<f64>], k: usize ) -> usize {
         let mut biggest: f64 = 0.0;
         let mut r_biggest: usize = k;
-- 
2.43.0


From 03e8d4fe12146e306422b814246211f89e1d04e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:39 +0000
Subject: [PATCH 38/45] fix: numbers not separated by commas in a PWL source
 were silently dropped

---
 src/spice.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 97b854a..033f194 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -612,6 +612,11 @@ impl Reader {
             if tv_pair.len() == 1 {
                 println!("*WARNING* Unmatched time value: {}", tv_pair[0]);
             }
+            // "PWL(0 1, 2 3)" or "PWL(0, 1) 2" would lose numbers
+            if tv_pair.iter().any(|n| n.split_whitespace().count() != 1) {
+                println!("*ERROR* expected a ',' between the numbers in PWL()");
+                self.there_are_errors = true;
+            }
             let t = extract_value(tv_pair[0].trim()).unwrap();
             let v = extract_value(tv_pair[1].trim()).unwrap();
             tvs.push((t,v));
-- 
2.43.0


From 8e118bb462af1352c335332d397ab92cf462d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:34 +0000
Subject: [PATCH 39/45] fix: a device with a malformed value in a subcircuit
 that isn't used was accepted

---
 src/spice.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 033f194..bd0b482 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -782,6 +782,8 @@ impl Reader {
             if let Some(expr) = extract_expression(param_text) {
                 let param = Parameter::override_from_expression(&name, &expr);
                 inst.params.push(param);
+            } else if p < min_num_params {
+                return None; // might be in a subcircuit that isn't used
             } else {
                 println!("*WARN* or maybe an err, i dunno");
             }
-- 
2.43.0


From 69117dd3fd654ed4a995ee4f3c80acebce8d563f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 40/45] fix: transients that could never end are refused or
 stopped

An infinite TSTOP, or step sizes that underflow or don't move the time any
more, kept the timestep loop going forever.
---
 src/engine.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index dbd853b..65ebcfd 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -183,9 +183,9 @@ impl Engine {
     {
 
         // there'd be no end to it if time can't advance or shrink
-        let can_step = [cfg.TSTEP, cfg.TSTOP, cfg.FS, cfg.RMAX, cfg.FT, cfg.RMIN]
+        let can_step = [cfg.TSTEP * cfg.FS, cfg.TSTEP * cfg.RMAX, cfg.TSTEP, cfg.TSTOP, cfg.FT, cfg.RMIN]
             .iter().all(|x| *x > 0.0);
-        if !can_step || cfg.FT >= 1.0 {
+        if !can_step || cfg.FT >= 1.0 || cfg.TSTOP.is_infinite() {
             println!("*ERROR* can't step through time with these transient settings");
             return analysis::Statistics {
                 kind: analysis::Kind::Transient,
@@ -319,7 +319,7 @@ impl Engine {
                             if c_itl >= cfg.ITL4 {
                                 t_delta *= cfg.FT;
                                 // check if we're ok to continue iterating
-                                if t_delta < t_delta_min {
+                                if t_delta < t_delta_min || t_now + t_delta == t_now {
                                     println!("*ERROR* Internal timestep too small");
                                     error = true;
                                     break;
@@ -370,7 +370,7 @@ impl Engine {
             }
 
             c_step += 1;
-            if cfg.TSTOP - t_now < 1e-6 * cfg.TSTEP { // got there
+            if cfg.TSTOP - t_now <= 1e-6 * cfg.TSTEP { // got there
                 t_now = cfg.TSTOP;
                 is_final_timestep = true;
 
-- 
2.43.0


From 125103699a07a50bcaa1d2ee69db1b29f7208c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:46 +0000
Subject: [PATCH 41/45] fix: a subcircuit that instantiates itself overflowed
 the stack in decks with thousands of definitions

---
 src/expander.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/expander.rs b/src/expander.rs
index 17b3bee..4df0778 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -74,7 +74,7 @@ pub fn expand(ckts: &[Circuit]) -> Circuit {
     let hier: Vec<String> = vec![];
 
     trace!("------------------------------------------------");
-    expand_instances(ckts, &mut ckt, 0, &hier);
+    expand_instances(ckts, &mut ckt, 0, &hier, &mut vec![0]);
     trace!("------------------------------------------------");
 
     ckt.build_node_id_lut();
@@ -97,6 +97,7 @@ fn expand_instances(
     ckt: &mut Circuit,
     ckt_id: usize,
     inhier: &[String], // the hierarchy we are working in
+    within: &mut Vec<usize>, // the definitions we are working in
 ) {
 
     let mut hier = inhier.to_owned();
@@ -270,7 +271,7 @@ fn expand_instances(
         if inst.subckt == "/device" {
             expand_primitive(ckts, ckt, ckt_id, inst, inhier);
         } else {
-            expand_subckt(ckts, ckt, ckt_id, inst, &hier);
+            expand_subckt(ckts, ckt, ckt_id, inst, &hier, within);
         }
 
     } // insts
@@ -283,20 +284,14 @@ fn expand_subckt(
     ckt: &mut Circuit,
     host_ckt_id: usize,
     inst: &Instance,
-    inhier: &[String]
+    inhier: &[String],
+    within: &mut Vec<usize>
 ) {
 
     let mut hier = inhier.to_owned();
 
     trace!("expand_subckt() -> '{}' . '{}'", hier.join("."), inst.name);
 
-    // can't be deeper than the number of definitions unless something
-    // instantiates itself
-    if hier.len() >= ckts.len() {
-        println!("*FATAL* Subcircuit {} instantiates itself", inst.subckt);
-        panic!();
-    }
-
     // find the subckt definition index
     let subckt_id = if let Some(ckt_id) = find_subckt_index(ckts, &inst.subckt) {
         trace!("Found subcircuit definition: index={}; subckt={}; ident={}",
@@ -308,6 +303,12 @@ fn expand_subckt(
         panic!();
     };
 
+    // anything inside itself would never end
+    if within.contains(&subckt_id) {
+        println!("*FATAL* Subcircuit {} instantiates itself", inst.subckt);
+        panic!();
+    }
+
     // check that the instantiation and the subckt agree on the
     // number of ports
     //dbg!(ckts[subckt_id].num_ports, inst.conns.len());
@@ -345,7 +346,9 @@ fn expand_subckt(
 
     hier.push(inst.name.to_string()); // inst-name
     expand_sources(ckts, ckt, subckt_id, &hier);
-    expand_instances(ckts, ckt, subckt_id, &hier);
+    within.push(subckt_id);
+    expand_instances(ckts, ckt, subckt_id, &hier, within);
+    within.pop();
     hier.pop(); // inst-name
 }
 
-- 
2.43.0


From 25cf1a353c1620ce5840dd1b4dd638080c1b3021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 42/45] fix: read an upper-case exponent (1E3) instead of
 dropping it

---
 src/bracket_expression.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bracket_expression.rs b/src/bracket_expression.rs
index 547dfed..43797db 100644
--- a/src/bracket_expression.rs
+++ b/src/bracket_expression.rs
@@ -173,7 +173,7 @@ pub fn extract_value(text: &str) -> Option<f64> {
                 match c {
                     '0' ..= '9' => { float_str.push(c); nxt = ValueState::Int },
                     '.' => { float_str.push(c); nxt = ValueState::Frac },
-                    'e' => { float_str.push(c); nxt = ValueState::ExpStart },
+                    'e' | 'E' => { float_str.push(c); nxt = ValueState::ExpStart },
                     'k' => {
                         eng_mult = 1e3;
                         value = eval(&float_str, eng_mult);
@@ -206,7 +206,7 @@ pub fn extract_value(text: &str) -> Option<f64> {
             ValueState::Frac => {
                 match c {
                     '0' ..= '9' => { float_str.push(c); nxt = ValueState::Frac },
-                    'e' => { float_str.push(c); nxt = ValueState::ExpStart },
+                    'e' | 'E' => { float_str.push(c); nxt = ValueState::ExpStart },
                     'k' => {
                         eng_mult = 1e3;
                         value = eval(&float_str, eng_mult);
-- 
2.43.0


From fc68a9be11002b05e23a21f9040e347eaea40be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 43/45] fix: refuse text after the closing brace of an
 expression instead of ignoring it

---
 src/bracket_expression.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bracket_expression.rs b/src/bracket_expression.rs
index 43797db..4bcea50 100644
--- a/src/bracket_expression.rs
+++ b/src/bracket_expression.rs
@@ -95,6 +95,11 @@ pub fn extract_expression(text: &str) -> Option<Expression> {
         return None
     }
 
+    if i + 1 != expr_str.len() {
+        println!("*ERROR* unexpected text after '}}'");
+        return None
+    }
+
     trace!("Identifier: '{}'", ident);
 
     Some(Expression::Identifier(ident))
-- 
2.43.0


From e2077f10baa9eb580ebd3d7acfc84b2865128ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:57 +0000
Subject: [PATCH 44/45] fix: a comment in another encoding than UTF-8 does not
 make a deck unreadable

---
 src/spice.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index bd0b482..741c063 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -30,7 +30,7 @@
 
 use std::path::{Component, Path, PathBuf};
 use std::fs::File;
-use std::io::{BufReader, BufRead};
+use std::io::{BufReader, BufRead, Error, ErrorKind};
 
 use crate::circuit::{Circuit, CurrentSourceSine, VoltageSourceSine};
 use crate::circuit::{VoltageSourcePwl};
@@ -75,6 +75,26 @@ pub struct Reader {
 }
 
 
+/// The text of a line from a SPICE deck
+///
+/// Comments may be in any encoding (think `µ` or `°` in old model files), so
+/// where a line isn't UTF-8, only the part in front of the comment has to be.
+fn line_text(mut line: Vec<u8>) -> Result<String, Error> {
+    if line.ends_with(b"\r") {
+        line.pop();
+    }
+    if std::str::from_utf8(&line).is_err() {
+        if line.trim_ascii_start().starts_with(b"*") {
+            line.clear();
+        }
+        if let Some(comment) = line.iter().position(|byte| *byte == b';') {
+            line.truncate(comment);
+        }
+    }
+    String::from_utf8(line).map_err(|e| Error::new(ErrorKind::InvalidData, e))
+}
+
+
 impl Reader {
 
     #[allow(clippy::new_without_default)]
@@ -98,7 +118,7 @@ impl Reader {
 
         let input = File::open(filepath).unwrap();
         let buf = BufReader::new(input);
-        let mut lines_iter = buf.lines();
+        let mut lines_iter = buf.split(b'\n').map(|line| line.and_then(line_text));
         let mut in_control_block = false;
         let mut in_subckt = false;
         let mut in_libdef = false;
-- 
2.43.0


From a0eed647bb52044274089a9aac027cec5568bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:35 +0000
Subject: [PATCH 45/45] fix: reading many subcircuit instances took quadratic
 time

Each instance name was compared with those of all instances before it.
---
 src/spice.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/spice.rs b/src/spice.rs
index 741c063..f181c43 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -28,6 +28,7 @@
 //!   * Subcircuit definitions with `.subckt` and `.ends`
 //!   * Instantiations with `X...`
 
+use std::collections::HashSet;
 use std::path::{Component, Path, PathBuf};
 use std::fs::File;
 use std::io::{BufReader, BufRead, Error, ErrorKind};
@@ -70,6 +71,8 @@ pub struct Reader {
     cfg: Configuration,
     /// Track which circuit in the `ckts` list that we're adding things too
     c: usize,
+    /// Names of the subcircuit instances found so far, by the circuit they're in
+    inst_names: HashSet<(usize, String)>,
     /// Flag if problems were encountered during parsing
     there_are_errors: bool
 }
@@ -105,6 +108,7 @@ impl Reader {
             ckts: vec![topckt],
             cfg: Configuration::new(),
             c: 0, // toplevel
+            inst_names: HashSet::new(),
             there_are_errors: false,
         }
     }
@@ -305,7 +309,7 @@ impl Reader {
                         self.there_are_errors = true;
                     }
                     // nodes and parameters are found by instance name
-                    if self.ckts[self.c].instances.iter().any(|i| i.name == inst.name) {
+                    if !self.inst_names.insert((self.c, inst.name.clone())) {
                         println!("*ERROR* there's already an instance '{}'", inst.name);
                         self.there_are_errors = true;
                     }
-- 
2.43.0

