From 76a671edbeb8e594e7869e62efbe3724144eee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:02 +0000
Subject: [PATCH 01/34] fix: forget the previous circuit's elements when an
 engine is reused

---
 src/engine.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index e11a08d..41c725b 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -461,6 +461,12 @@ impl Engine {
         // assume here that nodes have been indexed 0 -> N-1
         // where n is the number of nodes (including ground) in the circuit
 
+        // forget the elements of whatever was simulated before
+        self.nonlinear_elements.clear();
+        self.independent_sources.clear();
+        self.v_dependent_sources.clear();
+        self.storage_elements.clear();
+
         // Number of nodes, including ground (aka 0, aka gnd)
         self.c_nodes = ckt.count_nodes();
         println!("*INFO* There are {} nodes in the design, including ground", self.c_nodes);
-- 
2.43.0


From 579e3ecabc17338b233a4a6fc57aa31e98be1718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:15 +0000
Subject: [PATCH 02/34] fix: a later unconverged unknown must not hide a
 non-finite one

---
 src/engine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 41c725b..e7f8ccc 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -979,7 +979,9 @@ impl Engine {
 
             let this = (x - yv[i]).abs();
             trace!("  [CONVERGE] {} < {} = {}", this, limit, (this < limit));
-            if this > limit {
+            // an error found for any unknown sticks, and a `y` that isn't a
+            // number can't be close to anything
+            if res.is_ok() && (this.is_nan() || this > limit) {
                 res = Ok(false);
             }
         }
-- 
2.43.0


From a61de017fa856cffe9cca0b0db5e9309df2e0ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:17 +0000
Subject: [PATCH 03/34] fix: don't accept a solution while a diode's voltage is
 being limited

---
 src/element/diode.rs | 11 +++++++++++
 src/engine.rs        | 13 +++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/element/diode.rs b/src/element/diode.rs
index 9b701d0..bc25057 100644
--- a/src/element/diode.rs
+++ b/src/element/diode.rs
@@ -23,6 +23,7 @@ pub struct Diode {
     v_d_prev: Cell<f64>,
     i_d_prev: Cell<f64>,
     g_eq_prev: Cell<f64>,
+    limited: Cell<bool>,
 }
 
 impl Diode {
@@ -39,6 +40,7 @@ impl Diode {
             v_d_prev: Cell::new(0.0),
             i_d_prev: Cell::new(0.0),
             g_eq_prev: Cell::new(GMIN),
+            limited: Cell::new(false),
         };
         d.update_v_thermal();
         d.update_v_crit();
@@ -105,12 +107,21 @@ impl Diode {
             println!("*ERROR* - banjaxed");
         }
 
+        self.limited.set(v_d_i != v_hat);
         self.v_d_prev.set(v_d_i);
         self.i_d_prev.set(i_d);
         self.g_eq_prev.set(g_eq);
         (g_eq, i_eq)
     }
 
+    /// Did the last linearization happen at some other voltage than asked for?
+    ///
+    /// While this is so the companion model isn't the diode's at the present
+    /// solution, and the solution isn't one of the circuit.
+    pub fn is_limited(&self) -> bool {
+        self.limited.get()
+    }
+
     /// thermal voltage. Should be ~26mV at room temperature
     fn update_v_thermal(&mut self) {
         self.v_thermal = BOLTZMANN * (363.0 + self.tdegc) / CHARGE;
diff --git a/src/engine.rs b/src/engine.rs
index e7f8ccc..bf948eb 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -279,7 +279,7 @@ impl Engine {
                 // Convergence check
                 match self.convergence_check(&unknowns, &unknowns_solve, cfg) {
                     Ok(cnvg) => {
-                        if cnvg {
+                        if cnvg && !self.nonlinear_is_limited() {
                             trace!(" [TIMESTEP] Timestep converged after {} iterations", c_itl);
                             converged = true;
                             break;
@@ -403,7 +403,7 @@ impl Engine {
             if c_iteration > 0 {
                 match self.convergence_check(&unknowns, &unknowns_prev, cfg) {
                     Ok(cnvd) => {
-                        if cnvd {
+                        if cnvd && !self.nonlinear_is_limited() {
                             converged = true;
                             break;
                         }
@@ -843,6 +843,15 @@ impl Engine {
         //self.pp_matrix(&m);
     }
 
+    // was any nonlinear device held back from the voltage it was given when it
+    // was last stamped?
+    fn nonlinear_is_limited(&self) -> bool {
+        self.nonlinear_elements.iter().any(|el| match *el {
+            circuit::Element::D(ref d) => d.is_limited(),
+            _ => false,
+        })
+    }
+
     fn v_dependent_source_stamp(&self, m: &mut [Vec<f64>]) {
 
         if !&self.v_dependent_sources.is_empty() {
-- 
2.43.0


From 3db1482ddded7f4a580f166755343db7c3f2f20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:23 +0000
Subject: [PATCH 04/34] fix: circuits aren't limited to 255 nodes

---
 src/circuit.rs     | 129 +++------------------------------------------
 src/element/mod.rs |  21 ++++++++
 2 files changed, 28 insertions(+), 122 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 73fc865..6d54140 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -141,133 +141,18 @@ impl Circuit {
     }
 
     /// Count the nodes in the circuit
+    ///
+    /// Node ids index the matrix directly, so every id that's been handed out
+    /// or that an element uses counts, whether or not anything connects to it.
     pub fn count_nodes(&self) -> usize {
 
         // number of nodes in the circuit - there is always at least ground
-        let mut c_nodes: usize = 1;
-
-        let mut seen = [false; 256]; // max nodes magic number
-        seen[0] = true; // always a ground
+        let mut c_nodes: usize = self.nid_next.max(1);
 
         for el in &self.elements {
-                match *el {
-                    Element::I(CurrentSource{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::R(Resistor{ ref a, ref b, .. }) => {
-                        if !seen[*a] {
-                            seen[*a] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*b] {
-                            seen[*b] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::V(VoltageSource{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::D(Diode{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Isin(CurrentSourceSine{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vsin(VoltageSourceSine{ ref p, ref n, .. }) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::C(Capacitor{ ref a, ref b, .. }) => {
-                        if !seen[*a] {
-                            seen[*a] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*b] {
-                            seen[*b] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vpwl(VoltageSourcePwl{ ref p, ref n, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vcvs(Vcvs{ ref p, ref n, ref cp, ref cn, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cp] {
-                            seen[*cp] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cn] {
-                            seen[*cn] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                    Element::Vccs(Vccs{ ref p, ref n, ref cp, ref cn, ..}) => {
-                        if !seen[*p] {
-                            seen[*p] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*n] {
-                            seen[*n] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cp] {
-                            seen[*cp] = true;
-                            c_nodes += 1;
-                        }
-                        if !seen[*cn] {
-                            seen[*cn] = true;
-                            c_nodes += 1;
-                        }
-                    }
-                }
+            for nid in el.node_ids() {
+                c_nodes = c_nodes.max(nid + 1);
+            }
         }
         c_nodes
     }
diff --git a/src/element/mod.rs b/src/element/mod.rs
index 71e3484..f269e1e 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -2,6 +2,8 @@
 
 use std::fmt;
 
+use crate::circuit::NodeId;
+
 pub mod resistor;
 pub mod capacitor;
 pub mod diode;
@@ -31,6 +33,25 @@ pub enum Element {
     Vccs(vdepsrc::Vccs),
 }
 
+impl Element {
+
+    /// The nodes this element connects to, control nodes included
+    pub fn node_ids(&self) -> Vec<NodeId> {
+        match *self {
+            Element::R(ref el) => vec![el.a, el.b],
+            Element::I(ref el) => vec![el.p, el.n],
+            Element::V(ref el) => vec![el.p, el.n],
+            Element::D(ref el) => vec![el.p, el.n],
+            Element::Isin(ref el) => vec![el.p, el.n],
+            Element::Vsin(ref el) => vec![el.p, el.n],
+            Element::Vpwl(ref el) => vec![el.p, el.n],
+            Element::C(ref el) => vec![el.a, el.b],
+            Element::Vcvs(ref el) => vec![el.p, el.n, el.cp, el.cn],
+            Element::Vccs(ref el) => vec![el.p, el.n, el.cp, el.cn],
+        }
+    }
+
+}
 
 impl fmt::Display for Element {
     fn fmt (&self, f:&mut fmt::Formatter) -> fmt::Result {
-- 
2.43.0


From e910588d076d702c69437e3f953440d8caaaa9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:29 +0000
Subject: [PATCH 05/34] fix: a node that nothing connects to is at 0V

---
 src/engine.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index bf948eb..f847d70 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -486,6 +486,20 @@ impl Engine {
         // [ V I ]
         let mut m = vec![ vec![0.0; c_mna+1]; c_mna]; // +1 for currents
 
+        // Nothing says what the voltage of an unconnected node is, so it's 0V
+        let mut connected = vec![false; self.c_nodes];
+        connected[0] = true; // ground is never solved for
+        for el in &ckt.elements {
+            for nid in el.node_ids() {
+                connected[nid] = true;
+            }
+        }
+        for nid in 0..self.c_nodes {
+            if !connected[nid] {
+                m[nid][nid] = 1.0;
+            }
+        }
+
         // Fill up the voltage node and current vector
         // This needs to know about each of the kinds of circuit elements, so
         // the node equations can be built up appropriately.
-- 
2.43.0


From c704de803907f7a59000a41fed2dfb25796491bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:31 +0000
Subject: [PATCH 06/34] fix: a transient analysis that gave up hasn't reached
 the next timestep

---
 src/engine.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index f847d70..5019e5a 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -311,6 +311,13 @@ impl Engine {
                 unknowns_solve = unknowns.to_vec();
             }
 
+            // break out of this loop if an error was detected: there's no
+            // solution for the time we were trying to get to
+            if error {
+                println!("*ERROR* bad stuff happened, breaking out of timestep loop");
+                break;
+            }
+
             if converged {
                 // update things for next loop
                 unknowns_prev = unknowns.to_vec();
@@ -336,12 +343,6 @@ impl Engine {
                 is_final_timestep = true;
 
             } // solver
-
-            // break out of this loop if an error was detected
-            if error {
-                println!("*ERROR* bad stuff happened, breaking out of timestep loop");
-                break;
-            }
         } // time
 
         println!("*INFO* Finished at time {}", t_now);
-- 
2.43.0


From 5571947c93141508dae41aa33702375d9c5432fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:18 +0000
Subject: [PATCH 07/34] fix: transient solutions are recorded at the time they
 were solved for

---
 src/engine.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 5019e5a..5341685 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -208,7 +208,6 @@ impl Engine {
         wavedb.dump_vector(t_now, &unknowns); // DC solution
 
         // timestep loop
-        let mut is_final_timestep = false;
         #[allow(unused_variables)]
         let mut c_step = 0; // goes away with empty trace!
         let mut c_iteration: usize = 0;
@@ -224,10 +223,15 @@ impl Engine {
                 wavedb.dump_vector(t_now, &unknowns);
             }
 
-            if is_final_timestep {
+            if t_now >= cfg.TSTOP {
                 break;
             }
 
+            // the last step is to the stop time, exactly
+            let t_left = cfg.TSTOP - t_now;
+            if t_delta * (1.0 + 1e-6) >= t_left {
+                t_delta = t_left;
+            }
 
             // solver loop
             // breaks when solved, or time-step too small
@@ -322,6 +326,13 @@ impl Engine {
                 // update things for next loop
                 unknowns_prev = unknowns.to_vec();
 
+                // this is the time that the solution is for
+                t_now = if t_delta == t_left {
+                    cfg.TSTOP
+                } else {
+                    t_now + t_delta
+                };
+
                 // solver found it too easy, maybe there's not a lot going on
                 // reduce the t_delta
                 if !geared & (c_itl < cfg.ITL3) {
@@ -337,12 +348,6 @@ impl Engine {
             }
 
             c_step += 1;
-            t_now += t_delta;
-            if t_now > cfg.TSTOP {
-                t_now = cfg.TSTOP;
-                is_final_timestep = true;
-
-            } // solver
         } // time
 
         println!("*INFO* Finished at time {}", t_now);
-- 
2.43.0


From d3a7d06b382682f1627b9e3ea439e340d6119de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:24 +0000
Subject: [PATCH 08/34] fix: capacitors start a transient analysis from the DC
 operating point

---
 src/engine.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 5341685..a298369 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -188,7 +188,12 @@ impl Engine {
 
         // prep values
         let c_mna = self.c_nodes + self.c_vsrcs;
-        let mut unknowns_prev : Vec<f64> = vec![0.0; c_mna];
+        // capacitors start from the operating point, if there is one
+        let mut unknowns_prev : Vec<f64> = if unknowns.iter().all(|x| x.is_finite()) {
+            unknowns.clone()
+        } else {
+            vec![0.0; c_mna]
+        };
 
         // transient loop
         let mut t_delta = cfg.TSTEP * cfg.FS;
-- 
2.43.0


From 483c70a6f87d842266854b8884b791ab04c4e998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:37 +0000
Subject: [PATCH 09/34] fix: the first timestep is limited like the others, and
 has to be positive

---
 src/engine.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index a298369..bf8e3de 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -196,7 +196,7 @@ impl Engine {
         };
 
         // transient loop
-        let mut t_delta = cfg.TSTEP * cfg.FS;
+        let mut t_delta = cfg.TSTEP * cfg.FS.min(cfg.RMAX);
         let t_delta_min = cfg.TSTEP * cfg.RMIN; // not mimimum resistance...
         let mut t_now = 0.0;
 
@@ -232,6 +232,11 @@ impl Engine {
                 break;
             }
 
+            if t_delta <= 0.0 {
+                println!("*ERROR* can't get anywhere with a timestep of {}", t_delta);
+                break;
+            }
+
             // the last step is to the stop time, exactly
             let t_left = cfg.TSTOP - t_now;
             if t_delta * (1.0 + 1e-6) >= t_left {
-- 
2.43.0


From b53a2383789d4ffaa8229add8527618b16653d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:43 +0000
Subject: [PATCH 10/34] fix: the smallest timestep is smaller than the largest
 one by default

---
 src/analysis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/analysis.rs b/src/analysis.rs
index 10a3f37..77f3cea 100644
--- a/src/analysis.rs
+++ b/src/analysis.rs
@@ -131,7 +131,7 @@ impl Configuration {
 
             FS: 0.25,
             FT: 0.25,
-            RMIN: 1e03,
+            RMIN: 1e-9,
             RMAX: 5.0,
             ITL3: 6,
             ITL4: 50,
-- 
2.43.0


From 2f0cde4af6afca767a77c4dc8c6c990fe17d6e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:07 +0000
Subject: [PATCH 11/34] fix: PWL sources have their breakpoint's value at a
 breakpoint

---
 src/element/vpwl.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/element/vpwl.rs b/src/element/vpwl.rs
index c38fbcd..a9ea46d 100644
--- a/src/element/vpwl.rs
+++ b/src/element/vpwl.rs
@@ -27,17 +27,20 @@ impl VoltageSourcePwl {
         let t_period = self.pat[idx_last].0;
         //println!("Pattern: {:?} :: Period {}", self.pat, t_period);
 
+        // Nothing happens before the delay
+        let t_pat = t - self.t_delay;
+        if t_pat < 0.0 {
+            return 0.0;
+        }
+
         // If we're not repeating, and we're off the end of the pattern
         // return the final value
-        if (self.repeat < 0.0) && (t > (self.t_delay + t_period)) {
+        if (self.repeat < 0.0 || t_period <= 0.0) && (t_pat >= t_period) {
             return self.pat[idx_last].1;
         }
 
         // where in the cycle are we?
-        let t_cycle = ( t - self.t_delay ) % t_period;
-        if t_cycle < 0.0 {
-            return 0.0;
-        }
+        let t_cycle = t_pat % t_period;
 
         // find out which points we're between...
         let mut t1 = 0.0;
@@ -49,6 +52,8 @@ impl VoltageSourcePwl {
             if t_cycle > tv.0 {
                 t1 = tv.0;
                 v1 = tv.1;
+            } else if t_cycle == tv.0 {
+                return tv.1;
             } else {
                 t2 = tv.0;
                 v2 = tv.1;
-- 
2.43.0


From 427652062b368243186f3045fb77e6d1b76e2d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:15 +0000
Subject: [PATCH 12/34] fix: sources in subcircuits are part of the expanded
 circuit

---
 src/expander.rs | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/expander.rs b/src/expander.rs
index b47dd8c..28b60e4 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -337,11 +337,57 @@ fn expand_subckt(
     }
 
     hier.push(inst.name.to_string()); // inst-name
+    expand_sources(ckts, ckt, subckt_id, &hier);
     expand_instances(ckts, ckt, subckt_id, &hier);
     hier.pop(); // inst-name
 }
 
 
+/// Expand the independent sources of a subcircuit
+///
+/// These aren't instances, they're on the element list of the subcircuit already.
+fn expand_sources(
+    ckts: &[Circuit],
+    ckt: &mut Circuit,
+    host_ckt_id: usize,
+    inhier: &[String] // the scope the sources are in
+) {
+    for el in &ckts[host_ckt_id].elements {
+        match *el {
+            Element::I(ref src) => {
+                let p = local_connect(ckts, ckt, host_ckt_id, inhier, src.p);
+                let n = local_connect(ckts, ckt, host_ckt_id, inhier, src.n);
+                ckt.add_i(p, n, src.value);
+            },
+            Element::V(ref src) => {
+                let p = local_connect(ckts, ckt, host_ckt_id, inhier, src.p);
+                let n = local_connect(ckts, ckt, host_ckt_id, inhier, src.n);
+                ckt.add_v(p, n, src.value);
+            },
+            Element::Isin(ref src) => {
+                let mut src = src.clone();
+                src.p = local_connect(ckts, ckt, host_ckt_id, inhier, src.p);
+                src.n = local_connect(ckts, ckt, host_ckt_id, inhier, src.n);
+                ckt.add_i_sin(src);
+            },
+            Element::Vsin(ref src) => {
+                let mut src = src.clone();
+                src.p = local_connect(ckts, ckt, host_ckt_id, inhier, src.p);
+                src.n = local_connect(ckts, ckt, host_ckt_id, inhier, src.n);
+                ckt.add_v_sin(src);
+            },
+            Element::Vpwl(ref src) => {
+                let mut src = src.clone();
+                src.p = local_connect(ckts, ckt, host_ckt_id, inhier, src.p);
+                src.n = local_connect(ckts, ckt, host_ckt_id, inhier, src.n);
+                ckt.add_v_pwl(src);
+            },
+            _ => { println!("*ERROR* - unrecognised source element"); }
+        }
+    }
+}
+
+
 /// Expand a primitive instantiation
 /// (not recursive)
 //
-- 
2.43.0


From bc0beee553ced4890ac1adbce081ecc3a111d592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:20 +0000
Subject: [PATCH 13/34] fix: devices of the same name don't get each other's
 values

---
 src/circuit.rs | 3 ++-
 src/spice.rs   | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 6d54140..5e49889 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -304,7 +304,8 @@ impl Circuit {
     ///
     /// `N` is small..
     pub fn get_param_value(&self, name: &str) -> Option<f64> {
-        for p in &self.params {
+        // device names needn't be unique, and the latest one is being expanded
+        for p in self.params.iter().rev() {
             if p.name == name {
                 return p.value
             }
diff --git a/src/spice.rs b/src/spice.rs
index 99884ee..bca2d1e 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -595,6 +595,14 @@ impl Reader {
         // fuckit, we'll just leave the x in the inst name...
         let ident = bits[0];
 
+        // everything in a subcircuit is named after its instance
+        for other in &self.ckts[self.c].instances {
+            if other.name == ident {
+                println!("*ERROR* instance name '{}' is already in use", ident);
+                self.there_are_errors = true;
+            }
+        }
+
         let mut inst = Instance::new(ident, "(not-found)");
 
         // Paramters, if there are any
-- 
2.43.0


From 177bc824adeec11d4ccf42209716525607f695d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:27 +0000
Subject: [PATCH 14/34] fix: nodes go by the same name every time

---
 src/circuit.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index 5e49889..eca2c7c 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -295,8 +295,12 @@ impl Circuit {
     /// Build NodeId lookup
     /// Do this after reading in the SPICE circuit
     pub fn build_node_id_lut(&mut self) {
-        for (name, id) in &self.nodes {
-            self.node_id_lut.insert(*id, String::from(name));
+        // A node goes by its outermost name, not by whichever of its aliases the
+        // hashmap gives last
+        let mut names: Vec<(&String, &NodeId)> = self.nodes.iter().collect();
+        names.sort_by_key(|(name, _)| (name.matches('.').count(), name.to_string()));
+        for (name, id) in names.iter().rev() {
+            self.node_id_lut.insert(**id, name.to_string());
         }
     }
 
-- 
2.43.0


From 9f6862daea7f85ad11edb4a02401129783574b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:41 +0000
Subject: [PATCH 15/34] fix: comments needn't have space around their semicolon

---
 src/spice.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index bca2d1e..520f556 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -128,27 +128,21 @@ impl Reader {
 
         for line_wr in lines_iter {
             let line = line_wr.unwrap();
-            let all_bits :Vec<&str> = line.split_whitespace().collect();
+
+            // strip comments off the end
+            let code = line.split(';').next().unwrap_or("");
+            let bits :Vec<&str> = code.split_whitespace().collect();
 
             // jump blank lines
-            if all_bits.is_empty() {
+            if bits.is_empty() {
                 continue;
             }
 
             // skip comment lines
-            if all_bits[0].starts_with('*') {
+            if bits[0].starts_with('*') {
                 continue;
             }
 
-            // strip comments off the end
-            let mut bits: Vec<&str> = vec![];
-            for b in all_bits {
-                if b == ";" {
-                    break;
-                }
-                bits.push(b);
-            }
-
             trace!("Bits: {:?}", bits);
 
             // if we're reading a lib and we haven't matched the `.lib` start
-- 
2.43.0


From cfcfeae129b609ade5b563a1b343bb4ac6c3fe92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:58 +0000
Subject: [PATCH 16/34] fix: no simulation without the elements and options
 that can't be read

---
 src/spice.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 520f556..1a8a628 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -217,6 +217,10 @@ impl Reader {
                         trace!("*INFO* Isin");
                         let src = self.extract_i_sine(&bits);
                         self.ckts[self.c].add_i_sin(src);
+                    } else {
+                        println!("*ERROR* can't extract current source");
+                        println!("bits: {:?}", bits);
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('V') {
                     let _ = extract_identifier(bits[0]);
@@ -237,36 +241,42 @@ impl Reader {
                     } else {
                         println!("Some weird V thing you've got going here");
                         println!("bits: {:?}", bits);
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('R') {
                     if let Some(r) = self.extract_primitive(&bits, 2, 1) {
                         self.ckts[self.c].add_instance(r);
                     } else {
                         println!("*ERROR* can't extract resistance");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('C') {
                     if let Some(c) = self.extract_primitive(&bits, 2, 1) {
                         self.ckts[self.c].add_instance(c);
                     } else {
                         println!("*ERROR* can't extract capacitor");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('D') {
                     if let Some(d) = self.extract_primitive(&bits, 2, 0) {
                         self.ckts[self.c].add_instance(d);
                     } else {
                         println!("*ERROR* can't extract diode");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('E') {
                     if let Some(e) = self.extract_primitive(&bits, 4, 1) {
                         self.ckts[self.c].add_instance(e);
                     } else {
                         println!("*ERROR* can't extract VCVS");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('G') {
                     if let Some(g) = self.extract_primitive(&bits, 4, 1) {
                         self.ckts[self.c].add_instance(g);
                     } else {
                         println!("*ERROR* can't extract VCCS");
+                        self.there_are_errors = true;
                     }
                 } else if bits[0].starts_with('X') {
                     trace!("Found instantiation");
@@ -401,6 +411,7 @@ impl Reader {
         // FIXME - might be "abstol=2e6" too - lower case, no spaces surrounding '='
         if bits[2] != "=" {
             println!("*ERROR* Expected '=' in option setting");
+            self.there_are_errors = true;
             return;
         }
 
@@ -441,7 +452,8 @@ impl Reader {
 
         let all_bits :Vec<&str> = line.split_whitespace().collect();
         if all_bits.len() != 3 {
-            println!("*ERROR* not enough parameters to SIN()");
+            println!("*ERROR* wrong number of parameters to SIN()");
+            self.there_are_errors = true;
         }
         let offset = extract_value(all_bits[0]).unwrap();
         let amplitude = extract_value(all_bits[1]).unwrap();
@@ -479,7 +491,8 @@ impl Reader {
 
         let all_bits :Vec<&str> = line.split_whitespace().collect();
         if all_bits.len() != 3 {
-            println!("*ERROR* not enough parameters to SIN()");
+            println!("*ERROR* wrong number of parameters to SIN()");
+            self.there_are_errors = true;
         }
         let offset = extract_value(all_bits[0]).unwrap();
         let amplitude = extract_value(all_bits[1]).unwrap();
-- 
2.43.0


From f99f2434367ac36bbbee3db78bf2ffcaee053c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:03 +0000
Subject: [PATCH 17/34] fix: a block that isn't closed is an error

---
 src/spice.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 1a8a628..e2ded67 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -370,6 +370,16 @@ impl Reader {
             //println!("{}", line);
         }
 
+        // blocks end in the file that they start in
+        if in_control_block {
+            println!("*ERROR* .control without a .endc");
+            self.there_are_errors = true;
+        }
+        if in_subckt {
+            println!("*ERROR* .subckt without a .ends");
+            self.there_are_errors = true;
+        }
+
         // if we were reading a library definition and we haven't found a
         // start (or FIXME a finish), then complain.
         if let ReadMode::Library(ref libn) = readmode {
-- 
2.43.0


From 7c82cc1b98510a70d787fc9949bcb94ba8a19711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:40 +0000
Subject: [PATCH 18/34] fix: SIN() and PWL() needn't have a space inside or
 outside the brackets

---
 src/spice.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index e2ded67..4661f18 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -209,14 +209,14 @@ impl Reader {
                     let _ = extract_identifier(bits[0]);
                     let node1 = self.extract_node(bits[1]);
                     let node2 = self.extract_node(bits[2]);
-                    if bits.len() == 4 {
-                        trace!("*INFO* Idc");
-                        let value = extract_value(bits[3]);
-                        self.ckts[self.c].add_i(node1, node2, value.unwrap());
-                    } else if bits[3].starts_with("SIN") {
+                    if bits[3].starts_with("SIN") {
                         trace!("*INFO* Isin");
                         let src = self.extract_i_sine(&bits);
                         self.ckts[self.c].add_i_sin(src);
+                    } else if bits.len() == 4 {
+                        trace!("*INFO* Idc");
+                        let value = extract_value(bits[3]);
+                        self.ckts[self.c].add_i(node1, node2, value.unwrap());
                     } else {
                         println!("*ERROR* can't extract current source");
                         println!("bits: {:?}", bits);
@@ -226,18 +226,18 @@ impl Reader {
                     let _ = extract_identifier(bits[0]);
                     let node1 = self.extract_node(bits[1]);
                     let node2 = self.extract_node(bits[2]);
-                    if bits.len() == 4 {
-                        trace!("*INFO* Vdc");
-                        let value = extract_value(bits[3]);
-                        self.ckts[self.c].add_v(node1, node2, value.unwrap());
-                    } else if bits[3].starts_with("SIN(") {
+                    if bits[3].starts_with("SIN") {
                         trace!("*INFO* Vsin");
                         let src = self.extract_v_sine(&bits);
                         self.ckts[self.c].add_v_sin(src);
-                    } else if bits[3].starts_with("PWL(") {
+                    } else if bits[3].starts_with("PWL") {
                         trace!("*INFO* Vpwl");
                         let src = self.extract_v_pwl(&bits);
                         self.ckts[self.c].add_v_pwl(src);
+                    } else if bits.len() == 4 {
+                        trace!("*INFO* Vdc");
+                        let value = extract_value(bits[3]);
+                        self.ckts[self.c].add_v(node1, node2, value.unwrap());
                     } else {
                         println!("Some weird V thing you've got going here");
                         println!("bits: {:?}", bits);
-- 
2.43.0


From b24fa6cb812d509a10b71ad49d8d8ce462dbfe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:46 +0000
Subject: [PATCH 19/34] fix: numbers in PWL() that aren't separated by a comma
 aren't ignored

---
 src/spice.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 4661f18..93bd6ac 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -587,6 +587,13 @@ impl Reader {
 
         let mut tvs: Vec<(f64, f64)> = vec![];
 
+        for bit in &all_bits {
+            if bit.split_whitespace().count() != 1 {
+                println!("*ERROR* expected one number between commas in PWL(): '{}'", bit);
+                self.there_are_errors = true;
+            }
+        }
+
         for tv_pair in all_bits.chunks(2) {
             if tv_pair.len() == 1 {
                 println!("*WARNING* Unmatched time value: {}", tv_pair[0]);
-- 
2.43.0


From eba87cd65a4763332f409861686f91e1d66114ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:50 +0000
Subject: [PATCH 20/34] fix: connections of subcircuits are checked like those
 of devices, and one by one

---
 src/expander.rs | 1 +
 src/spice.rs    | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/expander.rs b/src/expander.rs
index 28b60e4..e89d6bb 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -308,6 +308,7 @@ fn expand_subckt(
     if ckts[subckt_id].num_ports != inst.conns.len() {
         print!("*ERROR* Instantiation and subcircuit definitions ");
         println!("have different port sizes");
+        panic!();
     }
 
 
diff --git a/src/spice.rs b/src/spice.rs
index 93bd6ac..a8c7b57 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -314,8 +314,11 @@ impl Reader {
                                 }
                                 continue;
                             }
-                            self.ckts[self.c].add_node(nn);
                             num_ports += 1;
+                            if self.extract_node(nn) != num_ports {
+                                println!("*ERROR* ports have to be different, and not ground");
+                                self.there_are_errors = true;
+                            }
                         }
                         self.ckts[self.c].num_ports = num_ports;
 
@@ -652,7 +655,7 @@ impl Reader {
 
         // Store the connections as NodeIds
         for conn in bits.iter().take(subckt_id).skip(1) {
-            let nid = self.ckts[self.c].add_node(conn);
+            let nid = self.extract_node(conn);
             inst.add_connection(nid);
         }
 
-- 
2.43.0


From 03a05832e79825628055d291fcbea283caa0acb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:55 +0000
Subject: [PATCH 21/34] fix: an unresolved parameter doesn't become the default
 value

---
 src/expander.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/expander.rs b/src/expander.rs
index e89d6bb..4ae9be3 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -163,9 +163,8 @@ fn expand_instances(
                         trace!("Found value for identifier in param");
                         Some(val)
                     } else {
-                        trace!("Can't find identifier '{}' for param '{}'",
+                        panic!("*FATAL* Can't find identifier '{}' for param '{}'",
                                lookup_param_name, param_full_name);
-                        None
                     }
                 },
 
-- 
2.43.0


From 9708884beb61fac41253c30fffa347d19673aba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:00 +0000
Subject: [PATCH 22/34] fix: decks with an absolute path can be simulated

---
 src/spice.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index a8c7b57..e3d458f 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -109,6 +109,8 @@ impl Reader {
             ReadMode::TopLevel => {
                 // circuit name is the SPICE name without any
                 let ckt_name = filepath.to_str().expect("cant stringify SPICE filepath");
+                // it names the directory for the waveforms too, so not absolute
+                let ckt_name = ckt_name.trim_start_matches('/');
                 self.cfg.ckt_name = ckt_name.to_string();
                 self.ckts[0].name = ckt_name.to_string();
                 println!("*INFO* Reading toplevel SPICE file: '{}'", filepath.display());
-- 
2.43.0


From b31f3978ba7763154d4210a1be8695eae016ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 23/34] fix: an unknown that overflows isn't 0

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index bf8e3de..bc2534a 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -655,7 +655,7 @@ impl Engine {
         let i_last = c_mna - 1;
         n[i_last] = v[i_last][c_mna] / v[i_last][i_last];
         //println!("[lst]  {} / {}",  v[i_last][c_mna], v[i_last][i_last] );
-        if !n[i_last].is_finite() {
+        if v[i_last][c_mna] == 0.0 && v[i_last][i_last] == 0.0 {
             println!("*WARNING* have to hack the first solve to 0.0");
             println!(" This can happen if solving a 0V source from a node to ground");
             n[i_last] = 0.0;
-- 
2.43.0


From 03d2145c6b44c5b063802f26bbdecca06200f883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:19 +0000
Subject: [PATCH 24/34] fix: a subcircuit that contains itself stops the run

---
 src/expander.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expander.rs b/src/expander.rs
index 4ae9be3..2c27fff 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -301,6 +301,12 @@ fn expand_subckt(
         panic!();
     };
 
+    // more levels than there are definitions? one of them contains itself
+    if hier.len() + 1 >= ckts.len() {
+        println!("*FATAL* Subcircuit {} contains itself", inst.subckt);
+        panic!();
+    }
+
     // check that the instantiation and the subckt agree on the
     // number of ports
     //dbg!(ckts[subckt_id].num_ports, inst.conns.len());
-- 
2.43.0


From f943edfbdfc1d8e979728022f398118deb5fcf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:25 +0000
Subject: [PATCH 25/34] fix: an instance that doesn't name a subcircuit is an
 error

---
 src/spice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index e3d458f..439641f 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -653,6 +653,10 @@ impl Reader {
                 break;
             }
         }
+        if subckt_id == 0 {
+            println!("*ERROR* instance '{}' doesn't name a subcircuit", ident);
+            self.there_are_errors = true;
+        }
         inst.subckt = bits[subckt_id].to_string();
 
         // Store the connections as NodeIds
-- 
2.43.0


From 992d0049512d6ef59ed9e70c3a916fba3bbab8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:20 +0000
Subject: [PATCH 26/34] fix: an unreadable value of a device is an error
 wherever it stands

---
 src/spice.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 439641f..4127d05 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -782,6 +782,10 @@ impl Reader {
                 inst.params.push(param);
             } else {
                 println!("*WARN* or maybe an err, i dunno");
+                if p < min_num_params {
+                    // it can't be done without
+                    self.there_are_errors = true;
+                }
             }
         }
 
-- 
2.43.0


From 3559d5303d3bf8f95861070f3a146287390272de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 27/34] fix: a library section has to be finished, a repeated
 one too

---
 src/spice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 4127d05..403d8da 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -386,9 +386,9 @@ impl Reader {
         }
 
         // if we were reading a library definition and we haven't found a
-        // start (or FIXME a finish), then complain.
+        // start, or a finish, then complain.
         if let ReadMode::Library(ref libn) = readmode {
-            if !lib_read_ok {
+            if !lib_read_ok || in_libdef {
                 panic!("Did not find lib definition for '{}'", libn);
             }
         }
-- 
2.43.0


From 6ba8b51ae3a72e7a5e49e80efbaf3fd4efa4e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:27 +0000
Subject: [PATCH 28/34] fix: a tran command without a start time starts at 0,
 whatever was before it

---
 src/spice.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/spice.rs b/src/spice.rs
index 403d8da..f68e954 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -186,9 +186,11 @@ impl Reader {
                     }
                     self.cfg.TSTEP = extract_value(bits[1]).unwrap();
                     self.cfg.TSTOP = extract_value(bits[2]).unwrap();
-                    if bits.len() > 3 {
-                        self.cfg.TSTART = extract_value(bits[3]).unwrap();
-                    }
+                    self.cfg.TSTART = if bits.len() > 3 {
+                        extract_value(bits[3]).unwrap()
+                    } else {
+                        0.0
+                    };
                 } else if bits[0] == "option" {
                         self.extract_option(&bits);
                 } else if bits[0] == ".endc" {
-- 
2.43.0


From 4830c762fcc3edabd7fa04d18e68405a6a76498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:04 +0000
Subject: [PATCH 29/34] fix: a voltage source with both ends at one node isn't
 taken for one from it to ground

---
 src/engine.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index bc2534a..c4e73e6 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -761,14 +761,15 @@ impl Engine {
         let p_not_grounded = (vsrc.p != 0);
         let n_not_grounded = (vsrc.n != 0);
 
+        // (these add up to nothing if both ends are at the same node)
         if p_not_grounded {
-            m[idx_vsrc][vsrc.p] = 1.0;
-            m[vsrc.p][idx_vsrc] = 1.0;
+            m[idx_vsrc][vsrc.p] += 1.0;
+            m[vsrc.p][idx_vsrc] += 1.0;
         }
 
         if n_not_grounded {
-            m[idx_vsrc][vsrc.n] = -1.0;
-            m[vsrc.n][idx_vsrc] = -1.0;
+            m[idx_vsrc][vsrc.n] -= 1.0;
+            m[vsrc.n][idx_vsrc] -= 1.0;
         }
     }
 
-- 
2.43.0


From 1b982addfe5162b6f481bdfbcf6fe29a5f8f9cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:26 +0000
Subject: [PATCH 30/34] fix: a PWL parameter that isn't a number is an error,
 not 0

---
 src/spice.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index f68e954..6c0cee5 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -554,6 +554,8 @@ impl Reader {
                     let val = if let Some(Literal(v)) = param.expr {
                         v
                     } else {
+                        println!("*ERROR* PWL parameter '{}' isn't a number", param.name);
+                        self.there_are_errors = true;
                         0.0
                     };
 
-- 
2.43.0


From 8cc6b36a509be855a3f85540aa4ae61959fff448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:32 +0000
Subject: [PATCH 31/34] fix: a subcircuit named like the deck's file isn't
 mistaken for the toplevel

---
 src/expander.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expander.rs b/src/expander.rs
index 2c27fff..f35f9e4 100644
--- a/src/expander.rs
+++ b/src/expander.rs
@@ -534,7 +534,8 @@ fn expand_primitive(
 /// `N` is small, so just search the circuit list one by one until
 /// a name match is found.
 fn find_subckt_index(ckts: &[Circuit], name: &str) -> Option<usize> {
-    for (i, ckt) in ckts.iter().enumerate() {
+    // the toplevel circuit is named after the deck: it isn't a definition
+    for (i, ckt) in ckts.iter().enumerate().skip(1) {
         if ckt.name == name {
             return Some(i);
         }
-- 
2.43.0


From 4cf78e6e1c3db749a02058674b2d1590bba06485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:18 +0000
Subject: [PATCH 32/34] fix: an instance name with a '.' could be taken for an
 instance in a subcircuit

---
 src/spice.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 6c0cee5..7547473 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -636,6 +636,12 @@ impl Reader {
             }
         }
 
+        // same as for node names: it separates the levels of the hierarchy
+        if ident.contains('.') {
+            println!("*ERROR* bad instance name: '{}'", ident);
+            self.there_are_errors = true;
+        }
+
         let mut inst = Instance::new(ident, "(not-found)");
 
         // Paramters, if there are any
-- 
2.43.0


From 83fa5d3f7cb9c046900ebb97a52718bce4ef2f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:51 +0000
Subject: [PATCH 33/34] fix: waveforms that can't be written are reported

---
 src/wavewriter.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/wavewriter.rs b/src/wavewriter.rs
index 28c0339..a3f44d4 100644
--- a/src/wavewriter.rs
+++ b/src/wavewriter.rs
@@ -16,6 +16,13 @@ pub struct WaveWriter<'hash>{
     lut: &'hash HashMap<NodeId, String>,
 }
 
+// waveforms that can't be written are missing from the results
+fn report(res: std::io::Result<()>) {
+    if let Err(why) = res {
+        println!("*ERROR* Can't write waveform file: {}", why);
+    }
+}
+
 impl WaveWriter<'_> {
 
     pub fn new<'hash>(filename: &str, lut: &'hash HashMap<NodeId, String>) 
@@ -76,8 +83,8 @@ impl WaveWriter<'_> {
         units += "\n";
 
         if let Some(ref mut file) = self.file {
-            let _ = file.write_all(names.as_bytes());
-            let _ = file.write_all(units.as_bytes());
+            report(file.write_all(names.as_bytes()));
+            report(file.write_all(units.as_bytes()));
         }
     }
 
@@ -90,7 +97,7 @@ impl WaveWriter<'_> {
                 line += &bit;
             }
             line += "\n";
-            let _ = file.write_all(line.as_bytes());
+            report(file.write_all(line.as_bytes()));
         }
 
     }
-- 
2.43.0


From ae39e3264e7d0250a53aeaf6632bdea35644e095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:53 +0000
Subject: [PATCH 34/34] fix: refuse parameter names with a dot, which would set
 parameters of another instance

---
 src/spice.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/spice.rs b/src/spice.rs
index 7547473..7d188ab 100644
--- a/src/spice.rs
+++ b/src/spice.rs
@@ -725,6 +725,14 @@ impl Reader {
         }
 
         let name = extract_identifier(bits[0]);
+
+        // same as for instance names: it separates the levels of the hierarchy
+        if name.contains('.') {
+            println!("*ERROR* bad parameter name: '{}'", name);
+            self.there_are_errors = true;
+            return None
+        }
+
         if let Some(expr) = extract_expression(bits[1]) {
             Some(Parameter::default_from_expression(&name, &expr))
         } else {
@@ -747,6 +755,14 @@ impl Reader {
         }
 
         let name = extract_identifier(bits[0]);
+
+        // same as for instance names: it separates the levels of the hierarchy
+        if name.contains('.') {
+            println!("*ERROR* bad parameter name: '{}'", name);
+            self.there_are_errors = true;
+            return None
+        }
+
         if let Some(expr) = extract_expression(bits[1]) {
             Some(Parameter::override_from_expression(&name, &expr))
         } else {
-- 
2.43.0

