From e1a8a7b6de9b67ab33a83f5162a1d6cff86043ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 01/19] fix: adding expressions whose constants cancel no
 longer panics

(x + 1) - 1 left a sum with a single argument, which FunctionAdd::new
rejects with an assertion. Return the remaining argument instead.
---
 src/model/node.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/model/node.rs b/src/model/node.rs
index 01d0a99..f3507b9 100644
--- a/src/model/node.rs
+++ b/src/model/node.rs
@@ -172,6 +172,9 @@ macro_rules! impl_node_add_node {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }        
@@ -214,6 +217,9 @@ macro_rules! impl_node_add_scalar {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }           
@@ -251,6 +257,9 @@ macro_rules! impl_node_add_scalar {
                     if c != 0. {
                         args.push(ConstantScalar::new(c));
                     }
+                    if args.len() == 1 {
+                        return args.remove(0);
+                    }
                     FunctionAdd::new(args)
                 }
             }           
-- 
2.43.0


From cef64e30d34a9999c93cdd6f41b633bfd86f467f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 02/19] fix: derivative of an expression divided by itself is
 zero

partial() of f/f with respect to f ignored the denominator, so the
chain rule counted 1/f twice and d(x/x)/dx came out as 2/x.
---
 src/model/function/div.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/model/function/div.rs b/src/model/function/div.rs
index 691c445..8bc1257 100644
--- a/src/model/function/div.rs
+++ b/src/model/function/div.rs
@@ -33,7 +33,10 @@ impl NodeBase for FunctionDiv {
     }
 
     fn partial(&self, arg: &Node) -> Node { 
-        if self.args.0 == *arg {
+        if self.args.0 == *arg && self.args.1 == *arg {
+            return ConstantScalar::new(0.);
+        }
+        else if self.args.0 == *arg {
             return 1./&self.args.1;
         }
         else if self.args.1 == *arg {
-- 
2.43.0


From 23010a6f609dcf2faa268108862ea1a191e0395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 03/19] fix: scaling by a factor without affine form is not
 affine

A factor or divisor without variables was taken to be a known constant
even when it was not affine itself, e.g. FunctionCos::new(2), whose b is
meaningless, so x*FunctionCos::new(2) was called affine with a wrong
coefficient.
---
 src/model/function/div.rs | 2 +-
 src/model/function/mul.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/model/function/div.rs b/src/model/function/div.rs
index 8bc1257..6345b7b 100644
--- a/src/model/function/div.rs
+++ b/src/model/function/div.rs
@@ -58,7 +58,7 @@ impl NodeStd for FunctionDiv {
         
         let p0 = self.args.0.std_properties();
         let p1 = self.args.1.std_properties();
-        let affine = p0.affine && p1.a.is_empty();
+        let affine = p0.affine && p1.affine && p1.a.is_empty();
         let b = p0.b/p1.b;
         let mut a: HashMap<Node, f64> = HashMap::new();
         for (key, val) in p0.a.iter() {
diff --git a/src/model/function/mul.rs b/src/model/function/mul.rs
index 29d4c37..d70bfe6 100644
--- a/src/model/function/mul.rs
+++ b/src/model/function/mul.rs
@@ -55,8 +55,8 @@ impl NodeStd for FunctionMul {
         
         let p0 = self.args.0.std_properties();
         let p1 = self.args.1.std_properties();
-        let affine = (p0.affine && p1.a.is_empty()) || 
-                     (p1.affine && p0.a.is_empty());
+        let affine = p0.affine && p1.affine &&
+                     (p0.a.is_empty() || p1.a.is_empty());
         let b = p0.b*p1.b;
         let mut a: HashMap<Node, f64> = HashMap::new();
         for (key, val) in p0.a.iter() {
-- 
2.43.0


From 30c619d8907f076000ae6ea87885d24cf6122a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:11 +0000
Subject: [PATCH 04/19] fix: understand the solution files of current clp

clp now writes its status as cbc does ("Optimal - objective value 4"),
with no objective line after it. Every clp solve was reported as Error.
---
 src/solver/cbc_cmd.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 9f7d8f8..387ce07 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -52,6 +52,7 @@ impl SolverCbcCmd {
         let mut index: usize;
         let mut value: f64;
         let mut mul: f64;
+        let mut obj_line = false;
         let mut status = SolverStatus::Error;
         let mut solution = ProblemSol::new(p.nx(), p.na(), 0);
         let f = match File::open(fname) {
@@ -68,14 +69,15 @@ impl SolverCbcCmd {
             Some(s) => {
                 if !cbc && s == "optimal" {
                     status = SolverStatus::Solved;
+                    obj_line = true;
                 }
                 else if !cbc && s == "infeasible" {
                     status = SolverStatus::Infeasible;
                 }
-                else if cbc && s == "Optimal" {
+                else if s == "Optimal" {
                     status = SolverStatus::Solved;
                 }
-                else if cbc && s == "Infeasible" {
+                else if s == "Infeasible" {
                     status = SolverStatus::Infeasible;
                 }
             },
@@ -89,8 +91,8 @@ impl SolverCbcCmd {
             return Ok((status, solution))
         }
 
-        // Objective value
-        if !cbc {
+        // Objective value (on its own line only with lowercase clp status)
+        if obj_line {
             r.read_line(&mut line)?;
         }
 
-- 
2.43.0


From 47a893b68b208f195bed13ee14fb3e8516d1a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 05/19] fix: report integer infeasible problems as infeasible

cbc writes "Integer infeasible" when the relaxation is feasible but the
Milp is not; this was reported as Error.
---
 src/solver/cbc_cmd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 387ce07..9187869 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -65,7 +65,8 @@ impl SolverCbcCmd {
 
         // Status
         r.read_line(&mut line)?;
-        match line.split_ascii_whitespace().next() {
+        let mut words = line.split_ascii_whitespace();
+        match words.next() {
             Some(s) => {
                 if !cbc && s == "optimal" {
                     status = SolverStatus::Solved;
@@ -80,6 +81,9 @@ impl SolverCbcCmd {
                 else if s == "Infeasible" {
                     status = SolverStatus::Infeasible;
                 }
+                else if cbc && s == "Integer" && words.next() == Some("infeasible") {
+                    status = SolverStatus::Infeasible;
+                }
             },
             None => {
                 status = SolverStatus::Error;
-- 
2.43.0


From a8d71338f1279feacdc3e29ade9008c14acfa023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 06/19] fix: reject solution files that name unknown rows or
 columns

An index beyond the problem's dimensions caused a panic instead of a
"bad solution file" error.
---
 src/solver/cbc_cmd.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 9187869..c52ac79 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -129,6 +129,9 @@ impl SolverCbcCmd {
 
             // Variable
              if dtype == "x" {
+                if index >= p.nx() {
+                    return Err(e);
+                }
                 solution.x[index] = value;
                 if mul > 0. {
                     solution.pi[index] = mul;
@@ -140,6 +143,9 @@ impl SolverCbcCmd {
 
             // Constraint
             else if dtype == "c" {
+                if index >= p.na() {
+                    return Err(e);
+                }
                 solution.lam[index] = mul;
             }
             else {
-- 
2.43.0


From 566d066c615b0efa3ae6c2e03dc392b7e5db87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 07/19] fix: read marked lines of solution files

cbc and clp put "**" in front of values that are out of bounds, also by
tiny amounts at an optimal solution; the whole file was then rejected.
---
 src/solver/cbc_cmd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index c52ac79..35356bd 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -104,7 +104,9 @@ impl SolverCbcCmd {
         for l in r.lines() {
             line = l?;
             let mut iter = line.split_ascii_whitespace();
-            iter.next();
+            if iter.next() == Some("**") { // marks values out of bounds
+                iter.next();
+            }
             name = match iter.next() {
                 Some(s) => s.to_string(),
                 None => return Err(e)
-- 
2.43.0


From 5d1ffb5597ef43bcb4515f5c458c655587e49acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 08/19] fix: free the Ipopt problem when an option is rejected

Returning early leaked the problem created before the options are set.
---
 src/solver/ipopt.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 328ee71..8c36e5a 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -93,14 +93,20 @@ impl Solver for SolverIpopt {
             Some(SolverParam::IntParam(i)) => i,
             _ => return Err(SimpleError::new("unable to get parameter print_level"))
         };
-        unsafe { add_int_option(cprob, "print_level", *print_level)? };
+        if let Err(e) = unsafe { add_int_option(cprob, "print_level", *print_level) } {
+            unsafe { cipopt::FreeIpoptProblem(cprob) };
+            return Err(e);
+        }
 
         // Parameter sb
         let sb: &str = match self.get_param("sb") {
             Some(SolverParam::StrParam(s)) => s.as_ref(),
             _ => return Err(SimpleError::new("unable to get parameter sb"))
         };
-        unsafe { add_str_option(cprob, "sb", sb)? };
+        if let Err(e) = unsafe { add_str_option(cprob, "sb", sb) } {
+            unsafe { cipopt::FreeIpoptProblem(cprob) };
+            return Err(e);
+        }
         
         // Buffers
         let mut x: Vec<f64> = vec![0.;p.nx()];
-- 
2.43.0


From 69870e0993f6205166f1eb236750fb1df9934463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 09/19] fix: report an option value with an embedded NUL as an
 error

It cannot be passed to Ipopt, and the conversion panicked.
---
 src/solver/ipopt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 8c36e5a..5af3fe6 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -390,7 +390,10 @@ unsafe fn add_str_option(cprob: cipopt::IpoptProblem,
                          val: &str) 
                          -> Result<(), SimpleError> {
     let ckey = CString::new(key).unwrap();
-    let cval = CString::new(val).unwrap();
+    let cval = match CString::new(val) {
+        Ok(c) => c,
+        Err(_e) => return Err(SimpleError::new(format!("unable to set parameter {}", key)))
+    };
     match cipopt::AddIpoptStrOption(cprob, 
                                     ckey.as_ptr() as *const c_char, 
                                     cval.as_ptr() as *const c_char) {
-- 
2.43.0


From e8f40f78c301b4efedd31a0e0625e42b9c236eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 10/19] fix: always give Ipopt the Hessian of the point and
 multipliers it asks for

The Hessian callback wrote nothing when neither x nor lambda were new,
leaving Ipopt's buffer as it was even if the objective factor had
changed, and kept the combination of the old constraint Hessians when x
was new but lambda was not.
---
 src/solver/ipopt.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 5af3fe6..d7c38c1 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -304,7 +304,7 @@ extern fn eval_h_cb(n: c_int,
                     obj_factor: c_double, 
                     m: c_int,
                     lambda: *const c_double,
-                    new_lambda: c_int,
+                    _new_lambda: c_int,
                     nele_hess: c_int,
                     irow: *mut c_int,
                     jcol: *mut c_int,
@@ -350,23 +350,21 @@ extern fn eval_h_cb(n: c_int,
                 }
                 p.evaluate(slice::from_raw_parts(x, p.nx()));
             }
-            if new_lambda == cipopt::TRUE {
+            if p.nf() > 0 {
                 if lambda.is_null() {
                     return cipopt::FALSE;
                 }
                 p.combine_h(slice::from_raw_parts(lambda.add(p.na()), p.nf()));
             }
-            if new_x == cipopt::TRUE || new_lambda == cipopt::TRUE {
-                let mut k: usize = 0;
-                for (_row, _col, val) in p.hphi().iter() {
-                    *values.add(k) = obj_factor*(*val); 
-                    k += 1;
-                }
-                for (_row, _col, val) in p.hcomb().iter() {
-                    *values.add(k) = *val; 
-                    k += 1;
-                }
-            }   
+            let mut k: usize = 0;
+            for (_row, _col, val) in p.hphi().iter() {
+                *values.add(k) = obj_factor*(*val); 
+                k += 1;
+            }
+            for (_row, _col, val) in p.hcomb().iter() {
+                *values.add(k) = *val; 
+                k += 1;
+            }
         }
     };
     cipopt::TRUE
-- 
2.43.0


From a8d1d5ce9e3ea56856246815af886b0a1745b7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 11/19] fix: keep explicit variable bounds beyond the default
 range

A bound such as x >= 2e8 was dropped in favor of the default limits of
+-1e8, so the solution violated it, and its constraint had no dual.
---
 src/model/model_std.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/model_std.rs b/src/model/model_std.rs
index e3885d6..848409a 100644
--- a/src/model/model_std.rs
+++ b/src/model/model_std.rs
@@ -225,14 +225,14 @@ impl ModelStd for Model {
         let mut l_data = vec![-INF; num_vars];
         for (var, val, constr) in comp.constr.u.into_iter() {
             let index = *var2index.get(&var).unwrap();
-            if val <= u_data[index] {
+            if val <= u_data[index] || !uindex2constr.contains_key(&index) {
                 u_data[index] = val;
                 uindex2constr.insert(index, constr);
             }
         }
         for (var, val, constr) in comp.constr.l.into_iter() {
             let index = *var2index.get(&var).unwrap();
-            if val >= l_data[index] {
+            if val >= l_data[index] || !lindex2constr.contains_key(&index) {
                 l_data[index] = val;
                 lindex2constr.insert(index, constr);
             }
-- 
2.43.0


From 7f917b29259fdd3ee502cd118e92a5e94fe76e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 12/19] fix: violation of a constraint that cannot be evaluated
 is not zero

max(0, NaN) is 0, so an inequality involving a variable without value
was reported as satisfied.
---
 src/model/constraint.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/model/constraint.rs b/src/model/constraint.rs
index 10ee986..5d5821b 100644
--- a/src/model/constraint.rs
+++ b/src/model/constraint.rs
@@ -58,17 +58,16 @@ impl Constraint {
     pub fn rhs(&self) -> &Node { &self.0.rhs }
 
     /// Computes constraint violation given variable values.
+    /// It is NaN if the constraint expressions cannot be evaluated.
     pub fn violation(&self, var_values: &HashMap<&Node, f64>) -> f64 {
+        let diff = self.0.lhs.evaluate(var_values)-self.0.rhs.evaluate(var_values);
+        if diff.is_nan() {
+            return diff;
+        }
         match self.0.kind {
-            ConstraintKind::Equal => { 
-                (self.0.lhs.evaluate(var_values)-self.0.rhs.evaluate(var_values)).abs()
-            },
-            ConstraintKind::LessEqual => { 
-                0_f64.max(self.0.lhs.evaluate(var_values)-self.0.rhs.evaluate(var_values))
-            },
-            ConstraintKind::GreaterEqual => {
-                0_f64.max(self.0.rhs.evaluate(var_values)-self.0.lhs.evaluate(var_values))
-            },
+            ConstraintKind::Equal => diff.abs(),
+            ConstraintKind::LessEqual => 0_f64.max(diff),
+            ConstraintKind::GreaterEqual => 0_f64.max(-diff),
         }
     }
 }
-- 
2.43.0


From 59ed773ab7e842e9aad9dc40091dc32154dd9375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 13/19] fix: place the nonlinear Jacobian below the linear rows
 for Ipopt

Ipopt's constraint rows are the linear rows followed by the nonlinear ones,
but the entries of both Jacobians were given with row indices starting at
zero, so any problem with rows of both kinds had a wrong Jacobian.
---
 src/solver/ipopt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index d7c38c1..fe76318 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -272,7 +272,7 @@ extern fn eval_jac_g_cb(n: c_int,
                 k += 1;
             }
             for (row, col, _val) in p.j().iter() {
-                *irow.add(k) = row.to_i32().unwrap();
+                *irow.add(k) = (p.na()+row).to_i32().unwrap();
                 *jcol.add(k) = col.to_i32().unwrap();
                 k += 1;
             }
-- 
2.43.0


From 95a77bf4e369662358a33009825c993ed0d9c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 14/19] fix: read Ipopt parameters before creating the problem

A parameter replaced or removed through get_params_mut made solve return an
error without freeing the Ipopt problem.
---
 src/solver/ipopt.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index fe76318..7fd9c66 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -60,6 +60,18 @@ impl Solver for SolverIpopt {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameter print_level
+        let print_level: &i32 = match self.get_param("print_level") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter print_level"))
+        };
+
+        // Parameter sb
+        let sb: &str = match self.get_param("sb") {
+            Some(SolverParam::StrParam(s)) => s.as_ref(),
+            _ => return Err(SimpleError::new("unable to get parameter sb"))
+        };
+
         // Init
         let n: c_int = p.nx().to_i32().unwrap();
         let m: c_int = (p.na() + p.nf()).to_i32().unwrap();
@@ -88,21 +100,11 @@ impl Solver for SolverIpopt {
             return Err(SimpleError::new("failed to create ipopt problem"))
         }
 
-        // Parameter print_level
-        let print_level: &i32 = match self.get_param("print_level") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter print_level"))
-        };
+        // Options
         if let Err(e) = unsafe { add_int_option(cprob, "print_level", *print_level) } {
             unsafe { cipopt::FreeIpoptProblem(cprob) };
             return Err(e);
         }
-
-        // Parameter sb
-        let sb: &str = match self.get_param("sb") {
-            Some(SolverParam::StrParam(s)) => s.as_ref(),
-            _ => return Err(SimpleError::new("unable to get parameter sb"))
-        };
         if let Err(e) = unsafe { add_str_option(cprob, "sb", sb) } {
             unsafe { cipopt::FreeIpoptProblem(cprob) };
             return Err(e);
-- 
2.43.0


From 79b3b30c557e59e91fee4333426fd38f6ed1b34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:05 +0000
Subject: [PATCH 15/19] fix: read the logLevel parameter before writing files

Without the parameter (or with one of another type) solving returned an
error but left the written LP file behind.
---
 src/solver/cbc_cmd.rs | 12 ++++++------
 src/solver/clp_cmd.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index 35356bd..bcfb169 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -173,6 +173,12 @@ impl Solver for SolverCbcCmd {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameters
+        let log_level = match self.get_param("logLevel") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
+        };
+
         // Input filename
         let input_file = Builder::new()
             .prefix("cbc")
@@ -203,12 +209,6 @@ impl Solver for SolverCbcCmd {
             }
         };
 
-        // Parameters
-        let log_level = match self.get_param("logLevel") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
-        };
-
         // Call Cbc command
         match Command::new("cbc")
                       .args(&[&input_filename,
diff --git a/src/solver/clp_cmd.rs b/src/solver/clp_cmd.rs
index 0d4b58e..c3f361f 100644
--- a/src/solver/clp_cmd.rs
+++ b/src/solver/clp_cmd.rs
@@ -52,6 +52,12 @@ impl Solver for SolverClpCmd {
             _ => return Err(SimpleError::new("problem type not supported"))
         };
 
+        // Parameters
+        let log_level = match self.get_param("logLevel") {
+            Some(SolverParam::IntParam(i)) => i,
+            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
+        };
+
         // Input filename
         let input_file = Builder::new()
             .prefix("clp")
@@ -82,12 +88,6 @@ impl Solver for SolverClpCmd {
             }
         };
 
-        // Parameters
-        let log_level = match self.get_param("logLevel") {
-            Some(SolverParam::IntParam(i)) => i,
-            _ => return Err(SimpleError::new("unable to get parameter logLevel"))
-        };
-
         // Call Clp command
         match Command::new("clp")
                       .stdout(if *log_level == 0 { Stdio::null() } else { Stdio::inherit() })
-- 
2.43.0


From f8dc3097dc304fe2862aef8f1351326d051f6c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:02 +0000
Subject: [PATCH 16/19] fix: check the size of the initial point of a problem

---
 src/problem/minlp.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/problem/minlp.rs b/src/problem/minlp.rs
index bbd6c3e..9b1d03e 100644
--- a/src/problem/minlp.rs
+++ b/src/problem/minlp.rs
@@ -75,6 +75,10 @@ impl ProblemMinlp {
 
         assert_eq!(p.len(), nx);
 
+        if let Some(x) = &x0 {
+            assert_eq!(x.len(), nx);
+        }
+
         let mut k: usize = 0;
         let hcomb_nnz = h.iter().map(|h| h.nnz()).sum();
         let mut hcomb = CooMat::from_nnz((nx, nx), hcomb_nnz);
-- 
2.43.0


From bd4943ebe9b7a774d17f1f298abea5b26b6dfee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:06 +0000
Subject: [PATCH 17/19] fix: check the number of objective coefficients of a
 linear problem

---
 src/problem/milp.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/problem/milp.rs b/src/problem/milp.rs
index 0bf57e8..76fbdb8 100644
--- a/src/problem/milp.rs
+++ b/src/problem/milp.rs
@@ -54,6 +54,7 @@ impl ProblemMilp {
             gphi.copy_from_slice(&c);
         });
         let nx = a.cols();
+        assert_eq!(cc.len(), nx);
         let base = ProblemMinlp::new(CooMat::from_nnz((nx, nx), 0), // Hphi
                                      a, 
                                      b,
-- 
2.43.0


From 8c804ff15268768a8c5653fb9abe6837025bcf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 18/19] fix: multipliers of fixed variables with Ipopt

Ipopt treats variables with equal limits as parameters and leaves their
multipliers at zero, so that the returned solution and the duals of the
constraints that fix a variable did not satisfy the optimality conditions.
---
 src/solver/ipopt.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/solver/ipopt.rs b/src/solver/ipopt.rs
index 7fd9c66..bf346ae 100644
--- a/src/solver/ipopt.rs
+++ b/src/solver/ipopt.rs
@@ -153,6 +153,23 @@ impl Solver for SolverIpopt {
         solution.pi.copy_from_slice(&pi);
         solution.mu.copy_from_slice(&mu);
 
+        // Multipliers of fixed variables (ipopt treats these as parameters)
+        let fixed: Vec<bool> = (0..p.nx()).map(|i| p.l()[i] == p.u()[i] && pi[i] == 0. && mu[i] == 0.).collect();
+        if status == SolverStatus::Solved && fixed.contains(&true) {
+            p.evaluate(&x);
+            let mut red: Vec<f64> = p.gphi().to_vec();
+            for (row, col, val) in p.a().iter() {
+                red[*col] -= val*solution.lam[*row];
+            }
+            for (row, col, val) in p.j().iter() {
+                red[*col] -= val*solution.nu[*row];
+            }
+            for i in (0..p.nx()).filter(|i| fixed[*i]) {
+                solution.pi[i] = red[i].max(0.);
+                solution.mu[i] = (-red[i]).max(0.);
+            }
+        }
+
         // Clean up
         unsafe {
             cipopt::FreeIpoptProblem(cprob);
-- 
2.43.0


From 4030c2680e1704e9621958a87fcd33d6b4333844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:59 +0000
Subject: [PATCH 19/19] fix: names in solution files that only start like those
 of variables or rows

---
 src/solver/cbc_cmd.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/cbc_cmd.rs b/src/solver/cbc_cmd.rs
index bcfb169..38e7746 100644
--- a/src/solver/cbc_cmd.rs
+++ b/src/solver/cbc_cmd.rs
@@ -129,6 +129,10 @@ impl SolverCbcCmd {
                 None => return Err(e)
             };
 
+            if name != format!("{}_{}", dtype, index) {
+                return Err(e);
+            }
+
             // Variable
              if dtype == "x" {
                 if index >= p.nx() {
-- 
2.43.0

