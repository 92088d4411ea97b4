From 03fd4dffff036b04eb6f09247af5fec9a6e4539f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 01/38] fix: accept every horizon slice 0 <= start < end <=
 horizon, and no other

---
 include/mpc/IMPC.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/IMPC.hpp b/include/mpc/IMPC.hpp
index 071beb9..b485572 100644
--- a/include/mpc/IMPC.hpp
+++ b/include/mpc/IMPC.hpp
@@ -255,7 +255,7 @@ namespace mpc
          */
         bool isPredictionHorizonSliceValid(const HorizonSlice& slice)
         {
-            if (slice.start >= slice.end || slice.start > (int)ph() || slice.end > (int)ph() || slice.start + slice.end > (int)ph())
+            if (slice.start < 0 || slice.start >= slice.end || slice.end > (int)ph())
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "The prediction horizon slice is out of bounds" << std::endl;
                 return false;
@@ -273,7 +273,7 @@ namespace mpc
          */
         bool isControlHorizonSliceValid(const HorizonSlice &slice)
         {
-            if (slice.start >= slice.end || slice.start > (int)ch() || slice.end > (int)ch() || slice.start + slice.end > (int)ch())
+            if (slice.start < 0 || slice.start >= slice.end || slice.end > (int)ch())
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "The control horizon slice is out of bounds" << std::endl;
                 return false;
-- 
2.43.0


From 6fe6d03593f5db4e2c7a86ccbe4e92a2781aa0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 02/38] fix: release the slack variable when hard constraints
 are switched off

---
 include/mpc/NLMPC/NLOptimizer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 19453fc..1a89bd2 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -181,6 +181,11 @@ namespace mpc
                 lb[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
                 ub[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
             }
+            else
+            {
+                lb[((ph() * nx()) + (nu() * ch()) + 1) - 1] = -mpc::inf;
+                ub[((ph() * nx()) + (nu() * ch()) + 1) - 1] = mpc::inf;
+            }
 
             enable_warm_start = nl_param->enable_warm_start;
 
-- 
2.43.0


From dfb8cb32bb7843e75c17d7a2e567de1c32aa21d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 03/38] fix: allow to remove a time limit set before

---
 include/mpc/NLMPC/NLOptimizer.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 1a89bd2..7d18e84 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -136,10 +136,8 @@ namespace mpc
 
             innerOpt->set_x_weights(1.0);
 
-            if (nl_param->time_limit > 0)
-            {
-                innerOpt->set_maxtime(nl_param->time_limit);
-            }
+            // a limit which is not positive disables the check
+            innerOpt->set_maxtime(nl_param->time_limit);
 
             innerOpt->set_maxeval(nl_param->maximum_iteration);
 
-- 
2.43.0


From f926cfeb91beb7ae2a70fdc8088a53aa2d287bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 04/38] fix: size the user equality tolerances with the
 run-time number of equalities

---
 include/mpc/NLMPC.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC.hpp b/include/mpc/NLMPC.hpp
index 5bbd177..d4e12d4 100644
--- a/include/mpc/NLMPC.hpp
+++ b/include/mpc/NLMPC.hpp
@@ -251,7 +251,7 @@ namespace mpc
             const typename IDimensionable<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)>::EConFunHandle handle, const float tol = 1e-10)
         {
             cvec<Teq> tol_vec;
-            tol_vec = cvec<Teq>::Ones(Size(Teq));
+            tol_vec = cvec<Teq>::Ones(eq());
 
             auto res = conF->setEqConstraints(handle, tol);
             ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
-- 
2.43.0


From 843edca7b0c5abcc660e517d0c83e70429a19df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 05/38] fix: a constraint value that is not a number is not
 feasible

---
 include/mpc/NLMPC/Constraints.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 6aa4b44..8234348 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -161,7 +161,7 @@ namespace mpc
                     << std::endl;
 
                 // Check if all inequality constraints are satisfied (<= 0)
-                if ((cineq_user.array() > ieq_tolerance).any())
+                if (!(cineq_user.array() <= ieq_tolerance).all())
                 {
                     return false;
                 }
@@ -180,7 +180,7 @@ namespace mpc
                     << std::endl;
 
                 // Check if all equality constraints are satisfied (== 0)
-                if (ceq_user.array().abs().maxCoeff() > eq_tolerance)
+                if (!(ceq_user.array().abs() <= eq_tolerance).all())
                 {
                     return false;
                 }
-- 
2.43.0


From d11b3a11c0fa432c77c1c625c3d297171ed47613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 06/38] fix: do not scale the measured initial state

---
 include/mpc/NLMPC/Mapping.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/Mapping.hpp b/include/mpc/NLMPC/Mapping.hpp
index 600ab01..0e3c069 100644
--- a/include/mpc/NLMPC/Mapping.hpp
+++ b/include/mpc/NLMPC/Mapping.hpp
@@ -196,7 +196,6 @@ namespace mpc
             Umv.row(ph()) = Umv.row(ph() - 1);
 
             Xmat.setZero();
-            Xmat.row(0) = x0.transpose();
             for (size_t i = 1; i < (ph() + 1); i++)
             {
                 Xmat.row(i) = x.middleRows(((i - 1) * nx()), nx()).transpose();
@@ -207,6 +206,9 @@ namespace mpc
                 Xmat.col(i) /= 1.0 / state_scaling(i);
             }
 
+            // the initial condition is a measure, it is not part of the scaled vector
+            Xmat.row(0) = x0.transpose();
+
             // TODO add disturbaces manipulated vars
             Umat.setZero();
             Umat.block(0, 0, ph() + 1, nu()) = Umv;
-- 
2.43.0


From 28ed40b0964f84b951af6afe94cb9496d921af93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 07/38] fix: apply the state scaling to the objective gradient

---
 include/mpc/NLMPC/Objective.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index d982d3d..1a70e02 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -102,9 +102,9 @@ namespace mpc
             {
                 computeJacobian(Xmat, Umat, c.value, e);
 
-                for (int i = 0; i < Xmat.cols(); i++)
+                for (int i = 0; i < Jx.rows(); i++)
                 {
-                    Xmat.col(i) /= 1.0 / mapping->StateScaling()(i);
+                    Jx.row(i) /= 1.0 / mapping->StateScaling()(i);
                 }
 
                 int counter = 0;
-- 
2.43.0


From 89dd72087cdc7aab7f7e8e0c46df4a77f23ee69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 08/38] fix: size each finite-difference step on the perturbed
 element

---
 include/mpc/NLMPC/Constraints.hpp | 6 +++---
 include/mpc/NLMPC/Objective.hpp   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 8234348..1a7703b 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -659,7 +659,7 @@ namespace mpc
                 for (size_t j = 0; j < nx(); j++)
                 {
                     int ix = i + 1;
-                    double dx = dv * Xa.array()(j);
+                    double dx = dv * Xa(ix, j);
                     x0(ix, j) += dx;
                     cvec<sizer.ineq> f_plus, f_minus;
                     COND_RESIZE_CVEC(sizer, f_plus, ineq());
@@ -686,7 +686,7 @@ namespace mpc
             {
                 for (size_t j = 0; j < nu(); j++)
                 {
-                    double du = dv * Ua.array()(j);
+                    double du = dv * Ua(i, j);
                     u0(i, j) += du;
                     cvec<sizer.ineq> f_plus, f_minus;
                     COND_RESIZE_CVEC(sizer, f_plus, ineq());
@@ -778,7 +778,7 @@ namespace mpc
                 for (size_t j = 0; j < nu(); j++)
                 {
                     // Calculate perturbation
-                    double du = dv * Ua(ph() - 1, j);
+                    double du = dv * Ua(i, j);
                     // Forward perturbation
                     u0(i, j) += du;
                     cvec<sizer.eq> f_plus;
diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index 1a70e02..72ea0e8 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -205,7 +205,7 @@ namespace mpc
                 for (size_t j = 0; j < nx(); j++)
                 {
                     int ix = i + 1;
-                    double dx = dv * Xa.array()(j);
+                    double dx = dv * Xa(ix, j);
                     x0(ix, j) = x0(ix, j) + dx;
                     double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
                     x0(ix, j) = x0(ix, j) - dx;
@@ -225,7 +225,7 @@ namespace mpc
                 for (size_t j = 0; j < nu(); j++)
                 {
                     int k = j;
-                    double du = dv * Ua.array()(k);
+                    double du = dv * Ua(i, k);
                     u0(i, k) = u0(i, k) + du;
                     double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
                     u0(i, k) = u0(i, k) - du;
@@ -239,7 +239,7 @@ namespace mpc
             for (size_t j = 0; j < nu(); j++)
             {
                 int k = j;
-                double du = dv * Ua.array()(k);
+                double du = dv * Ua(ph() - 1, k);
                 u0((ph() - 1), k) = u0((ph() - 1), k) + du;
                 u0(ph(), k) = u0(ph(), k) + du;
                 double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
-- 
2.43.0


From 2ccd66970d5e2891b510eb6e6020071cf2e49611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 09/38] fix: perturb the held final input in the user
 inequality Jacobian

---
 include/mpc/NLMPC/Constraints.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 1a7703b..7d82e00 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -686,8 +686,13 @@ namespace mpc
             {
                 for (size_t j = 0; j < nu(); j++)
                 {
+                    // the last input of the horizon is held at the final step
                     double du = dv * Ua(i, j);
                     u0(i, j) += du;
+                    if (i == ph() - 1)
+                    {
+                        u0(ph(), j) += du;
+                    }
                     cvec<sizer.ineq> f_plus, f_minus;
                     COND_RESIZE_CVEC(sizer, f_plus, ineq());
                     COND_RESIZE_CVEC(sizer, f_minus, ineq());
@@ -696,10 +701,18 @@ namespace mpc
                     ieqUser(f_plus, x0, y0_plus, u0, e0);
 
                     u0(i, j) -= 2 * du;
+                    if (i == ph() - 1)
+                    {
+                        u0(ph(), j) -= 2 * du;
+                    }
                     mat<(sizer.ph + 1), sizer.ny> y0_minus = model->getOutput(x0, u0);
                     ieqUser(f_minus, x0, y0_minus, u0, e0);
 
                     u0(i, j) += du;
+                    if (i == ph() - 1)
+                    {
+                        u0(ph(), j) += du;
+                    }
 
                     cvec<sizer.ineq> df = (f_plus - f_minus) / (2 * du);
                     Jconmv.middleCols(i * nu(), nu()).col(j) = df;
-- 
2.43.0


From fa16188713cad8b08824fcccecaf39770ff5f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 10/38] fix: use a meaningful finite-difference step for the
 slack variable

---
 include/mpc/NLMPC/Constraints.hpp | 2 +-
 include/mpc/NLMPC/Objective.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 7d82e00..81b0c64 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -719,7 +719,7 @@ namespace mpc
                 }
             }
 
-            double ea = fmax(dv, fabs(e0));
+            double ea = fmax(1.0, fabs(e0));
             double de = ea * dv;
             cvec<sizer.ineq> f1, f2;
             COND_RESIZE_CVEC(sizer, f1, ineq());
diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index 72ea0e8..45c4962 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -249,7 +249,7 @@ namespace mpc
                 Jmv(j, (ph() - 1)) = df;
             }
 
-            double ea = fmax(1e-6, abs(e0));
+            double ea = fmax(1.0, fabs(e0));
             double de = ea * dv;
             double f1 = fuser(x0, model->getOutput(x0, u0), u0, e0 + de);
             double f2 = fuser(x0, model->getOutput(x0, u0), u0, e0 - de);
-- 
2.43.0


From 2b0db582b90f2cf3c1a56fc9310f320cbabbcc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 11/38] fix: binding a function again replaces its constraint
 instead of adding one more

---
 include/mpc/NLMPC/NLOptimizer.hpp | 41 ++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 7d18e84..287575c 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -236,12 +236,14 @@ namespace mpc
 
             try
             {
-                innerOpt->add_equality_mconstraint(
-                    NLOptimizer::nloptEqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
+                // the solver only appends: drop what was bound before
+                state_eq = {NLOptimizer::nloptEqConFunWrapper, std::vector<double>(tol.data(), tol.data() + tol.rows() * tol.cols())};
+                innerOpt->remove_equality_constraints();
+                if (user_eq.function)
+                {
+                    innerOpt->add_equality_mconstraint(user_eq.function, conFunc.get(), user_eq.tol);
+                }
+                innerOpt->add_equality_mconstraint(state_eq.function, conFunc.get(), state_eq.tol);
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Adding state defined equality constraints"
                     << std::endl;
@@ -249,6 +251,7 @@ namespace mpc
             }
             catch (const std::exception &e)
             {
+                state_eq = {};
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Unable to bind constraints function\n"
                     << e.what()
@@ -273,6 +276,8 @@ namespace mpc
 
             try
             {
+                // the solver only appends: drop what was bound before
+                innerOpt->remove_inequality_constraints();
                 innerOpt->add_inequality_mconstraint(
                     NLOptimizer::nloptUserIneqConFunWrapper,
                     conFunc.get(),
@@ -311,12 +316,14 @@ namespace mpc
 
             try
             {
-                innerOpt->add_equality_mconstraint(
-                    NLOptimizer::nloptUserEqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
+                // the solver only appends: drop what was bound before
+                user_eq = {NLOptimizer::nloptUserEqConFunWrapper, std::vector<double>(tol.data(), tol.data() + tol.rows() * tol.cols())};
+                innerOpt->remove_equality_constraints();
+                if (state_eq.function)
+                {
+                    innerOpt->add_equality_mconstraint(state_eq.function, conFunc.get(), state_eq.tol);
+                }
+                innerOpt->add_equality_mconstraint(user_eq.function, conFunc.get(), user_eq.tol);
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Adding user equality constraints"
                     << std::endl;
@@ -324,6 +331,7 @@ namespace mpc
             }
             catch (const std::exception &e)
             {
+                user_eq = {};
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Unable to bind constraints function\n"
                     << e.what()
@@ -852,6 +860,15 @@ namespace mpc
 
         nlopt::opt *innerOpt;
 
+        // the equality constraints currently bound
+        struct EqConstraint
+        {
+            nlopt::mfunc function = nullptr;
+            std::vector<double> tol;
+        };
+
+        EqConstraint state_eq, user_eq;
+
         std::shared_ptr<Objective<sizer>> objFunc;
         std::shared_ptr<Constraints<sizer>> conFunc;
         std::shared_ptr<Mapping<sizer>> mapping;
-- 
2.43.0


From b72d6ab567ed646cce4524aef5ca542fff4bab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 12/38] fix: state and input bounds are physical quantities
 also when a scaling is set

---
 include/mpc/NLMPC/NLOptimizer.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 287575c..27c010c 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -100,6 +100,9 @@ namespace mpc
 
             mapping = map;
             model = sysModel;
+
+            // the scaling could be changed
+            updateBounds();
         }
 
         /**
@@ -639,6 +642,22 @@ namespace mpc
         }
 
     private:
+        /**
+         * @brief Scaling factor of an element of the optimization vector
+         *
+         * @param i index of the element
+         * @return double ratio between the physical quantity and the solver's one
+         */
+        double scaling(const size_t &i)
+        {
+            if (i < ph() * nx())
+            {
+                return mapping->StateScaling()(i % nx());
+            }
+
+            return i < (ph() * nx()) + (nu() * ch()) ? mapping->InputScaling()((i - (ph() * nx())) % nu()) : 1.0;
+        }
+
         /**
          * @brief Update the bounds for the internal solver
          */
@@ -648,6 +667,13 @@ namespace mpc
             std::vector<double> lb_vec(lb.data(), lb.data() + lb.rows() * lb.cols());
             std::vector<double> ub_vec(ub.data(), ub.data() + ub.rows() * ub.cols());
 
+            // the bounds are physical quantities, the solver works on the scaled ones
+            for (size_t i = 0; mapping && i + 1 < lb_vec.size(); i++)
+            {
+                lb_vec[i] /= scaling(i);
+                ub_vec[i] /= scaling(i);
+            }
+
             innerOpt->set_lower_bounds(lb_vec);
             innerOpt->set_upper_bounds(ub_vec);
 
-- 
2.43.0


From adfe0b49626f4855000d1495101ab490a244613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 13/38] fix: a user function throwing on the solution makes the
 solve fail, and leaves the stored plan alone

---
 include/mpc/NLMPC/NLOptimizer.hpp | 48 ++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 27c010c..58777e9 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -511,16 +511,36 @@ namespace mpc
             // let's start the optimization
             bool optimizationSuccess = false;
 
+            cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> solution;
+            COND_RESIZE_CVEC(sizer,solution, ((ph() * nx()) + (nu() * ch()) + 1));
+            double slack = 0;
+
+            mat<(sizer.ph + 1), sizer.nx> Xmat;
+            COND_RESIZE_MAT(sizer,Xmat,(ph() + 1), nx());
+
+            mat<(sizer.ph + 1), sizer.nu> Umat;
+            COND_RESIZE_MAT(sizer,Umat,(ph() + 1), nu());
+
+            mat<(sizer.ph + 1), sizer.ny> Ymat;
+            COND_RESIZE_MAT(sizer,Ymat,(ph() + 1), ny());
+
             try
             {
                 std::vector<double> opt_v = innerOpt->optimize(optX0);
                 // convert from std vector to eigen vector by copying the data
-                Eigen::Map<cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)>>(opt_v.data(), opt_v.size()).swap(opt_vector);
-                optimizationSuccess = true;
-                is_first_iteration = false;
+                Eigen::Map<cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)>>(opt_v.data(), opt_v.size()).swap(solution);
 
                 // check if the solution vector is feasible or not
-                r.is_feasible = conFunc->isFeasible(opt_vector);
+                r.is_feasible = conFunc->isFeasible(solution);
+
+                mapping->unwrapVector(solution, x0, Xmat, Umat, slack);
+                Ymat = model->getOutput(Xmat, Umat);
+
+                // the user functions are not called anymore: the solution can be stored
+                opt_vector = solution;
+                currentSlack = slack;
+                optimizationSuccess = true;
+                is_first_iteration = false;
 
                 if (r.is_feasible)
                 {
@@ -557,6 +577,15 @@ namespace mpc
                 optimizationSuccess = false;
                 r.solver_status_msg = "Internal solver error: " + std::string(e.what());
             }
+            catch (...)
+            {
+                Logger::instance().log(Logger::log_type::DETAIL)
+                    << "No optimal solution found: unknown exception"
+                    << std::endl;
+
+                optimizationSuccess = false;
+                r.solver_status_msg = "Internal solver error: unknown exception";
+            }
 
             if (optimizationSuccess)
             {
@@ -581,14 +610,6 @@ namespace mpc
                     << r.cost
                     << std::endl;
 
-                mat<(sizer.ph + 1), sizer.nx> Xmat;
-                COND_RESIZE_MAT(sizer,Xmat,(ph() + 1), nx());
-
-                mat<(sizer.ph + 1), sizer.nu> Umat;
-                COND_RESIZE_MAT(sizer,Umat,(ph() + 1), nu());
-
-                mapping->unwrapVector(opt_vector, x0, Xmat, Umat, currentSlack);
-
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Optimal predicted state vector\n"
                     << Xmat
@@ -602,12 +623,13 @@ namespace mpc
 
                 sequence.state = Xmat.block(0, 0, ph()+1, nx());
                 sequence.input = Umat.block(0, 0, ph()+1, nu());
-                sequence.output = model->getOutput(Xmat, Umat).block(0, 0, ph()+1, ny());
+                sequence.output = Ymat.block(0, 0, ph()+1, ny());
             }
             else
             {
                 r.cost = mpc::inf;
                 r.cmd = result.cmd;
+                r.is_feasible = false;
                 r.solver_status = -1;
                 // set the result status to error
                 r.status = ResultStatus::ERROR;
-- 
2.43.0


From f6713ca222991a453184a33fc9ec3c612121cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 14/38] fix: the initial guess accounts for the scaling, also
 when it changes between two solves

---
 include/mpc/NLMPC/NLOptimizer.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 58777e9..711a05a 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -453,6 +453,14 @@ namespace mpc
                 }
             }
             
+            // the stored plan is made of physical quantities, while the solver works on the scaled ones
+            cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> plan;
+            plan = opt_vector;
+            for (size_t i = 0; i < optX0.size(); i++)
+            {
+                plan[i] /= scaling(i);
+            }
+
             // fill the remaining elements with the previous state starting from
             // the third element of the prediction horizon 
             // (we shift the sequence to the left by one step)
@@ -462,10 +470,10 @@ namespace mpc
                 {
                     if(i == ph() - 1)
                     {
-                        optX0[(i * nx()) + j] = opt_vector[(i * nx()) + j];
+                        optX0[(i * nx()) + j] = plan[(i * nx()) + j];
                     }
                     else{
-                        optX0[(i * nx()) + j] = opt_vector[((i+1) * nx()) + j];
+                        optX0[(i * nx()) + j] = plan[((i+1) * nx()) + j];
                     }
                 }
             }
@@ -476,7 +484,7 @@ namespace mpc
             // convert from the optimized vector to the vectorized manipulated variable
             // using the mapping matrix Iz2u
             cvec<(sizer.ph * sizer.nu)> tmp_mult;
-            tmp_mult = mapping->Iz2u() * opt_vector.middleRows((ph() * nx()), (nu() * ch()));
+            tmp_mult = mapping->Iz2u() * plan.middleRows((ph() * nx()), (nu() * ch()));
 
             // fill the remaining elements with the previous control action starting from
             // the third element of the control horizon
@@ -537,7 +545,10 @@ namespace mpc
                 Ymat = model->getOutput(Xmat, Umat);
 
                 // the user functions are not called anymore: the solution can be stored
-                opt_vector = solution;
+                for (size_t i = 0; i < optX0.size(); i++)
+                {
+                    opt_vector[i] = solution[i] * scaling(i);
+                }
                 currentSlack = slack;
                 optimizationSuccess = true;
                 is_first_iteration = false;
-- 
2.43.0


From 19c588c331f24fa9f49d36b853c0d57f3b796c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 15/38] fix: move the initial guess inside the bounds

---
 include/mpc/NLMPC/NLOptimizer.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 711a05a..d0feb10 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -516,6 +516,14 @@ namespace mpc
             // put the slack variable in the optimization vector
             optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = currentSlack;
 
+            // the solver refuses a guess out of the bounds (e.g. a measured state violating them)
+            const std::vector<double> guess_lb = innerOpt->get_lower_bounds();
+            const std::vector<double> guess_ub = innerOpt->get_upper_bounds();
+            for (size_t i = 0; i < optX0.size(); i++)
+            {
+                optX0[i] = std::min(std::max(optX0[i], guess_lb[i]), guess_ub[i]);
+            }
+
             // let's start the optimization
             bool optimizationSuccess = false;
 
-- 
2.43.0


From ea8c804cfb6b1de9ff96416a41ee40ca67a258be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 16/38] fix: standard deviation of the execution times with a
 real ratio

---
 include/mpc/Profiler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/Profiler.hpp b/include/mpc/Profiler.hpp
index ff3e867..d82f344 100644
--- a/include/mpc/Profiler.hpp
+++ b/include/mpc/Profiler.hpp
@@ -221,7 +221,7 @@ namespace mpc
                 }
                 else
                 {
-                    double residual = (stats.numberOfSolutions/(stats.numberOfSolutions - 1)) * (pow(time.count() - stats.averageSolutionTime.count(), 2));
+                    double residual = (stats.numberOfSolutions / (stats.numberOfSolutions - 1.0)) * (pow(time.count() - stats.averageSolutionTime.count(), 2));
                     double stdDev_old = (stats.numberOfSolutions - 2) * pow(stats.standardDeviation, 2);
                     stats.standardDeviation = sqrt((stdDev_old + residual) / (stats.numberOfSolutions - 1));
                 }
-- 
2.43.0


From 07b12c9275e7a37fe8961021b9a5edac738249b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:14 +0000
Subject: [PATCH 17/38] fix: the standard deviation of the execution times is
 the one of the recorded population

---
 include/mpc/Profiler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/Profiler.hpp b/include/mpc/Profiler.hpp
index d82f344..c1eeed2 100644
--- a/include/mpc/Profiler.hpp
+++ b/include/mpc/Profiler.hpp
@@ -222,8 +222,8 @@ namespace mpc
                 else
                 {
                     double residual = (stats.numberOfSolutions / (stats.numberOfSolutions - 1.0)) * (pow(time.count() - stats.averageSolutionTime.count(), 2));
-                    double stdDev_old = (stats.numberOfSolutions - 2) * pow(stats.standardDeviation, 2);
-                    stats.standardDeviation = sqrt((stdDev_old + residual) / (stats.numberOfSolutions - 1));
+                    double stdDev_old = (stats.numberOfSolutions - 1) * pow(stats.standardDeviation, 2);
+                    stats.standardDeviation = sqrt((stdDev_old + residual) / stats.numberOfSolutions);
                 }
             }
         }
-- 
2.43.0


From da4d7d3da244248bbd610ec6431216001f3d6ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 18/38] fix: the inputs after the control horizon follow the
 bounds of its last step

---
 include/mpc/LMPC/ProblemBuilder.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 1f3af24..8fe9d98 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -405,8 +405,8 @@ namespace mpc
             // then the last bounds of the control horizon are used to fill the remaining part of the prediction horizon
             if (ch() < ph())
             {
-                minU.block(0, ch(), nu(), ph() - ch()) = UMinMat.col(ch());
-                maxU.block(0, ch(), nu(), ph() - ch()) = UMaxMat.col(ch());
+                minU.block(0, ch(), nu(), ph() - ch()).colwise() = UMinMat.col(ch() - 1);
+                maxU.block(0, ch(), nu(), ph() - ch()).colwise() = UMaxMat.col(ch() - 1);
             }
 
             return buildTimeInvariantTems();
@@ -473,6 +473,13 @@ namespace mpc
             minU.block(0, index, nu(), 1) = UMin;
             maxU.block(0, index, nu(), 1) = UMax;
 
+            // the last bounds of the control horizon are used to fill the remaining part of the prediction horizon
+            if (index + 1 == ch() && ch() < ph())
+            {
+                minU.block(0, ch(), nu(), ph() - ch()).colwise() = UMin;
+                maxU.block(0, ch(), nu(), ph() - ch()).colwise() = UMax;
+            }
+
             return buildTimeInvariantTems();
         }
 
-- 
2.43.0


From b861cf177416a25e503896bd3cd5051b5a835b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 19/38] fix: apply the input bounds of each step to the input
 of that step

---
 include/mpc/LMPC/ProblemBuilder.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 8fe9d98..b6b71d1 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -741,15 +741,16 @@ namespace mpc
 
             for (size_t i = 0; i < ph() + 1; i++)
             {
-                if (i == ph())
+                // the augmented state holds the command of the previous step, x_u(i) = u(i-1)
+                if (i == 0)
                 {
-                    tmpMinU = minU.col(i - 1);
-                    tmpMaxU = maxU.col(i - 1);
+                    tmpMinU = minU.col(0);
+                    tmpMaxU = maxU.col(0);
                 }
                 else
                 {
-                    tmpMinU = minU.col(i);
-                    tmpMaxU = maxU.col(i);
+                    tmpMinU = minU.col(i - 1);
+                    tmpMaxU = maxU.col(i - 1);
                 }
                 eMinX.middleRows(i * (nu() + nx()), (nu() + nx())) << minX.col(i), tmpMinU;
                 eMaxX.middleRows(i * (nu() + nx()), (nu() + nx())) << maxX.col(i), tmpMaxU;
-- 
2.43.0


From adcccadfef1638e3156056daa92258d585744886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 20/38] fix: hold the input from the end of the control horizon
 on

---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index b6b71d1..d1268f7 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -789,8 +789,8 @@ namespace mpc
 
             for (size_t i = 0; i < ph(); i++)
             {
-                minDeltaU = (i > ch()) ? 0.0 : -inf;
-                maxDeltaU = (i > ch()) ? 0.0 : inf;
+                minDeltaU = (i >= ch()) ? 0.0 : -inf;
+                maxDeltaU = (i >= ch()) ? 0.0 : inf;
 
                 lineq.middleRows(
                     (((ph() + 1) * (nu() + nx())) + ((ph() + 1) * ny())) + (i * nu()),
-- 
2.43.0


From 3dc8742215980b9607ee240b094ca909c3d17dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 21/38] fix: a scalar constraint set for some steps leaves the
 other steps alone

---
 include/mpc/LMPC/ProblemBuilder.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index d1268f7..cc3ee4d 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -326,9 +326,10 @@ namespace mpc
                 sMax(0) = max;
             }
 
-            for (size_t i = 0; i < ph() + 1; i++)
+            setScalarMultiplier(index + 1, X, U);
+            if (index == 0)
             {
-                sMultiplier.block(i, i * (nx() + nu()), 1, nx() + nu()) << X.transpose(), U.transpose();
+                setScalarMultiplier(0, X, U);
             }
 
             return buildTimeInvariantTems();
@@ -358,7 +359,7 @@ namespace mpc
 
             for (size_t i = 0; i < ph() + 1; i++)
             {
-                sMultiplier.block(i, i * (nx() + nu()), 1, nx() + nu()) << X.transpose(), U.transpose();
+                setScalarMultiplier(i, X, U);
             }
 
             return buildTimeInvariantTems();
@@ -640,6 +641,18 @@ namespace mpc
         }
 
     private:
+        /**
+         * @brief Set the multipliers of the scalar constraint of one step
+         *
+         * @param i step of the prediction horizon (0 is the current step)
+         * @param X the constant term multiplied to the state
+         * @param U the constant term multiplied to the input
+         */
+        void setScalarMultiplier(const size_t i, const cvec<sizer.nx> &X, const cvec<sizer.nu> &U)
+        {
+            sMultiplier.block(i, i * (nx() + nu()), 1, nx() + nu()) << X.transpose(), U.transpose();
+        }
+
         /**
          * @brief Build the time invariant optimal control problem terms
          *
-- 
2.43.0


From 8254d884628853269e5ae83f3dd861afe36db751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 22/38] fix: the scalar constraint relates the state and the
 input of the same step

---
 include/mpc/LMPC/ProblemBuilder.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index cc3ee4d..7b6d79b 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -650,7 +650,13 @@ namespace mpc
          */
         void setScalarMultiplier(const size_t i, const cvec<sizer.nx> &X, const cvec<sizer.nu> &U)
         {
-            sMultiplier.block(i, i * (nx() + nu()), 1, nx() + nu()) << X.transpose(), U.transpose();
+            sMultiplier.row(i).setZero();
+            sMultiplier.block(i, i * (nx() + nu()), 1, nx()) = X.transpose();
+
+            // the augmented state holds the command of the previous step, x_u(i + 1) = u(i)
+            // (at the last step the last command is used)
+            const size_t k = (i < ph()) ? i + 1 : i;
+            sMultiplier.block(i, k * (nx() + nu()) + nx(), 1, nu()) = U.transpose();
         }
 
         /**
-- 
2.43.0


From 4ce2786c919d658cbe32b0aab45f2c2adf42f5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 23/38] fix: track the input variation reference of the same
 step

---
 include/mpc/LMPC/ProblemBuilder.hpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 7b6d79b..14e6a5f 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -566,21 +566,18 @@ namespace mpc
                 // step of the prediction horizon there is the current state of the system)
                 cvec<sizer.ny> yRef_ex;
                 cvec<sizer.nu> uRef_ex;
-                cvec<sizer.nu> deltaURef_ex;
                 cvec<sizer.ndu> uMeas_ex;
 
                 if (i == 0)
                 {
                     yRef_ex = yRef.col(0);
                     uRef_ex = uRef.col(0);
-                    deltaURef_ex = deltaURef.col(0);
                     uMeas_ex = uMeas.col(0);
                 }
                 else
                 {
                     yRef_ex = yRef.col(i - 1);
                     uRef_ex = uRef.col(i - 1);
-                    deltaURef_ex = deltaURef.col(i - 1);
                     uMeas_ex = uMeas.col(i - 1);
                 }
 
@@ -599,7 +596,7 @@ namespace mpc
                 {
                     mpcProblem.q.middleRows(
                         ((ph() + 1) * (nu() + nx())) + (i * nu()),
-                        nu()) = -(wDeltaU.col(i).asDiagonal() * deltaURef_ex);
+                        nu()) = -(wDeltaU.col(i).asDiagonal() * deltaURef.col(i));
                 }
 
                 // the first entry of the state evolution is the initial condition of the states
-- 
2.43.0


From 195a7e71ca4622048f17feb3f0383f5a51e9e5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 24/38] fix: the output feed-through uses the exogenous input
 of the same step

---
 include/mpc/LMPC/LOptimizer.hpp     |  5 +++--
 include/mpc/LMPC/ProblemBuilder.hpp | 10 +++++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 820d2b2..3f6b583 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -327,9 +327,10 @@ namespace mpc
                     }
 
                     // this just the state mapping together with the optional exogeneous input
-                    if (i == 0)
+                    // (after the end of the horizon the last one)
+                    if (i < ph())
                     {
-                        sequence.output.row(i) = builder->mapToOutput(sequence.state.row(i), extInputMeas.col(0));
+                        sequence.output.row(i) = builder->mapToOutput(sequence.state.row(i), extInputMeas.col(i));
                     }
                     else
                     {
diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 14e6a5f..bb1b9f1 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -566,7 +566,7 @@ namespace mpc
                 // step of the prediction horizon there is the current state of the system)
                 cvec<sizer.ny> yRef_ex;
                 cvec<sizer.nu> uRef_ex;
-                cvec<sizer.ndu> uMeas_ex;
+                cvec<sizer.ndu> uMeas_ex, uMeas_out;
 
                 if (i == 0)
                 {
@@ -581,6 +581,10 @@ namespace mpc
                     uMeas_ex = uMeas.col(i - 1);
                 }
 
+                // the output of a step sees the exogenous input of the same step
+                // (after the end of the horizon the last one)
+                uMeas_out = (i < ph()) ? uMeas.col(i) : uMeas.col(i - 1);
+
                 eRef << yRef_ex, uRef_ex;
 
                 wExtendedState.block(0, 0, ny(), ny()) = wOutput.col(i).asDiagonal();
@@ -589,7 +593,7 @@ namespace mpc
                     nu(), nu()) = wU.col(i).asDiagonal();
 
                 mpcProblem.q.middleRows(
-                    i * (nx() + nu()), nx() + nu()) = ssC.transpose() * wExtendedState * (-eRef + (ssDv * uMeas_ex));
+                    i * (nx() + nu()), nx() + nu()) = ssC.transpose() * wExtendedState * (-eRef + (ssDv * uMeas_out));
 
                 // the command increments stop at the last prediction horizon step
                 if (i < ph())
@@ -609,7 +613,7 @@ namespace mpc
                 // any contribution of the exogenous inputs on the output function
                 ineq_offset.middleRows(
                     (i * ny()) + ((ph() + 1) * (nu() + nx())),
-                    ny()) = -ssDv.block(0, 0, ny(), ndu()) * uMeas_ex;
+                    ny()) = -ssDv.block(0, 0, ny(), ndu()) * uMeas_out;
             }
 
             // state evolution depends on the initial condition and
-- 
2.43.0


From 5da2c3948c57f2207116b04f21d27ce4cd694758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 25/38] fix: exogenous inputs are given along the prediction
 horizon

---
 include/mpc/LMPC.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 16f0ff7..e25cab9 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -567,8 +567,8 @@ namespace mpc
             }
             else
             {
-                // Replicate on segment of the control horizon
-                if(isControlHorizonSliceValid(slice))
+                // Replicate on segment of the prediction horizon
+                if(isPredictionHorizonSliceValid(slice))
                 {
                     bool ret = true;
 
-- 
2.43.0


From bd57f184df9bea8cc631ef10d8f986e85fb52609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 26/38] fix: release each solver workspace once

---
 include/mpc/LMPC/LOptimizer.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 3f6b583..45ca04c 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -483,7 +483,11 @@ namespace mpc
          */
         void clearData()
         {
-            osqp_cleanup(work);
+            if (work)
+            {
+                osqp_cleanup(work);
+                work = nullptr;
+            }
 
             if (data)
             {
@@ -496,11 +500,13 @@ namespace mpc
                     csc_spfree(data->P);
                 }
                 c_free(data);
+                data = nullptr;
             }
 
             if (settings)
             {
                 c_free(settings);
+                settings = nullptr;
             }
         }
 
@@ -516,9 +522,9 @@ namespace mpc
             data->A = nullptr;
         }
 
-        OSQPWorkspace *work;
-        OSQPSettings *settings;
-        OSQPData *data;
+        OSQPWorkspace *work = nullptr;
+        OSQPSettings *settings = nullptr;
+        OSQPData *data = nullptr;
         c_int exitflag = 0;
 
         mat<sizer.ny, sizer.ph> outSysRef;
-- 
2.43.0


From 73c1c21d5a6cdac208791bcef66941e6101a68bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 27/38] fix: a solve without a solution reports it, keeps the
 command and the warm start vectors

---
 include/mpc/LMPC/LOptimizer.hpp | 76 +++++++++++++++++++++++++--------
 1 file changed, 58 insertions(+), 18 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 45ca04c..755ccd0 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -259,9 +259,13 @@ namespace mpc
 
             // setup workspace
             exitflag = osqp_setup(&work, data, settings);
-            if (exitflag > 0)
+            if (exitflag != 0 || work == NULL)
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "Unable to setup " << exitflag << std::endl;
+
+                failed(ResultStatus::ERROR, -1);
+                clearData();
+                return;
             }
 
             // warm starting the solver
@@ -289,7 +293,7 @@ namespace mpc
 
             // if the solution is valid update the solution otherwise
             // keep the last feasible solution
-            if (work->solution->x != NULL)
+            if (work->solution != NULL && work->solution->x != NULL && hasSolution(work->info->status_val))
             {
                 // storing the previous optimal primal and dual solution to warm start
                 optimal_prev_x = std::vector<double>(work->solution->x, work->solution->x + numVars);
@@ -345,25 +349,16 @@ namespace mpc
                 r.is_feasible = work->info->status_val == OSQP_SOLVED || work->info->status_val == OSQP_SOLVED_INACCURATE || work->info->status_val == OSQP_MAX_ITER_REACHED;
                 // convert the return code from the optimizer to the result status
                 r.status = convertToResultStatus(r.solver_status);
+
+                // update the result
+                result = r;
             }
             else
             {
-                // if the solution is not valid we keep the previous solution
-                // and we set the return code to -1
-                r.cost = mpc::inf;
-                r.cmd = result.cmd;
-                r.solver_status = -1;
-                r.status = ResultStatus::ERROR;
-
-                // in case of invalid solution we ouput all the sequences to zero
-                sequence.state.setZero();
-                sequence.input.setZero();
-                sequence.output.setZero();
+                // the solver says why there is no solution
+                failed(convertToResultStatus(work->info->status_val), work->info->status_val);
             }
 
-            // update the result
-            result = r;
-
             // clear the data to prepare for the next iteration
             clearData();
         }
@@ -373,6 +368,51 @@ namespace mpc
         std::vector<double> optimal_prev_x, optimal_prev_y;
 
     private:
+        /**
+         * @brief Tells if the solver ended with a solution. For the infeasible and the non
+         * convex problems it leaves a vector filled with NaN
+         *
+         * @param status The integer value representing the status.
+         * @return true
+         * @return false
+         */
+        bool hasSolution(int status) const
+        {
+            switch (status)
+            {
+            case OSQP_PRIMAL_INFEASIBLE:
+            case OSQP_PRIMAL_INFEASIBLE_INACCURATE:
+            case OSQP_DUAL_INFEASIBLE:
+            case OSQP_DUAL_INFEASIBLE_INACCURATE:
+            case OSQP_NON_CVX:
+                return false;
+            default:
+                return true;
+            }
+        }
+
+        /**
+         * @brief Store the result of a solve without a solution, the previous
+         * command is kept and all the sequences are set to zero
+         *
+         * @param status status of the result
+         * @param code return code of the solver
+         */
+        void failed(ResultStatus status, int code)
+        {
+            Result<sizer.nu> r;
+
+            r.cost = mpc::inf;
+            r.cmd = result.cmd;
+            r.solver_status = code;
+            r.status = status;
+            result = r;
+
+            sequence.state.setZero();
+            sequence.input.setZero();
+            sequence.output.setZero();
+        }
+
         /**
          * @brief Converts an integer value representing the possible statuses to the corresponding ResultStatus enum value.
          *
@@ -399,9 +439,9 @@ namespace mpc
             case OSQP_SOLVED_INACCURATE:
                 return ResultStatus::SUCCESS;
             case OSQP_PRIMAL_INFEASIBLE_INACCURATE:
-                return ResultStatus::SUCCESS;
+                return ResultStatus::INFEASIBLE;
             case OSQP_DUAL_INFEASIBLE_INACCURATE:
-                return ResultStatus::SUCCESS;
+                return ResultStatus::INFEASIBLE;
             case OSQP_SIGINT:
                 return ResultStatus::ERROR;
             case OSQP_TIME_LIMIT_REACHED:
-- 
2.43.0


From 1635c73ad849906a7858b14e1013ae590938f5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:54 +0000
Subject: [PATCH 28/38] fix: release the optimizer of the linear controllers

---
 include/mpc/LMPC.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index e25cab9..7c6265d 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -60,7 +60,14 @@ namespace mpc
             setDimension(nx, nu, ndu, ny, ph, ch);
         }
 
-        ~LMPC() = default;
+        ~LMPC()
+        {
+            // releasing the optimizer instance
+            if (optPtr != nullptr)
+            {
+                delete optPtr;
+            }
+        }
 
         /**
          * @brief (NOT AVAILABLE) Set the discretization time step to use for numerical integration
-- 
2.43.0


From df904d83ef75f2ac4d7683c04bfdb2c39664c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 29/38] fix: subtract a dimension from an integer in the right
 order

---
 include/mpc/Dim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/Dim.hpp b/include/mpc/Dim.hpp
index 52f5a26..91d64bc 100644
--- a/include/mpc/Dim.hpp
+++ b/include/mpc/Dim.hpp
@@ -96,7 +96,7 @@ namespace mpc
 
     constexpr Size operator-(const int &v, const Size &w)
     {
-        return Size(make_dimension(w.value - v, Size::is_static(w.value, v)));
+        return Size(make_dimension(v - w.value, Size::is_static(w.value, v)));
     }
 
     constexpr Size operator*(const int &v, const Size &w)
-- 
2.43.0


From a1ac75d78edda1c4ad8c81a76e2e6626876eea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 30/38] fix: advance the time between the steps of a multistep
 integration

---
 include/mpc/Integrator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mpc/Integrator.hpp b/include/mpc/Integrator.hpp
index 768bedc..280fd68 100644
--- a/include/mpc/Integrator.hpp
+++ b/include/mpc/Integrator.hpp
@@ -46,6 +46,7 @@ public:
             k4 = m_func(t + h, sol + h * k3);
 
             sol += h * (k1 + 2.0 * k2 + 2.0 * k3 + k4) / 6.0;
+            t += h;
         }
 
         return sol;
-- 
2.43.0


From 77dc4295304390a616ac7fd7677476d9353ed236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 31/38] fix: give the discretised feedthrough matrix its own
 size

---
 include/mpc/Utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/Utils.hpp b/include/mpc/Utils.hpp
index bf8541c..cf7c7bb 100644
--- a/include/mpc/Utils.hpp
+++ b/include/mpc/Utils.hpp
@@ -109,7 +109,7 @@ template <size_t nx, size_t nu, size_t ny>
 void discretization(
     const mat<nx, nx>& A, const mat<nx, nu>& B,
     const mat<ny, nx>& C, const mat<ny, nu>& D, const double& Ts,
-    mat<nx, nx>& Ad, mat<nx, nu>& Bd, mat<ny, nx>& Cd, mat<nx, nu>& Dd)
+    mat<nx, nx>& Ad, mat<nx, nu>& Bd, mat<ny, nx>& Cd, mat<ny, nu>& Dd)
 {
     // TODO this discretization works only with delay-free systems
     discretization<nx,nu>(A, B, Ts, Ad, Bd);
-- 
2.43.0


From 80f3751ec290ae37badc7965debf4d1c06e14a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 32/38] fix: python: export the matrix overload of
 setReferences (the slice overload was exported twice)

---
 python/pybind_export.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index 308cf90..c2fa1d2 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -119,7 +119,7 @@ void expose_LMPC(py::module &m)
         .def("setScalarConstraint", py::overload_cast<const double, const double, const Eigen::VectorXd, const Eigen::VectorXd, const mpc::HorizonSlice&>(&LMPCType::setScalarConstraint))
         .def("setExogenousInputs", py::overload_cast<const Eigen::MatrixXd &>(&LMPCType::setExogenousInputs))
         .def("setExogenousInputs", py::overload_cast<const Eigen::VectorXd &, const mpc::HorizonSlice&>(&LMPCType::setExogenousInputs))
-        .def("setReferences", py::overload_cast<const Eigen::VectorXd, const Eigen::VectorXd, const Eigen::VectorXd, const mpc::HorizonSlice&>(&LMPCType::setReferences))
+        .def("setReferences", py::overload_cast<const Eigen::MatrixXd, const Eigen::MatrixXd, const Eigen::MatrixXd>(&LMPCType::setReferences))
         .def("setReferences", py::overload_cast<const Eigen::VectorXd, const Eigen::VectorXd, const Eigen::VectorXd, const mpc::HorizonSlice&>(&LMPCType::setReferences));
 }
 
-- 
2.43.0


From e9ebc33566c0c9b7648e1e095c2d1867c791cf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 33/38] fix: python: export the feasibility flag of the result

---
 python/pybind_export.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index c2fa1d2..f027ed5 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -147,6 +147,7 @@ PYBIND11_MODULE(pympcxx, m)
         .def_readonly("solver_status_msg", &ResulType::solver_status_msg)
         .def_readonly("cost", &ResulType::cost)
         .def_readonly("cmd", &ResulType::cmd)
+        .def_readonly("is_feasible", &ResulType::is_feasible)
         .def_readonly("status", &ResulType::status);
 
     // export the solution stats struct to python
-- 
2.43.0


From 911ce8fe96dc26594cd2b34ec5d0a5169ecd6cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 34/38] fix: python: export the optimal sequence type
 (getOptimalSequence could not return it)

---
 python/pybind_export.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index f027ed5..bdbb0c4 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -150,6 +150,14 @@ PYBIND11_MODULE(pympcxx, m)
         .def_readonly("is_feasible", &ResulType::is_feasible)
         .def_readonly("status", &ResulType::status);
 
+    // export the optimal sequence struct to python
+    using SequenceType = mpc::OptSequence<Eigen::Dynamic, Eigen::Dynamic, Eigen::Dynamic, Eigen::Dynamic>;
+
+    py::class_<SequenceType>(m, "OptSequence")
+        .def_readonly("state", &SequenceType::state)
+        .def_readonly("output", &SequenceType::output)
+        .def_readonly("input", &SequenceType::input);
+
     // export the solution stats struct to python
     using StatsType = mpc::SolutionStats;
 
-- 
2.43.0


From 63f36fc56a8210ab496fcd0788715e8efdd8db11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 35/38] fix: python: export the optimizer parameters
 (setOptimizerParameters could not be called)

---
 python/pybind_export.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index bdbb0c4..3f2cf90 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -62,7 +62,7 @@ void expose_NLMPC(py::module &m)
         .def("setDiscretizationSamplingTime", &NLMPCType::setDiscretizationSamplingTime)
         .def("setInputScale", &NLMPCType::setInputScale)
         .def("setStateScale", &NLMPCType::setStateScale)
-        .def("setOptimizerParameters", &NLMPCType::setOptimizerParameters)
+        .def("setOptimizerParameters", [](NLMPCType &self, const mpc::NLParameters &param) { self.setOptimizerParameters(param); })
         .def("setLoggerLevel", &NLMPCType::setLoggerLevel)
         .def("setLoggerPrefix", &NLMPCType::setLoggerPrefix)
         .def("optimize", &NLMPCType::optimize)
@@ -93,7 +93,7 @@ void expose_LMPC(py::module &m)
     py::class_<LMPCType>(m, name.c_str())
         .def(py::init<const int &, const int &, const int &, const int &, const int &, const int &>())
         // methods from the IMPC class
-        .def("setOptimizerParameters", &LMPCType::setOptimizerParameters)
+        .def("setOptimizerParameters", [](LMPCType &self, const mpc::LParameters &param) { self.setOptimizerParameters(param); })
         .def("setLoggerLevel", &LMPCType::setLoggerLevel)
         .def("setLoggerPrefix", &LMPCType::setLoggerPrefix)
         .def("optimize", &LMPCType::optimize)
@@ -139,6 +139,33 @@ PYBIND11_MODULE(pympcxx, m)
         .value("NONE", mpc::Logger::log_level::NONE)
         .export_values();
 
+    // export the optimizer parameters to python
+    py::class_<mpc::NLParameters>(m, "NLParameters")
+        .def(py::init<>())
+        .def_readwrite("maximum_iteration", &mpc::NLParameters::maximum_iteration)
+        .def_readwrite("time_limit", &mpc::NLParameters::time_limit)
+        .def_readwrite("enable_warm_start", &mpc::NLParameters::enable_warm_start)
+        .def_readwrite("relative_ftol", &mpc::NLParameters::relative_ftol)
+        .def_readwrite("relative_xtol", &mpc::NLParameters::relative_xtol)
+        .def_readwrite("absolute_ftol", &mpc::NLParameters::absolute_ftol)
+        .def_readwrite("absolute_xtol", &mpc::NLParameters::absolute_xtol)
+        .def_readwrite("hard_constraints", &mpc::NLParameters::hard_constraints);
+
+    py::class_<mpc::LParameters>(m, "LParameters")
+        .def(py::init<>())
+        .def_readwrite("maximum_iteration", &mpc::LParameters::maximum_iteration)
+        .def_readwrite("time_limit", &mpc::LParameters::time_limit)
+        .def_readwrite("enable_warm_start", &mpc::LParameters::enable_warm_start)
+        .def_readwrite("alpha", &mpc::LParameters::alpha)
+        .def_readwrite("rho", &mpc::LParameters::rho)
+        .def_readwrite("eps_rel", &mpc::LParameters::eps_rel)
+        .def_readwrite("eps_abs", &mpc::LParameters::eps_abs)
+        .def_readwrite("eps_prim_inf", &mpc::LParameters::eps_prim_inf)
+        .def_readwrite("eps_dual_inf", &mpc::LParameters::eps_dual_inf)
+        .def_readwrite("verbose", &mpc::LParameters::verbose)
+        .def_readwrite("adaptive_rho", &mpc::LParameters::adaptive_rho)
+        .def_readwrite("polish", &mpc::LParameters::polish);
+
     // export the result struct to python
     using ResulType = mpc::Result<Eigen::Dynamic>;
 
-- 
2.43.0


From 7c044107aff2c7a7c07c442956e7974c93d395ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 36/38] fix: python: setOutputFunction(None) removes the output
 function instead of failing every solve

---
 python/pybind_export.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index 3f2cf90..0960dec 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -29,6 +29,12 @@ void expose_NLMPC(py::module &m)
     using OutputFunc = StateSpaceFunc;
     auto outputFuncWrapper = [](NLMPCType &self, OutputFunc impl)
     {
+        // no function means no output, as for the C++ interface
+        if (!impl)
+        {
+            return self.setOutputFunction(nullptr);
+        }
+
         return self.setOutputFunction([impl](Eigen::VectorXd &y, const Eigen::VectorXd &x, const Eigen::VectorXd &u, const unsigned int &k)
         { 
             // invoke the python function and assign the result to reference value
-- 
2.43.0


From c92b49361eaf7fc87accc9d95684e7e70c946749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 37/38] fix: python: the tolerances of the constraint functions
 are optional, as for the C++ interface

---
 python/pybind_export.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/pybind_export.cpp b/python/pybind_export.cpp
index 0960dec..259b715 100644
--- a/python/pybind_export.cpp
+++ b/python/pybind_export.cpp
@@ -84,10 +84,10 @@ void expose_NLMPC(py::module &m)
         .def("setOutputBounds", py::overload_cast<const Eigen::VectorXd &, const Eigen::VectorXd &, const mpc::HorizonSlice &>(&NLMPCType::setOutputBounds))
         // methods from the NLMPC class
         .def("setObjectiveFunction", &NLMPCType::setObjectiveFunction)
-        .def("setStateSpaceFunction", stateSpaceFuncWrapper)
+        .def("setStateSpaceFunction", stateSpaceFuncWrapper, py::arg("impl"), py::arg("tol") = 1e-10)
         .def("setOutputFunction", outputFuncWrapper)
-        .def("setIneqConFunction", ineqConFuncWrapper)
-        .def("setEqConFunction", eqConFuncWrapper);
+        .def("setIneqConFunction", ineqConFuncWrapper, py::arg("impl"), py::arg("tol") = 1e-10)
+        .def("setEqConFunction", eqConFuncWrapper, py::arg("impl"), py::arg("tol") = 1e-10);
 }
 
 template <int Tnx, int Tnu, int Tndu, int Tny, int Tph, int Tch>
-- 
2.43.0


From 0a42b7b208c9f8fa908f5a075f530e3982e2bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:14 +0000
Subject: [PATCH 38/38] fix: print the total time with the precision of the
 other times

---
 include/mpc/Profiler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mpc/Profiler.hpp b/include/mpc/Profiler.hpp
index c1eeed2..3d12c47 100644
--- a/include/mpc/Profiler.hpp
+++ b/include/mpc/Profiler.hpp
@@ -107,6 +107,7 @@ namespace mpc
             }
 
             os << "Total time and number of solutions:" << std::endl;
+            os << std::fixed << std::setprecision(6);
             os << "  - tot: " << stats.totalSolutionTime.count() << " s" << std::endl;
             os << "  - num: " << stats.numberOfSolutions << std::endl;
 
-- 
2.43.0

