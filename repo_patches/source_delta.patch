From 584ca374291dfbc109729f13ec46974ee6bf5de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:16 +0000
Subject: [PATCH 01/71] fix: converting a set of points to genotype did not
 compile without bounds

---
 include/libcmaes/noboundstrategy.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libcmaes/noboundstrategy.h b/include/libcmaes/noboundstrategy.h
index 6cefa6b..8bb5da9 100644
--- a/include/libcmaes/noboundstrategy.h
+++ b/include/libcmaes/noboundstrategy.h
@@ -56,6 +56,11 @@ namespace libcmaes
       (void)y;
     }
 
+    void to_internal_representation(dVec &x, const dVec &y) const
+    {
+      x = y;
+    }
+
     void remove_dimensions(const std::vector<int> &k)
     {
       (void)k;
-- 
2.43.0


From 607944835f8ec8320c0a165f536741d3a4f24199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:55 +0000
Subject: [PATCH 02/71] fix: genotype of a point under scaling and a custom
 transform was uninitialised

---
 include/libcmaes/genopheno.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index 7c1b4ef..3f8c9b6 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -311,7 +311,7 @@ namespace libcmaes
       else
 	{
 	  dVec ncandidate(candidate.rows());
-	  _genof(scand.data(),scand.data(),candidate.rows());
+	  _genof(scand.data(),ncandidate.data(),candidate.rows());
 	  return ncandidate;
 	}
     }
-- 
2.43.0


From 2cd66151c245da3ffb9b051aecd40f321516d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:55 +0000
Subject: [PATCH 03/71] fix: points far outside the bounds were shifted out of
 the box by an integer overflow

---
 src/pwq_bound_strategy.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index 5fb94c7..9d250d0 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -27,6 +27,7 @@
 
 #include <libcmaes/pwq_bound_strategy.h>
 #include <libcmaes/llogging.h>
+#include <cmath>
 #include <limits>
 #include <iostream>
 
@@ -97,9 +98,9 @@ namespace libcmaes
     for (int i=0;i<x.rows();i++) //TODO: vectorize ?
       {
 	if (x_s[i] < _xlow[i])
-	  x_s[i] += _r[i] * (1.0 + static_cast<int>((_xlow[i]-x_s[i])/_r[i])); // shift up.
+	  x_s[i] = _xup[i] - std::fmod(_xlow[i]-x_s[i],_r[i]); // shift up by a multiple of r = xup - xlow.
 	if (x_s[i] > _xup[i])
-	  x_s[i] -= _r[i] * (1.0 + static_cast<int>((x_s[i]-_xup[i])/_r[i])); // shift down;
+	  x_s[i] = _xlow[i] + std::fmod(x_s[i]-_xup[i],_r[i]); // shift down by a multiple of r;
 	if (x_s[i] < _lbounds[i] - _al[i])
 	  x_s[i] += 2.0 * (_lbounds[i] - _al[i] - x_s[i]);
 	if (x_s[i] > _ubounds[i] + _au[i])
-- 
2.43.0


From b6d56ca7711abfd9fcc833f12265594595c589d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:55 +0000
Subject: [PATCH 04/71] fix: dropping several bounded dimensions removed the
 wrong ones

---
 src/pwq_bound_strategy.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index 9d250d0..ec4fc5f 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -27,7 +27,9 @@
 
 #include <libcmaes/pwq_bound_strategy.h>
 #include <libcmaes/llogging.h>
+#include <algorithm>
 #include <cmath>
+#include <functional>
 #include <limits>
 #include <iostream>
 
@@ -127,7 +129,9 @@ namespace libcmaes
 
   void pwqBoundStrategy::remove_dimensions(const std::vector<int> &k)
   {
-    for (const int i: k)
+    std::vector<int> sk(k); // from last to first, so that remaining indexes stay valid.
+    std::sort(sk.begin(),sk.end(),std::greater<int>());
+    for (const int i: sk)
       {
 	removeElement(_lbounds,i);
 	removeElement(_ubounds,i);
-- 
2.43.0


From 5323f40f7c8966f045d965ab3e7ff4dbab9277c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:55 +0000
Subject: [PATCH 05/71] fix: dropping several scaled dimensions removed the
 wrong ones

---
 include/libcmaes/scaling.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/libcmaes/scaling.h b/include/libcmaes/scaling.h
index 86aedb1..1641c1e 100644
--- a/include/libcmaes/scaling.h
+++ b/include/libcmaes/scaling.h
@@ -28,8 +28,11 @@
 #define LSCALING_H
 
 #include <libcmaes/eo_matrix.h>
+#include <algorithm>
+#include <functional>
 #include <limits>
 #include <iostream>
+#include <vector>
 
 namespace libcmaes
 {
@@ -136,7 +139,9 @@ namespace libcmaes
 
     void remove_dimensions(const std::vector<int> &k)
     {
-      for (const int i: k)
+      std::vector<int> sk(k); // from last to first, so that remaining indexes stay valid.
+      std::sort(sk.begin(),sk.end(),std::greater<int>());
+      for (const int i: sk)
 	{
 	  removeElement(_scaling,i);
 	  removeElement(_shift,i);
-- 
2.43.0


From 608554b5ae084dc49453c3b656b54151c69712be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:55 +0000
Subject: [PATCH 06/71] fix: user-space bounds were those of the internal space
 with a scaling vector

---
 include/libcmaes/genopheno.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index 3f8c9b6..ca99c2d 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -358,7 +358,7 @@ namespace libcmaes
       dVec nlbounds, nubounds;
       _scalingstrategy.scale_to_internal(nlbounds,vlbounds);
       _scalingstrategy.scale_to_internal(nubounds,vubounds);
-      _boundstrategy = pwqBoundStrategy(nlbounds.data(),nubounds.data(),scaling.size());
+      _boundstrategy = pwqBoundStrategy(nlbounds.data(),nubounds.data(),lbounds,ubounds,scaling.size());
     }
 }
 
-- 
2.43.0


From f5fca1dddf1361276df7a131a1bd90ee7d7856a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:27 +0000
Subject: [PATCH 07/71] fix: contour output operator was defined in every unit
 including errstats.h

---
 include/libcmaes/contour.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/contour.h b/include/libcmaes/contour.h
index 19f4753..caea115 100644
--- a/include/libcmaes/contour.h
+++ b/include/libcmaes/contour.h
@@ -85,7 +85,7 @@ namespace libcmaes
     std::vector<std::pair<double,double>> _points;
   };
 
-  std::ostream& operator<<(std::ostream &out, const contour &c)
+  inline std::ostream& operator<<(std::ostream &out, const contour &c)
     {
       c.print(out);
       return out;
-- 
2.43.0


From 981ba0a2bba4a5d6abf8e289cc20e498ca74ffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:21 +0000
Subject: [PATCH 08/71] fix: numerical gradient used the wrong bounds under
 scaling and a wrong step at the upper bound

---
 src/esostrategy.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 0c570c1..ffbecd6 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -175,8 +175,10 @@ namespace libcmaes
       {
 	dVec ei1 = x;
 	ei1(i,0) += epsilon(i);
-	ei1(i,0) = std::min(ei1(i,0),_parameters.get_gp().get_boundstrategy_ref().getUBound(i));
-	double gradi = (_func(ei1.data(),_parameters._dim) - fx)/epsilon(i);
+	if (ei1(i,0) > _parameters._gp.get_boundstrategy_ref().getPhenoUBound(i)) // x is in phenotype, step backward at upper bound.
+	  ei1(i,0) = std::max(x(i)-epsilon(i),_parameters._gp.get_boundstrategy_ref().getPhenoLBound(i));
+	double h = ei1(i,0) - x(i);
+	double gradi = h != 0.0 ? (_func(ei1.data(),_parameters._dim) - fx)/h : 0.0;
 	vgradf(i,0) = gradi;
       }
     update_fevals(_parameters._dim+1); // numerical gradient increases the budget.
-- 
2.43.0


From 1aca827a8e6b4833151dcbcc632d661657848694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:16 +0000
Subject: [PATCH 09/71] fix: uncertainty handling evaluated points outside the
 bounds and moved fixed parameters

---
 src/esostrategy.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index ffbecd6..222aec5 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -350,13 +350,15 @@ namespace libcmaes
 	  _solutions._lambda_reev = 1;
 	
 	// mutate candidates.
-	if (phenocandidates.size())
-	  candidates_uh = phenocandidates.block(0,0,phenocandidates.rows(),_solutions._lambda_reev);
-	else candidates_uh = candidates.block(0,0,candidates.rows(),_solutions._lambda_reev);
+	candidates_uh = candidates.block(0,0,candidates.rows(),_solutions._lambda_reev);
 	if (_solutions._sepcov.size())
 	  _uhesolver.set_covar(_solutions._sepcov);
 	else _uhesolver.set_covar(_solutions._cov);
 	candidates_uh += _parameters._epsuh * _solutions._sigma * _uhesolver.samples_ind(_solutions._lambda_reev);
+	for (auto it=_parameters._fixed_p.begin();it!=_parameters._fixed_p.end();++it) // fixed parameters do not move.
+	  candidates_uh.row((*it).first) = candidates.row((*it).first).head(candidates_uh.cols());
+	if (phenocandidates.size())
+	  candidates_uh = _parameters._gp.pheno(candidates_uh);
 	}
 
   template<class TParameters,class TSolutions,class TStopCriteria>
-- 
2.43.0


From 7f5439010c4a72ccec6f44647a9b953c76b7a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:16 +0000
Subject: [PATCH 10/71] fix: uncertainty handling compared rank sums with a
 typo, giving no valid order

---
 src/esostrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 222aec5..5b68c8c 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -300,7 +300,7 @@ namespace libcmaes
 	      [lreev,meandelta](RankedCandidate const &c1, RankedCandidate const &c2)
 	      { 
 		int s1 = c1._r1 + c1._r2;
-		int s2 = c2._r2 + c2._r2;
+		int s2 = c2._r1 + c2._r2;
 		if (s1 == s2)
 		  {
 		    if (c1._delta == c2._delta)
-- 
2.43.0


From 2f7e07c00e4215faa892bef8cf40a645d1c5fd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:16 +0000
Subject: [PATCH 11/71] fix: uncertainty handling ignored the seed

---
 src/esostrategy.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 5b68c8c..9647389 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -52,8 +52,7 @@ namespace libcmaes
     _solutions = TSolutions(_parameters);
     if (parameters._uh)
       {
-	std::random_device rd;
-	_uhgen = std::mt19937(rd());
+	_uhgen = std::mt19937(_parameters._seed);
 	_uhunif = std::uniform_real_distribution<>(0,1);
       }
   }
@@ -68,8 +67,7 @@ namespace libcmaes
     start_from_solution(solutions);
     if (parameters._uh)
       {
-	std::random_device rd;
-	_uhgen = std::mt19937(rd());
+	_uhgen = std::mt19937(_parameters._seed);
 	_uhunif = std::uniform_real_distribution<>(0,1);
       }
   }
-- 
2.43.0


From 70f5a2283872b0fbfc595acd1c373487ed1f1de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:16 +0000
Subject: [PATCH 12/71] fix: expected distance to minimum was not the norm of
 the gradient in the metric of the covariance, and crashed with VD-CMA

---
 src/esostrategy.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 9647389..2265298 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -198,9 +198,15 @@ namespace libcmaes
     dVec gradff = gradf(_parameters._gp.pheno(_solutions._xmean));
     dVec gradgpf = gradgp(_solutions._xmean);
     gradff = gradff.cwiseProduct(gradgpf);
-    dMat gradmn;
-    if (!_parameters._sep)
-      gradmn = _solutions._leigenvectors*_solutions._leigenvalues.cwiseSqrt().asDiagonal() * gradff;
+    dVec gradmn;
+    if (_parameters._vd)
+      {
+	dVec dg = _solutions._sepcov.cwiseProduct(gradff); // C = D(I+vv')D
+	gradmn = dVec(n+1);
+	gradmn << dg, _solutions._v.dot(dg);
+      }
+    else if (!_parameters._sep)
+      gradmn = _solutions._leigenvalues.cwiseSqrt().asDiagonal() * (_solutions._leigenvectors.transpose() * gradff);
     else gradmn = _solutions._sepcov.cwiseSqrt().cwiseProduct(gradff);
     double gradn = _solutions._sigma * gradmn.norm();
     edm *= gradn;
-- 
2.43.0


From da3ce4c58d82eca6d20ddcb11cd844488d57a5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:41 +0000
Subject: [PATCH 13/71] fix: seed zero was taken as a seed instead of asking
 for a fresh one

---
 include/libcmaes/parameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/parameters.h b/include/libcmaes/parameters.h
index be42b04..a0ea93d 100644
--- a/include/libcmaes/parameters.h
+++ b/include/libcmaes/parameters.h
@@ -276,7 +276,7 @@ namespace libcmaes
        */
       void set_seed(const int &seed)
       {
-	if (_seed == 0)
+	if (seed == 0)
 	  _seed = static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count());
 	else _seed = seed;
       }
-- 
2.43.0


From 64347012d73bb8f5d1f69f4768d66a3253be333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:41 +0000
Subject: [PATCH 14/71] fix: freezing a parameter again did not replace its
 value

---
 include/libcmaes/parameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/parameters.h b/include/libcmaes/parameters.h
index a0ea93d..f8e7192 100644
--- a/include/libcmaes/parameters.h
+++ b/include/libcmaes/parameters.h
@@ -194,7 +194,7 @@ namespace libcmaes
        */
       void set_fixed_p(const int &index, const double &value)
       {
-	_fixed_p.insert(std::pair<int,double>(index,value));
+	_fixed_p[index] = value;
       }
       
       /**
-- 
2.43.0


From f582201391ed2ebe56889db0b2c38d7f115edbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:41 +0000
Subject: [PATCH 15/71] fix: a stopping criterion could be switched only once

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index da9f038..06d96ca 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -270,7 +270,7 @@ namespace libcmaes
       inline void set_stopping_criteria(const int &criteria,
 					const bool &active)
       {
-	_stoppingcrit.insert(std::pair<int,bool>(criteria,active));
+	_stoppingcrit[criteria] = active;
       }
 
       /**
-- 
2.43.0


From 2facdd0e359ac371d14c7586575ce8ba7fc4d5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:41 +0000
Subject: [PATCH 16/71] fix: elitism could not be switched off

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 06d96ca..52ad309 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -243,7 +243,7 @@ namespace libcmaes
       inline void set_elitism(const int &e)
       {
 	if (e == 0)
-	  _elitist = _initial_elitist = _initial_elitist_on_restart;
+	  _elitist = _initial_elitist = _initial_elitist_on_restart = false;
 	else if (e == 1)
 	  {
 	    _elitist = true;
-- 
2.43.0


From 4db77ffde000afeee4e7a9db12b3d3f33aa336b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:41 +0000
Subject: [PATCH 17/71] fix: algorithm names sepaipop and sepabipop were
 unknown

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 52ad309..17af439 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -328,7 +328,7 @@ namespace libcmaes
     };
 
   template<class TGenoPheno>
-    std::map<std::string,int> Parameters<TGenoPheno>::_algos = {{"cmaes",0},{"ipop",1},{"bipop",2},{"acmaes",3},{"aipop",4},{"abipop",5},{"sepcmaes",6},{"sepipop",7},{"sepbipop",8},{"sepacmaes",9},{"sepipop",10},{"sepbipop",11},{"vdcma",12},{"vdipopcma",13},{"vdbipopcma",14}};
+    std::map<std::string,int> Parameters<TGenoPheno>::_algos = {{"cmaes",0},{"ipop",1},{"bipop",2},{"acmaes",3},{"aipop",4},{"abipop",5},{"sepcmaes",6},{"sepipop",7},{"sepbipop",8},{"sepacmaes",9},{"sepaipop",10},{"sepabipop",11},{"vdcma",12},{"vdipopcma",13},{"vdbipopcma",14}};
 }
 
 #endif
-- 
2.43.0


From 0b9efed5de13cf5d56a6970c8fc50bc47b4e95b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:41 +0000
Subject: [PATCH 18/71] fix: a covariance with a null eigenvalue led to NaN
 candidates

---
 src/cmastopcriteria.cc | 2 +-
 src/cmastrategy.cc     | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cmastopcriteria.cc b/src/cmastopcriteria.cc
index 89310a9..5e95d81 100644
--- a/src/cmastopcriteria.cc
+++ b/src/cmastopcriteria.cc
@@ -214,7 +214,7 @@ namespace libcmaes
       {
 	static double bound = 1e14;
 	double kappa = cmas._max_eigenv / cmas._min_eigenv;
-	if (kappa > bound)
+	if (kappa > bound || cmas._min_eigenv <= 0.0)
 	  {
 	    LOG_IF(INFO,!cmap._quiet) << "stopping criteria conditionCov => min eigenv=" << cmas._min_eigenv << " / max eigenv=" << cmas._max_eigenv << " / kappa=" << kappa << std::endl;
 	    return CONDITIONCOV;
diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index cc8814c..bc2a593 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -226,13 +226,15 @@ namespace libcmaes
 	dVec mean_shift = eostrat<TGenoPheno>::_solutions._xmean - eostrat<TGenoPheno>::_solutions._xmean_prev;
 	double mean_shift_norm = 1.0;
 	if (!eostrat<TGenoPheno>::_parameters._sep && !eostrat<TGenoPheno>::_parameters._vd)
-	  mean_shift_norm = (_esolver._eigenSolver.eigenvalues().cwiseSqrt().cwiseInverse().cwiseProduct(_esolver._eigenSolver.eigenvectors().transpose()*mean_shift)).norm() / eostrat<TGenoPheno>::_solutions._sigma;
+	  mean_shift_norm = (_esolver._eigenSolver.eigenvalues().cwiseMax(std::numeric_limits<double>::min()).cwiseSqrt().cwiseInverse().cwiseProduct(_esolver._eigenSolver.eigenvectors().transpose()*mean_shift)).norm() / eostrat<TGenoPheno>::_solutions._sigma;
 	else mean_shift_norm = eostrat<TGenoPheno>::_solutions._sepcov.cwiseSqrt().cwiseInverse().cwiseProduct(mean_shift).norm() / eostrat<TGenoPheno>::_solutions._sigma;
 	//std::cout << "mean_shift_norm=" << mean_shift_norm << " / sqrt(N)=" << std::sqrt(std::sqrt(eostrat<TGenoPheno>::_parameters._dim)) << std::endl;
 
 	dMat rz = _esolver.samples_ind(1);
 	double mfactor = rz.norm();
-	dVec z = mfactor * (mean_shift / mean_shift_norm);
+	if (mean_shift_norm > 0.0) // the mean may not have moved.
+	  mean_shift /= mean_shift_norm;
+	dVec z = mfactor * mean_shift;
 	eostrat<TGenoPheno>::_solutions._tpa_x1 = eostrat<TGenoPheno>::_solutions._xmean + z;
 	eostrat<TGenoPheno>::_solutions._tpa_x2 = eostrat<TGenoPheno>::_solutions._xmean - z;
 	
-- 
2.43.0


From 235dff7d09258e3de32de6b9a397d08d1ed7a61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:41 +0000
Subject: [PATCH 19/71] fix: TolX never triggered on convergence, the step-size
 ratio was on the wrong side

---
 src/cmastopcriteria.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cmastopcriteria.cc b/src/cmastopcriteria.cc
index 5e95d81..10b4cd7 100644
--- a/src/cmastopcriteria.cc
+++ b/src/cmastopcriteria.cc
@@ -166,16 +166,15 @@ namespace libcmaes
       {
 	double tolx = std::max(cmap._xtol,1e-12);
 	double factor = cmas._sigma / cmap._sigma_init;
-	double tfactor = tolx * factor;
 	// test1: all components of pc . factor < tolx.
 	for (int i=0;i<cmas._pc.rows();i++)
-	  if (cmas._pc[i]>=tfactor)
+	  if (fabs(cmas._pc[i])*factor>=tolx)
 	    return CONT;
 	//test 2: all square root components of cov . factor < tolx.
 	int covrows = std::max(cmas._cov.rows(),cmas._sepcov.rows());
 	for (int i=0;i<covrows;i++)
-	  if ((!cmap._sep && !cmap._vd && sqrt(cmas._cov(i,i))>=tfactor)
-	      || ((cmap._sep || cmap._vd) && sqrt(cmas._sepcov(i))>=tfactor))
+	  if ((!cmap._sep && !cmap._vd && sqrt(cmas._cov(i,i))*factor>=tolx)
+	      || ((cmap._sep || cmap._vd) && sqrt(cmas._sepcov(i))*factor>=tolx))
 	    return CONT;
 	LOG_IF(INFO,!cmap._quiet) << "stopping criteria tolX\n";
 	return TOLX;
-- 
2.43.0


From 0e0e8a3e91f53e5f0861afb124b455d2d4ec5d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:04 +0000
Subject: [PATCH 20/71] fix: restarting from a known point applied linear
 scaling to it twice

---
 include/libcmaes/esostrategy.h | 4 +++-
 src/cmastrategy.cc             | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/esostrategy.h b/include/libcmaes/esostrategy.h
index 5bd1aa4..77b74d0 100644
--- a/include/libcmaes/esostrategy.h
+++ b/include/libcmaes/esostrategy.h
@@ -153,7 +153,9 @@ namespace libcmaes
      */
     void start_from_solution(const TSolutions &sol)
     {
-      _parameters.set_x0(sol.best_candidate().get_x_dvec());
+      dVec x0; // initial point is given before scaling.
+      _parameters._gp.get_scalingstrategy().scale_to_f(sol.best_candidate().get_x_dvec(),x0);
+      _parameters.set_x0(x0);
       _solutions = sol;
       _solutions.reset();
     }
diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index bc2a593..315ea9c 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -377,7 +377,9 @@ namespace libcmaes
 	    this->set_initial_elitist(true);
 
 	    // reinit solution and re-optimize.
-	    eostrat<TGenoPheno>::_parameters.set_x0(eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_x_dvec_ref());
+	    dVec x0; // initial point is given before scaling.
+	    eostrat<TGenoPheno>::_parameters._gp.get_scalingstrategy().scale_to_f(eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_x_dvec_ref(),x0);
+	    eostrat<TGenoPheno>::_parameters.set_x0(x0);
 	    eostrat<TGenoPheno>::_solutions = CMASolutions(eostrat<TGenoPheno>::_parameters);
 	    eostrat<TGenoPheno>::_solutions._nevals = eostrat<TGenoPheno>::_nevals;
 	    eostrat<TGenoPheno>::_niter = 0;
-- 
2.43.0


From 93cfd73b798f4a01a707fb1388e53c8df27164cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:04 +0000
Subject: [PATCH 21/71] fix: elitist restart dropped custom ask, eval and tell
 functions

---
 src/cmastrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 315ea9c..7e2dd31 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -383,7 +383,7 @@ namespace libcmaes
 	    eostrat<TGenoPheno>::_solutions = CMASolutions(eostrat<TGenoPheno>::_parameters);
 	    eostrat<TGenoPheno>::_solutions._nevals = eostrat<TGenoPheno>::_nevals;
 	    eostrat<TGenoPheno>::_niter = 0;
-	    optimize();
+	    optimize(evalf,askf,tellf);
 	  }
       }
     
-- 
2.43.0


From a731c326198df44f130696a5d78d066e0c0e69de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:06 +0000
Subject: [PATCH 22/71] fix: a degenerate covariance led to a NaN gradient
 candidate

---
 src/cmastrategy.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 7e2dd31..57a0b2c 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -213,7 +213,9 @@ namespace libcmaes
 		dMat sqrtcov = _esolver._eigenSolver.operatorSqrt();
 		dVec q = sqrtcov * grad_at_mean;
 		double normq = q.squaredNorm();
-		nx = eostrat<TGenoPheno>::_solutions._xmean - eostrat<TGenoPheno>::_solutions._sigma * (sqrt(eostrat<TGenoPheno>::_parameters._dim / normq)) * eostrat<TGenoPheno>::_solutions._cov * grad_at_mean;
+		nx = eostrat<TGenoPheno>::_solutions._xmean;
+		if (normq > 0.0) // the covariance may be degenerate.
+		  nx -= eostrat<TGenoPheno>::_solutions._sigma * (sqrt(eostrat<TGenoPheno>::_parameters._dim / normq)) * eostrat<TGenoPheno>::_solutions._cov * grad_at_mean;
 	      }
 	    else nx = eostrat<TGenoPheno>::_solutions._xmean - eostrat<TGenoPheno>::_solutions._sigma * (sqrt(eostrat<TGenoPheno>::_parameters._dim) / ((eostrat<TGenoPheno>::_solutions._sepcov.cwiseSqrt().cwiseProduct(grad_at_mean)).norm())) * eostrat<TGenoPheno>::_solutions._sepcov.cwiseProduct(grad_at_mean);
 	    pop.col(0) = nx;
-- 
2.43.0


From 0ccd103a5d38e979c4ca60ef71529c389fdc8fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:46 +0000
Subject: [PATCH 23/71] fix: strategy constants of the selected variant were
 lost on restarts and depended on the order of settings

---
 include/libcmaes/cmaparameters.h |  4 ++-
 src/cmaparameters.cc             | 57 ++++++++++++++++++++------------
 2 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 17af439..a764aaa 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -284,7 +284,7 @@ namespace libcmaes
        * \brief sets dsigma value, use with care.
        * @param d dsigma
        */
-      void set_tpa_dsigma(const double &d) { _dsigma = d; }
+      void set_tpa_dsigma(const double &d) { _dsigma = _tpa_dsigma = d; }
       
     private:
       int _mu; /**< number of candidate solutions used to update the distribution parameters. */
@@ -318,6 +318,8 @@ namespace libcmaes
       // sep cma (diagonal cov).
       bool _sep = false; /**< whether to use diagonal covariance matrix. */
       bool _vd = false;
+      bool _noisy = false; /**< whether set for a noisy objective function. */
+      double _tpa_dsigma = -1.0; /**< step size damping factor set by user, if positive. */
       
       bool _elitist = false; /**< re-inject the best-ever seen solution. */
       bool _initial_elitist = false; /**< re-inject x0. */
diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 9565984..129248f 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -98,16 +98,41 @@ namespace libcmaes
     _c1 = 2.0/(pow((Parameters<TGenoPheno>::_dim+1.3),2)+_muw);
     _cmu = 2.0*(_muw-2.0+1.0/_muw)/(pow(Parameters<TGenoPheno>::_dim+2.0,2)+_muw);
     _cmu = std::min(1.0-_c1,_cmu);
+
+    // constants of the selected variants.
+    if (_noisy)
+      {
+	static double factor = 0.2;
+	_c1 *= factor;
+	_cmu = std::min(1.0-_c1,2.0*factor*(_muw-2.0+1.0/_muw)/(pow(Parameters<TGenoPheno>::_dim+2.0,2)+_muw));
+      }
+    if (_sep)
+      {
+	_c1 *= (Parameters<TGenoPheno>::_dim+2.0)/3.0;
+	_cmu = std::min(1.0-_c1,(0.3 + _muw - 2.0 + 1.0/_muw) / (this->_dim + 4.0*std::sqrt(this->_dim) + _muw/2.0));
+	_cc = (1.0+1.0/static_cast<double>(Parameters<TGenoPheno>::_dim) + _muw/static_cast<double>(Parameters<TGenoPheno>::_dim))/(std::sqrt(Parameters<TGenoPheno>::_dim)+1.0/static_cast<double>(Parameters<TGenoPheno>::_dim)+2.0*_muw/static_cast<double>(Parameters<TGenoPheno>::_dim));
+      }
+    if (_vd)
+      {
+	_csigma = std::sqrt(_muw)/(2.0*(std::sqrt(Parameters<TGenoPheno>::_dim) + std::sqrt(_muw)));
+	_c1 *= (Parameters<TGenoPheno>::_dim-5)/6.0;
+	_cmu = std::min(1.0-_c1,(Parameters<TGenoPheno>::_dim-5)/6.0*(2.0*(_muw-2.0+1.0/_muw)/(pow(Parameters<TGenoPheno>::_dim+2.0,2)+_muw)));
+      }
     
-    _dsigma = 1.0+_csigma+2.0*std::max(0.0,sqrt((_muw-1)/(Parameters<TGenoPheno>::_dim+1))-1);
+    if (_tpa_dsigma > 0.0)
+      _dsigma = _tpa_dsigma;
+    else if (this->_tpa == 2)
+      _dsigma = 4 - 3.6 / std::sqrt(Parameters<TGenoPheno>::_dim);
+    else _dsigma = 1.0+_csigma+2.0*std::max(0.0,sqrt((_muw-1)/(Parameters<TGenoPheno>::_dim+1))-1);
     
     // constants used in covariance update.
     _fact_ps = sqrt(_csigma*(2.0-_csigma)*_muw);
     _fact_pc = sqrt(_cc * (2.0 - _cc) * _muw);
     
-    _chi = sqrt(static_cast<double>(Parameters<TGenoPheno>::_dim))*(1.0-1.0/(4.0*Parameters<TGenoPheno>::_dim) + 1.0/(21.0*Parameters<TGenoPheno>::_dim*Parameters<TGenoPheno>::_dim));
+    double ndim = Parameters<TGenoPheno>::_dim-Parameters<TGenoPheno>::_fixed_p.size();
+    _chi = sqrt(ndim)*(1.0-1.0/(4.0*ndim) + 1.0/(21.0*ndim*ndim));
     
-    _lazy_value = 1.0/(_c1+_cmu)/Parameters<TGenoPheno>::_dim/10.0;
+    _lazy_value = 1.0/(_c1+_cmu)/ndim/10.0;
 
     // active cma.
     _deltamaxsigma = std::numeric_limits<double>::max();
@@ -120,23 +145,19 @@ namespace libcmaes
   template <class TGenoPheno>
   void CMAParameters<TGenoPheno>::set_noisy()
   {
-    static double factor = 0.2;
     static double lfactor = 5.0; // lambda factor.
-    Parameters<TGenoPheno>::_lambda *= lfactor;
+    if (!_noisy)
+      Parameters<TGenoPheno>::_lambda *= lfactor;
+    _noisy = true;
     initialize_parameters(); // reinit parameters.
-    _c1 *= factor;
-    _cmu = std::min(1.0-_c1,2.0*factor*(_muw-2.0+1.0/_muw)/(pow(Parameters<TGenoPheno>::_dim+2.0,2)+_muw));
   }
 
   template <class TGenoPheno>
   void CMAParameters<TGenoPheno>::set_tpa(const int &b)
   {
     this->_tpa = b;
-    if (this->_tpa == 2)
-      _dsigma = 4 - 3.6 / std::sqrt(Parameters<TGenoPheno>::_dim);
-    else if (!this->_vd)
-      _dsigma = 1.0+_csigma+2.0*std::max(0.0,sqrt((_muw-1)/(Parameters<TGenoPheno>::_dim+1))-1); // default
-    else _dsigma = 1.0+_csigma+2.0*std::max(0.0,sqrt((_muw-1)/(Parameters<TGenoPheno>::_dim+1))-1); // vd
+    _tpa_dsigma = -1.0; // back to default.
+    initialize_parameters();
   }
   
   template <class TGenoPheno>
@@ -152,10 +173,7 @@ namespace libcmaes
   void CMAParameters<TGenoPheno>::set_sep()
   {
     _sep = true;
-    _c1 *= (Parameters<TGenoPheno>::_dim+2.0)/3.0;
-    _cmu = std::min(1.0-_c1,(0.3 + _muw - 2.0 + 1.0/_muw) / (this->_dim + 4.0*std::sqrt(this->_dim) + _muw/2.0));
-    _lazy_value = 1.0/(_c1+_cmu)/Parameters<TGenoPheno>::_dim/10.0;
-    _cc = (1.0+1.0/static_cast<double>(Parameters<TGenoPheno>::_dim) + _muw/static_cast<double>(Parameters<TGenoPheno>::_dim))/(std::sqrt(Parameters<TGenoPheno>::_dim)+1.0/static_cast<double>(Parameters<TGenoPheno>::_dim)+2.0*_muw/static_cast<double>(Parameters<TGenoPheno>::_dim));
+    initialize_parameters();
   }
   
   template <class TGenoPheno>
@@ -167,12 +185,7 @@ namespace libcmaes
 	return;
       }
     _vd = true;
-    _csigma = std::sqrt(_muw)/(2.0*(std::sqrt(Parameters<TGenoPheno>::_dim) + std::sqrt(_muw)));
-    _c1 *= (Parameters<TGenoPheno>::_dim-5)/6.0;
-    _cmu = std::min(1.0-_c1,(Parameters<TGenoPheno>::_dim-5)/6.0*(2.0*(_muw-2.0+1.0/_muw)/(pow(Parameters<TGenoPheno>::_dim+2.0,2)+_muw)));
-    if (this->_tpa == 0)
-      _dsigma = 1.0+_csigma+2.0*std::max(0.0,sqrt((_muw-1)/(Parameters<TGenoPheno>::_dim+1))-1);
-    _fact_ps = sqrt(_csigma*(2.0-_csigma)*_muw);
+    initialize_parameters();
   }
 
   template <class TGenoPheno>
-- 
2.43.0


From d45c4f0be68495bbc62d81b218e1bfcb842e2004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:46 +0000
Subject: [PATCH 24/71] fix: selecting another algorithm after a separable or
 VD one kept its covariance model

---
 include/libcmaes/cmaparameters.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index a764aaa..d15ebe0 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -120,6 +120,13 @@ namespace libcmaes
       void set_algo(const int &algo)
       {
 	this->_algo = algo;
+	bool sep = _sep && algo >= 6 && algo <= 11, vd = _vd && algo >= 12;
+	if (sep != _sep || vd != _vd) // previous algorithm was of another family.
+	  {
+	    _sep = sep;
+	    _vd = vd;
+	    initialize_parameters();
+	  }
 	/*if (this->_tpa != 0
 	    && (this->_algo == 6 // sepCMAES
 		|| this->_algo == 7 //sepIPOP_CMAES
@@ -141,7 +148,7 @@ namespace libcmaes
       {
 	std::map<std::string,int>::const_iterator mit;
 	if ((mit = Parameters<TGenoPheno>::_algos.find(algo))!=Parameters<TGenoPheno>::_algos.end())
-	  Parameters<TGenoPheno>::_algo = (*mit).second;
+	  set_algo((*mit).second);
 	else LOG(ERROR) << "unknown algorithm " << algo << std::endl;
 	if (algo.find("sep")!=std::string::npos)
 	  set_sep();
-- 
2.43.0


From 0860a09da10ed3798c5c87b49e25b849363e4356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:00 +0000
Subject: [PATCH 25/71] fix: lazy updates sampled around an old mean

With lazy update, iterations that skip the eigen decomposition also skipped
handing the current mean to the sampler.
---
 src/cmastrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 57a0b2c..e4e9b22 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -154,11 +154,11 @@ namespace libcmaes
     if (!eostrat<TGenoPheno>::_parameters._sep && !eostrat<TGenoPheno>::_parameters._vd)
       {
 	eostrat<TGenoPheno>::_solutions._updated_eigen = false;
+	_esolver.setMean(eostrat<TGenoPheno>::_solutions._xmean);
 	if (eostrat<TGenoPheno>::_niter == 0 || !eostrat<TGenoPheno>::_parameters._lazy_update
 	    || eostrat<TGenoPheno>::_niter - eostrat<TGenoPheno>::_solutions._eigeniter > eostrat<TGenoPheno>::_parameters._lazy_value)
 	  {
 	    eostrat<TGenoPheno>::_solutions._eigeniter = eostrat<TGenoPheno>::_niter;
-	    _esolver.setMean(eostrat<TGenoPheno>::_solutions._xmean);
 	    _esolver.setCovar(eostrat<TGenoPheno>::_solutions._cov);
 	    eostrat<TGenoPheno>::_solutions._updated_eigen = true;
 	  }
-- 
2.43.0


From 45410780aedef3f880f064881e67f4139c1fba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:00 +0000
Subject: [PATCH 26/71] fix: a fixed parameter did not keep its value under
 linear scaling

The initial mean takes the value before scaling, the candidates took it as
if it was a scaled one.
---
 src/cmastrategy.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index e4e9b22..ed5e1b0 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -253,10 +253,16 @@ namespace libcmaes
     // if some parameters are fixed, reset them.
     if (!eostrat<TGenoPheno>::_parameters._fixed_p.empty())
       {
+	dVec fixed = dVec::Zero(eostrat<TGenoPheno>::_parameters._dim);
+	for (auto it=eostrat<TGenoPheno>::_parameters._fixed_p.begin();
+	     it!=eostrat<TGenoPheno>::_parameters._fixed_p.end();++it)
+	  fixed((*it).first) = (*it).second;
+	if (!eostrat<TGenoPheno>::_parameters._gp.get_scalingstrategy().is_id()) // values are given before scaling, as the initial point.
+	  eostrat<TGenoPheno>::_parameters._gp.get_scalingstrategy().scale_to_internal(fixed,fixed);
 	for (auto it=eostrat<TGenoPheno>::_parameters._fixed_p.begin();
 	     it!=eostrat<TGenoPheno>::_parameters._fixed_p.end();++it)
 	  {
-	    pop.block((*it).first,0,1,pop.cols()) = dVec::Constant(pop.cols(),(*it).second).transpose();
+	    pop.block((*it).first,0,1,pop.cols()) = dVec::Constant(pop.cols(),fixed((*it).first)).transpose();
 	  }
       }
     
-- 
2.43.0


From 7b8d31fc8f0c582fd66b060b2cb87c1160f3df72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:00 +0000
Subject: [PATCH 27/71] fix: elitism could overwrite a candidate better than
 the re-injected one

The re-injected point replaced the second candidate whatever its value, which
lost it, and confused two-point adaptation and uncertainty handling.
---
 src/esostrategy.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 2265298..59742f4 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -134,7 +134,19 @@ namespace libcmaes
 #ifdef HAVE_DEBUG
 	    std::cout << "reinjecting solution=" << ref_fvalue << std::endl;
 #endif
-	    _solutions._candidates.at(1) = ref_candidate;
+	    // replace the worst candidate, but not those that two-point adaptation compares.
+	    int worst = -1;
+	    for (int r=0;r<candidates.cols();r++)
+	      {
+		if (_parameters._tpa == 2 && candidates.cols() > 2 && (r == _solutions._tpa_p1 || r == _solutions._tpa_p2))
+		  continue;
+		if (worst == -1 || _solutions._candidates.at(r).get_fvalue() >= _solutions._candidates.at(worst).get_fvalue())
+		  worst = r;
+	      }
+	    ref_candidate.set_id(worst);
+	    _solutions._candidates.at(worst) = ref_candidate;
+	    if (_parameters._uh)
+	      _solutions._candidates_uh.at(worst) = RankedCandidate(ref_fvalue,ref_candidate,worst);
 	  }
       }
     
-- 
2.43.0


From 5a24a5ed374e2229691852138612b3ee1c04363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:00 +0000
Subject: [PATCH 28/71] fix: BIPOP runs with the same seed differed

Population size and step-size of the small runs were drawn from a generator
seeded by the clock.
---
 src/bipopcmastrategy.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index a6ee42f..038b416 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -33,9 +33,7 @@ namespace libcmaes
 								   CMAParameters<TGenoPheno> &parameters)
     :IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>(func,parameters),_lambda_def(parameters._lambda),_lambda_l(parameters._lambda)
   {
-    std::random_device rd;
-    _gen = std::mt19937(rd());
-    _gen.seed(static_cast<uint64_t>(time(nullptr)));
+    _gen = std::mt19937(CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._seed);
     _unif = std::uniform_real_distribution<>(0,1);
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
@@ -50,9 +48,7 @@ namespace libcmaes
 								   const CMASolutions &solutions)
     :IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>(func,parameters,solutions),_lambda_def(parameters._lambda),_lambda_l(parameters._lambda)
   {
-    std::random_device rd;
-    _gen = std::mt19937(rd());
-    _gen.seed(static_cast<uint64_t>(time(nullptr)));
+    _gen = std::mt19937(CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._seed);
     _unif = std::uniform_real_distribution<>(0,1);
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
-- 
2.43.0


From 0289c558de14b81f1cdbc7482a1329ace2521582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:00 +0000
Subject: [PATCH 29/71] fix: uninitialised members of the solution object were
 read when copying and on restarts

---
 include/libcmaes/cmasolutions.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libcmaes/cmasolutions.h b/include/libcmaes/cmasolutions.h
index 23aca8a..5baadef 100644
--- a/include/libcmaes/cmasolutions.h
+++ b/include/libcmaes/cmasolutions.h
@@ -526,15 +526,15 @@ namespace libcmaes
     double _edm = 0.0; /**< expected vertical distance to the minimum. */
 
     Candidate _best_seen_candidate; /**< best seen candidate along the run. */
-    int _best_seen_iter;
+    int _best_seen_iter = 0;
     Candidate _worst_seen_candidate;
     Candidate _initial_candidate;
     
     dVec _v; /**< complementary vector for use in vdcma. */
 
     std::vector<RankedCandidate> _candidates_uh; /**< temporary set of candidates used by uncertainty handling scheme. */
-    int _lambda_reev; /**< number of reevaluated solutions at current step. */
-    double _suh; /**< uncertainty level computed by uncertainty handling procedure. */
+    int _lambda_reev = 0; /**< number of reevaluated solutions at current step. */
+    double _suh = 0.0; /**< uncertainty level computed by uncertainty handling procedure. */
     
     double _tpa_s = 0.0;
     int _tpa_p1 = 0;
-- 
2.43.0


From 748b16eb82f66279b99521f80bdcdcef699f51b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:00 +0000
Subject: [PATCH 30/71] fix: two-point adaptation with gradient and a
 population of two wrote out of range

---
 src/cmastrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index ed5e1b0..8a2836f 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -241,7 +241,7 @@ namespace libcmaes
 	eostrat<TGenoPheno>::_solutions._tpa_x2 = eostrat<TGenoPheno>::_solutions._xmean - z;
 	
 	// if gradient is in col 0, move tpa vectors to pos 1 & 2
-	if (eostrat<TGenoPheno>::_parameters._with_gradient)
+	if (eostrat<TGenoPheno>::_parameters._with_gradient && pop.cols() > 2)
 	  {
 	    eostrat<TGenoPheno>::_solutions._tpa_p1 = 1;
 	    eostrat<TGenoPheno>::_solutions._tpa_p2 = 2;
-- 
2.43.0


From 564849e55adfa7b9afb52ba0791afba0667f2ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:44 +0000
Subject: [PATCH 31/71] fix: a search started from a previous solution ignored
 some settings

Maximisation, switched-off stopping criteria, plot precision, another
population size and the BIPOP budget were ignored, the state of a separable or
VD search was invalid, and the initial value replaced a better best seen.
---
 include/libcmaes/esostrategy.h | 10 ++++++++--
 src/bipopcmastrategy.cc        |  2 ++
 src/cmastrategy.cc             | 15 +++++++++++++--
 src/esostrategy.cc             |  5 +++++
 4 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/libcmaes/esostrategy.h b/include/libcmaes/esostrategy.h
index 77b74d0..97b58b3 100644
--- a/include/libcmaes/esostrategy.h
+++ b/include/libcmaes/esostrategy.h
@@ -156,8 +156,14 @@ namespace libcmaes
       dVec x0; // initial point is given before scaling.
       _parameters._gp.get_scalingstrategy().scale_to_f(sol.best_candidate().get_x_dvec(),x0);
       _parameters.set_x0(x0);
-      _solutions = sol;
-      _solutions.reset();
+      _solutions = TSolutions(_parameters); // fresh state, sized for the parameters of this search...
+      dVec xmean0 = _solutions._xmean;
+      _solutions._xmean = sol._xmean; // ...from the mean and step-size of the previous one.
+      for (auto it=_parameters._fixed_p.begin();it!=_parameters._fixed_p.end();++it)
+	_solutions._xmean((*it).first) = xmean0((*it).first);
+      _solutions._sigma = sol._sigma;
+      _solutions._best_seen_candidate = sol._best_seen_candidate;
+      _solutions._worst_seen_candidate = sol._worst_seen_candidate;
     }
 
     /**
diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index 038b416..29813dd 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -53,6 +53,8 @@ namespace libcmaes
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
     //CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions = CMASolutions(CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters);
+    _sigma_init = parameters._sigma_init;
+    _max_fevals = parameters._max_fevals;
   }
 
   template <class TCovarianceUpdate, class TGenoPheno>
diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 8a2836f..306003f 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -133,7 +133,16 @@ namespace libcmaes
     _esolver = Eigen::EigenMultivariateNormal<double>(false,eostrat<TGenoPheno>::_parameters._seed); // seeding the multivariate normal generator.
     LOG_IF(INFO,!eostrat<TGenoPheno>::_parameters._quiet) << "CMA-ES / dim=" << eostrat<TGenoPheno>::_parameters._dim << " / lambda=" << eostrat<TGenoPheno>::_parameters._lambda << " / sigma0=" << eostrat<TGenoPheno>::_solutions._sigma << " / mu=" << eostrat<TGenoPheno>::_parameters._mu << " / mueff=" << eostrat<TGenoPheno>::_parameters._muw << " / c1=" << eostrat<TGenoPheno>::_parameters._c1 << " / cmu=" << eostrat<TGenoPheno>::_parameters._cmu << " / lazy_update=" << eostrat<TGenoPheno>::_parameters._lazy_update << std::endl;
     if (!eostrat<TGenoPheno>::_parameters._fplot.empty())
-      _fplotstream = new std::ofstream(eostrat<TGenoPheno>::_parameters._fplot);
+      {
+	_fplotstream = new std::ofstream(eostrat<TGenoPheno>::_parameters._fplot);
+	_fplotstream->precision(std::numeric_limits<double>::digits10);
+      }
+    auto mit=eostrat<TGenoPheno>::_parameters._stoppingcrit.begin();
+    while(mit!=eostrat<TGenoPheno>::_parameters._stoppingcrit.end())
+      {
+	_stopcriteria.set_criteria_active((*mit).first,(*mit).second);
+	++mit;
+      }
   }
 
   template <class TCovarianceUpdate, class TGenoPheno>
@@ -355,7 +364,9 @@ namespace libcmaes
       {
 	eostrat<TGenoPheno>::_solutions._initial_candidate = Candidate(eostrat<TGenoPheno>::_func(eostrat<TGenoPheno>::_parameters._gp.pheno(eostrat<TGenoPheno>::_solutions._xmean).data(),eostrat<TGenoPheno>::_parameters._dim),
 								       eostrat<TGenoPheno>::_solutions._xmean);
-	eostrat<TGenoPheno>::_solutions._best_seen_candidate = eostrat<TGenoPheno>::_solutions._initial_candidate;
+	if (!eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_x_size()
+	    || eostrat<TGenoPheno>::_solutions._initial_candidate.get_fvalue() < eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_fvalue())
+	  eostrat<TGenoPheno>::_solutions._best_seen_candidate = eostrat<TGenoPheno>::_solutions._initial_candidate;
 	this->update_fevals(1);
       }
     
diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 59742f4..c3fdfb2 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -63,6 +63,11 @@ namespace libcmaes
 								 const TSolutions &solutions)
     :_func(func),_nevals(0),_niter(0),_parameters(parameters)
   {
+    if (parameters._maximize)
+      {
+	_funcaux = _func;
+	_func = [&](const double *x, const int N) { return -1.0*_funcaux(x,N); };
+      }
     _pfunc = [](const TParameters&,const TSolutions&){return 0;}; // high level progress function does do anything.
     start_from_solution(solutions);
     if (parameters._uh)
-- 
2.43.0


From a17cd8f163b1c0e373ecabc5e6fa39716fb8fb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:44 +0000
Subject: [PATCH 32/71] fix: a previous solution was ignored by separable and
 VD searches

Whether a solution to start from is given was decided on its full covariance,
which those have not, and some started from one dropped the plot function.
---
 include/libcmaes/cmaes.h | 109 +++++++++++++++++++++++++++------------
 1 file changed, 76 insertions(+), 33 deletions(-)

diff --git a/include/libcmaes/cmaes.h b/include/libcmaes/cmaes.h
index f7e49e1..f068d6c 100644
--- a/include/libcmaes/cmaes.h
+++ b/include/libcmaes/cmaes.h
@@ -44,7 +44,7 @@ namespace libcmaes
 	case CMAES_DEFAULT:
 	{
 	  // if / else as object cannot be reused for now, and we're avoiding pointers.
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<CMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> cmaes_vanilla(func,parameters);
 	      if (gfunc != nullptr)
@@ -67,7 +67,7 @@ namespace libcmaes
 	}
 	case IPOP_CMAES:
 	{
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -90,7 +90,7 @@ namespace libcmaes
 	}
 	case BIPOP_CMAES:
 	{
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -113,7 +113,7 @@ namespace libcmaes
 	}
 	case aCMAES:
 	{
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<CMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> acmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -136,7 +136,7 @@ namespace libcmaes
 	}
 	case aIPOP_CMAES:
 	{
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> aipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -159,7 +159,7 @@ namespace libcmaes
 	}
 	case aBIPOP_CMAES:
 	{
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> abipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -184,7 +184,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<CMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> sepcmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -209,7 +209,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -234,7 +234,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -250,6 +250,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		bipop.set_gradient_func(gfunc);
 	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
 	      bipop.optimize();
 	      return bipop.get_solutions();
 	    }
@@ -258,7 +259,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size()==0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<CMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> sepcmaes(func,parameters);
 	      if (gfunc != nullptr)
@@ -274,6 +275,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		sepcmaes.set_gradient_func(gfunc);
 	      sepcmaes.set_progress_func(pfunc);
+	      sepcmaes.set_plot_func(pffunc);
 	      sepcmaes.optimize();
 	      return sepcmaes.get_solutions();
 	    }
@@ -282,7 +284,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size() == 0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<IPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -298,6 +300,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		ipop.set_gradient_func(gfunc);
 	      ipop.set_progress_func(pfunc);
+	      ipop.set_plot_func(pffunc);
 	      ipop.optimize();
 	      return ipop.get_solutions();
 	    }
@@ -306,7 +309,7 @@ namespace libcmaes
 	{
 	  if (!parameters.is_sep())
 	    parameters.set_sep();
-	  if (solutions.cov().size() == 0)
+	  if (solutions.dim()==0)
 	    {
 	      ESOptimizer<BIPOPCMAStrategy<ACovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
 	      if (gfunc != nullptr)
@@ -322,6 +325,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		bipop.set_gradient_func(gfunc);
 	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
 	      bipop.optimize();
 	      return bipop.get_solutions();
 	    }
@@ -330,37 +334,76 @@ namespace libcmaes
 	{
 	  if (!parameters.is_vd())
 	    parameters.set_vd();
-	  ESOptimizer<CMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> vdcma(func,parameters);
-	  if (gfunc != nullptr)
-	    vdcma.set_gradient_func(gfunc);
-	  vdcma.set_progress_func(pfunc);
-	  vdcma.set_plot_func(pffunc);
-	  vdcma.optimize();
-	  return vdcma.get_solutions();
+	  if (solutions.dim()==0)
+	    {
+	      ESOptimizer<CMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> vdcma(func,parameters);
+	      if (gfunc != nullptr)
+		vdcma.set_gradient_func(gfunc);
+	      vdcma.set_progress_func(pfunc);
+	      vdcma.set_plot_func(pffunc);
+	      vdcma.optimize();
+	      return vdcma.get_solutions();
+	    }
+	  else
+	    {
+	      ESOptimizer<CMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> vdcma(func,parameters,solutions);
+	      if (gfunc != nullptr)
+		vdcma.set_gradient_func(gfunc);
+	      vdcma.set_progress_func(pfunc);
+	      vdcma.set_plot_func(pffunc);
+	      vdcma.optimize();
+	      return vdcma.get_solutions();
+	    }
 	}
 	case VD_IPOP_CMAES:
 	{
 	  if (!parameters.is_vd())
 	    parameters.set_vd();
-	  ESOptimizer<IPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> ipop(func,parameters);
-	  if (gfunc != nullptr)
-	    ipop.set_gradient_func(gfunc);
-	  ipop.set_progress_func(pfunc);
-	  ipop.set_plot_func(pffunc);
-	  ipop.optimize();
-	  return ipop.get_solutions();
+	  if (solutions.dim()==0)
+	    {
+	      ESOptimizer<IPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters);
+	      if (gfunc != nullptr)
+		ipop.set_gradient_func(gfunc);
+	      ipop.set_progress_func(pfunc);
+	      ipop.set_plot_func(pffunc);
+	      ipop.optimize();
+	      return ipop.get_solutions();
+	    }
+	  else
+	    {
+	      ESOptimizer<IPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> ipop(func,parameters,solutions);
+	      if (gfunc != nullptr)
+		ipop.set_gradient_func(gfunc);
+	      ipop.set_progress_func(pfunc);
+	      ipop.set_plot_func(pffunc);
+	      ipop.optimize();
+	      return ipop.get_solutions();
+	    }
 	}
 	case VD_BIPOP_CMAES:
 	{
 	  if (!parameters.is_vd())
 	    parameters.set_vd();
-	  ESOptimizer<BIPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> bipop(func,parameters);
-	  if (gfunc != nullptr)
-	    bipop.set_gradient_func(gfunc);
-	  bipop.set_progress_func(pfunc);
-	  bipop.set_plot_func(pffunc);
-	  bipop.optimize();
-	  return bipop.get_solutions();
+	  if (solutions.dim()==0)
+	    {
+	      ESOptimizer<BIPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters);
+	      if (gfunc != nullptr)
+		bipop.set_gradient_func(gfunc);
+	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
+	      bipop.optimize();
+	      return bipop.get_solutions();
+	    }
+	  else
+	    {
+	      ESOptimizer<BIPOPCMAStrategy<VDCMAUpdate,TGenoPheno>,CMAParameters<TGenoPheno>,CMASolutions> bipop(func,parameters,solutions);
+	      if (gfunc != nullptr)
+		bipop.set_gradient_func(gfunc);
+	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
+	      bipop.optimize();
+	      return bipop.get_solutions();
+	    }
 	}
 	default:
 	return CMASolutions();
-- 
2.43.0


From dcc7d07e00feeb6356cd9a62893037be5a7ef7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:07 +0000
Subject: [PATCH 33/71] fix: an elitist restart within a later run counted the
 evaluations of the earlier runs

The count of the run was replaced by the total, which also ended the run early
on a maximum number of evaluations.
---
 src/cmastrategy.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 306003f..7b8afec 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -399,8 +399,9 @@ namespace libcmaes
 	    dVec x0; // initial point is given before scaling.
 	    eostrat<TGenoPheno>::_parameters._gp.get_scalingstrategy().scale_to_f(eostrat<TGenoPheno>::_solutions._best_seen_candidate.get_x_dvec_ref(),x0);
 	    eostrat<TGenoPheno>::_parameters.set_x0(x0);
+	    int nevals = eostrat<TGenoPheno>::_solutions._nevals; // those of this run, previous runs not included.
 	    eostrat<TGenoPheno>::_solutions = CMASolutions(eostrat<TGenoPheno>::_parameters);
-	    eostrat<TGenoPheno>::_solutions._nevals = eostrat<TGenoPheno>::_nevals;
+	    eostrat<TGenoPheno>::_solutions._nevals = nevals;
 	    eostrat<TGenoPheno>::_niter = 0;
 	    optimize(evalf,askf,tellf);
 	  }
-- 
2.43.0


From 8498150ad262ca460babea11e0609f00dac063f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:32 +0000
Subject: [PATCH 34/71] fix: per-parameter step-sizes without bounds read the
 front of empty vectors

---
 src/cmaparameters.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 129248f..6ba9c8f 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -59,7 +59,7 @@ namespace libcmaes
   {
     dVec scaling = dVec::Constant(x0.size(),1.0).cwiseQuotient(Eigen::Map<dVec>(const_cast<double*>(&sigma.front()),sigma.size()));
     dVec shift = dVec::Constant(x0.size(),0.0);
-    TGenoPheno gp(scaling,shift,&lbounds.front(),&ubounds.front()); // XXX: is only effective when GenoPheno has linScalingStrategy
+    TGenoPheno gp(scaling,shift,lbounds.data(),ubounds.data()); // XXX: is only effective when GenoPheno has linScalingStrategy
     this->set_gp(gp);
     _sigma_init = *std::min_element(sigma.begin(),sigma.end());
     initialize_parameters();
-- 
2.43.0


From 2ea090903bf6300941ce353a36c25693d52cfdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:44 +0000
Subject: [PATCH 35/71] fix: gradient and two-point candidates of VD-CMA used a
 wrong covariance

The matrix D was taken as the covariance, which is D(I+vv')D.
---
 src/cmastrategy.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 7b8afec..79314ae 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -226,6 +226,12 @@ namespace libcmaes
 		if (normq > 0.0) // the covariance may be degenerate.
 		  nx -= eostrat<TGenoPheno>::_solutions._sigma * (sqrt(eostrat<TGenoPheno>::_parameters._dim / normq)) * eostrat<TGenoPheno>::_solutions._cov * grad_at_mean;
 	      }
+	    else if (eostrat<TGenoPheno>::_parameters._vd)
+	      {
+		dVec q = eostrat<TGenoPheno>::_solutions._sepcov.cwiseProduct(grad_at_mean); // C = D(I+vv')D
+		dVec cg = eostrat<TGenoPheno>::_solutions._sepcov.cwiseProduct(q + eostrat<TGenoPheno>::_solutions._v.dot(q) * eostrat<TGenoPheno>::_solutions._v);
+		nx = eostrat<TGenoPheno>::_solutions._xmean - eostrat<TGenoPheno>::_solutions._sigma * sqrt(eostrat<TGenoPheno>::_parameters._dim / grad_at_mean.dot(cg)) * cg;
+	      }
 	    else nx = eostrat<TGenoPheno>::_solutions._xmean - eostrat<TGenoPheno>::_solutions._sigma * (sqrt(eostrat<TGenoPheno>::_parameters._dim) / ((eostrat<TGenoPheno>::_solutions._sepcov.cwiseSqrt().cwiseProduct(grad_at_mean)).norm())) * eostrat<TGenoPheno>::_solutions._sepcov.cwiseProduct(grad_at_mean);
 	    pop.col(0) = nx;
 	  }
@@ -238,6 +244,12 @@ namespace libcmaes
 	double mean_shift_norm = 1.0;
 	if (!eostrat<TGenoPheno>::_parameters._sep && !eostrat<TGenoPheno>::_parameters._vd)
 	  mean_shift_norm = (_esolver._eigenSolver.eigenvalues().cwiseMax(std::numeric_limits<double>::min()).cwiseSqrt().cwiseInverse().cwiseProduct(_esolver._eigenSolver.eigenvectors().transpose()*mean_shift)).norm() / eostrat<TGenoPheno>::_solutions._sigma;
+	else if (eostrat<TGenoPheno>::_parameters._vd)
+	  {
+	    dVec y = eostrat<TGenoPheno>::_solutions._sepcov.cwiseInverse().cwiseProduct(mean_shift); // C = D(I+vv')D
+	    double yv = eostrat<TGenoPheno>::_solutions._v.dot(y);
+	    mean_shift_norm = std::sqrt(y.squaredNorm() - yv*yv/(1.0+eostrat<TGenoPheno>::_solutions._v.squaredNorm())) / eostrat<TGenoPheno>::_solutions._sigma;
+	  }
 	else mean_shift_norm = eostrat<TGenoPheno>::_solutions._sepcov.cwiseSqrt().cwiseInverse().cwiseProduct(mean_shift).norm() / eostrat<TGenoPheno>::_solutions._sigma;
 	//std::cout << "mean_shift_norm=" << mean_shift_norm << " / sqrt(N)=" << std::sqrt(std::sqrt(eostrat<TGenoPheno>::_parameters._dim)) << std::endl;
 
-- 
2.43.0


From 7c0cd266607137ff31a67423da1bb0559151ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:26 +0000
Subject: [PATCH 36/71] fix: every restart of VD-CMA drew the same random
 numbers again

---
 src/cmasolutions.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index a46e414..9f20b2e 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -77,9 +77,11 @@ namespace libcmaes
     
     if (static_cast<CMAParameters<TGenoPheno>&>(p)._vd)
       {
-	Eigen::EigenMultivariateNormal<double> esolver(false,static_cast<uint64_t>(p._seed));
-	esolver.set_covar(_sepcov);
-	_v = esolver.samples_ind(1) / std::sqrt(p._dim);
+	std::mt19937 rng(p._seed); // not the generator of the candidates, that would start over on every restart.
+	std::normal_distribution<double> norm;
+	_v = dVec(p._dim);
+	for (int i=0;i<p._dim;i++)
+	  _v(i) = norm(rng) / std::sqrt(p._dim);
       }
   }
 
-- 
2.43.0


From 90a60dd549cb48cc0518e6de422aa10b5c648e53 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:09:31 +0000
Subject: [PATCH 37/71] fix: constrained minimisation mixed up coordinates not
 fixed in increasing order

optimize_vpk() removes and adds elements one by one, which needs the indexes
in order: with e.g. {2,0} the objective was called with permuted coordinates.
---
 src/errstats.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 45e53d3..92905e6 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -244,12 +244,14 @@ namespace libcmaes
       rx0 = parameters.get_gp().pheno(x0);
     else rx0 = x0;
     double sigma = 0.0;
+    std::vector<int> sk(k); // in increasing order, for removing and adding elements.
+    std::sort(sk.begin(),sk.end());
     TGenoPheno ngp = parameters.get_gp();
-    ngp.remove_dimensions(k);
+    ngp.remove_dimensions(sk);
     for (int i=k.size()-1;i>=0;i--)
       {
 	sigma = std::max(sigma,fabs(cmasol._candidates.at(0).get_x_dvec()[k[i]]-vk[i])); // heuristic: sigma as max distance to minima
-	removeElement(rx0,k[i]);
+	removeElement(rx0,sk[i]);
       }
     
     // transform the point of interest from genotype to phenotype
@@ -274,14 +276,14 @@ namespace libcmaes
     nparameters.set_ftarget(parameters.get_ftarget());
     //nparameters.set_quiet(false);
     
-    FitFunc rfunc = [func,k,pvk](const double *x, const int N)
+    FitFunc rfunc = [func,sk,pvk](const double *x, const int N)
       {
 	dVec nx(N);
 	for (int i=0;i<N;i++)
 	  nx[i] = x[i];
-	for (size_t i=0;i<k.size();i++)
+	for (size_t i=0;i<sk.size();i++)
 	  {
-	    addElement(nx,k[i],pvk[k[i]]); // in phenotype
+	    addElement(nx,sk[i],pvk[sk[i]]); // in phenotype
 	  }
 	return func(nx.data(),nx.size());
       };
@@ -290,8 +292,11 @@ namespace libcmaes
     dVec nx = cms.best_candidate().get_x_dvec();
     if (!pheno_vk)
       {
-	for (size_t i=0;i<k.size();i++)
-	  addElement(nx,k[i],vk[i]);
+	dVec gvk = dVec::Zero(x0.size());
+	for (size_t i=0;i<vk.size();i++)
+	  gvk(k[i]) = vk.at(i);
+	for (size_t i=0;i<sk.size();i++)
+	  addElement(nx,sk[i],gvk[sk[i]]);
       }
       else
       {
@@ -301,8 +306,8 @@ namespace libcmaes
 	//      proceeds in phenotype space, therefore the present function 
 	//      is required to work in both cases.
 	dVec gpvk = parameters.get_gp().geno(pvk);
-	for (size_t i=0;i<k.size();i++)
-	  addElement(nx,k[i],gpvk[k[i]]);
+	for (size_t i=0;i<sk.size();i++)
+	  addElement(nx,sk[i],gpvk[sk[i]]);
       }
     CMASolutions rcmasol;
     rcmasol._candidates.emplace_back(cms.best_candidate().get_fvalue(),nx); // in genotype
-- 
2.43.0


From ec624bbcde4bbc7de0045c618a727380724aa9a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:09:31 +0000
Subject: [PATCH 38/71] fix: with all parameters fixed, the constrained minimum
 was the previous optimum

optimize_vpk() evaluated the point but reported the optimum it was given as
best candidate, so that contours of two-parameter objectives were wrong; the
point is also stored in genotype, as with free parameters.
---
 src/errstats.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 92905e6..634f8ca 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -264,9 +264,14 @@ namespace libcmaes
     if (rx0.size() == 0) // if all variables are fixed, simply return value for this point
       {
 	double fval = func(pvk.data(),pvk.size());
+	dVec gvk = dVec::Zero(x0.size());
+	for (size_t i=0;i<vk.size();i++)
+	  gvk(k[i]) = vk.at(i);
+	if (pheno_vk)
+	  gvk = parameters.get_gp().geno(pvk);
 	CMASolutions rcmasol;
-	rcmasol._candidates.emplace_back(fval,pvk);
-	rcmasol._best_candidates_hist.push_back(cmasol._candidates.at(0));
+	rcmasol._candidates.emplace_back(fval,gvk); // in genotype
+	rcmasol._best_candidates_hist.push_back(rcmasol._candidates.at(0));
 	rcmasol._nevals++;
 	return rcmasol;
       }
-- 
2.43.0


From 48d22bd152a1e9e1de3b6753c6001924398cb23f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:09:31 +0000
Subject: [PATCH 39/71] fix: profile likelihood and contours minimised
 objectives to be maximised

---
 src/errstats.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 634f8ca..5f52125 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -171,7 +171,8 @@ namespace libcmaes
     double fdelta = delta * fup;
     dVec xtmp = x;
     dVec phenoxtmp = parameters._gp.pheno(xtmp);
-    double fvalue = func(phenoxtmp.data(),xtmp.size());
+    double fsign = parameters._maximize ? -1.0 : 1.0; // values of the solution are negated when maximizing.
+    double fvalue = fsign*func(phenoxtmp.data(),xtmp.size());
     double fdiff = fabs(fvalue - minfvalue);
     
     //debug
@@ -193,7 +194,7 @@ namespace libcmaes
 	    dv[k] = d;
 	    xtmp = x + eigenve.transpose() * dv; // search in rotated space
 	    phenoxtmp = parameters._gp.pheno(xtmp);
-	    fvalue = func(phenoxtmp.data(),xtmp.size());
+	    fvalue = fsign*func(phenoxtmp.data(),xtmp.size());
 	    fdiff = fabs(fvalue - minfvalue);
 
 	    //debug
@@ -215,7 +216,7 @@ namespace libcmaes
 	    dv[k] = d;
 	    xtmp = x + eigenve.transpose() * dv; // search in rotated space
 	    phenoxtmp = parameters._gp.pheno(xtmp);
-	    fvalue = func(phenoxtmp.data(),xtmp.size());
+	    fvalue = fsign*func(phenoxtmp.data(),xtmp.size());
 	    fdiff = fabs(fvalue - minfvalue);
 
 	    //debug
@@ -264,6 +265,8 @@ namespace libcmaes
     if (rx0.size() == 0) // if all variables are fixed, simply return value for this point
       {
 	double fval = func(pvk.data(),pvk.size());
+	if (parameters._maximize)
+	  fval *= -1.0;
 	dVec gvk = dVec::Zero(x0.size());
 	for (size_t i=0;i<vk.size();i++)
 	  gvk(k[i]) = vk.at(i);
@@ -278,6 +281,7 @@ namespace libcmaes
     CMAParameters<TGenoPheno> nparameters(rx0.size(),rx0.data(),sigma,parameters.lambda(),
 					  parameters.get_seed(),ngp);
     nparameters.set_initial_fvalue(true);
+    nparameters.set_maximize(parameters._maximize);
     nparameters.set_ftarget(parameters.get_ftarget());
     //nparameters.set_quiet(false);
     
-- 
2.43.0


From 9ef900ad41ffe392a1a40c967410acccc572ba6f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:09:31 +0000
Subject: [PATCH 40/71] fix: step-size of constrained minimisation mixed user
 and internal space

The step-size is the distance between the fixed value and the optimum, both
have to be in genotype.
---
 src/errstats.cc | 36 +++++++++++-------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 5f52125..a37d8a4 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -251,7 +251,6 @@ namespace libcmaes
     ngp.remove_dimensions(sk);
     for (int i=k.size()-1;i>=0;i--)
       {
-	sigma = std::max(sigma,fabs(cmasol._candidates.at(0).get_x_dvec()[k[i]]-vk[i])); // heuristic: sigma as max distance to minima
 	removeElement(rx0,sk[i]);
       }
     
@@ -259,19 +258,18 @@ namespace libcmaes
     dVec pvk = dVec::Zero(x0.size());
     for (size_t i=0;i<vk.size();i++)
       pvk(k[i]) = vk.at(i);
+    dVec gvk = pvk; // point of interest in genotype
     if (!pheno_vk)
       pvk = parameters.get_gp().pheno(pvk);
+    else gvk = parameters.get_gp().geno(pvk);
+    for (size_t i=0;i<k.size();i++)
+      sigma = std::max(sigma,fabs(cmasol._candidates.at(0).get_x_dvec()[k[i]]-gvk[k[i]])); // heuristic: sigma as max distance to minima
      
     if (rx0.size() == 0) // if all variables are fixed, simply return value for this point
       {
 	double fval = func(pvk.data(),pvk.size());
 	if (parameters._maximize)
 	  fval *= -1.0;
-	dVec gvk = dVec::Zero(x0.size());
-	for (size_t i=0;i<vk.size();i++)
-	  gvk(k[i]) = vk.at(i);
-	if (pheno_vk)
-	  gvk = parameters.get_gp().geno(pvk);
 	CMASolutions rcmasol;
 	rcmasol._candidates.emplace_back(fval,gvk); // in genotype
 	rcmasol._best_candidates_hist.push_back(rcmasol._candidates.at(0));
@@ -299,25 +297,13 @@ namespace libcmaes
         
     CMASolutions cms = cmaes<TGenoPheno>(rfunc,nparameters);
     dVec nx = cms.best_candidate().get_x_dvec();
-    if (!pheno_vk)
-      {
-	dVec gvk = dVec::Zero(x0.size());
-	for (size_t i=0;i<vk.size();i++)
-	  gvk(k[i]) = vk.at(i);
-	for (size_t i=0;i<sk.size();i++)
-	  addElement(nx,sk[i],gvk[sk[i]]);
-      }
-      else
-      {
-	// XXX: wish to not have to rely on the geno() function, which 
-	//      remains unused elsewhere.
-	//      profile likelihood proceeds in genotype space, whereas contour
-	//      proceeds in phenotype space, therefore the present function 
-	//      is required to work in both cases.
-	dVec gpvk = parameters.get_gp().geno(pvk);
-	for (size_t i=0;i<sk.size();i++)
-	  addElement(nx,sk[i],gpvk[sk[i]]);
-      }
+    // XXX: wish to not have to rely on the geno() function, which 
+    //      remains unused elsewhere.
+    //      profile likelihood proceeds in genotype space, whereas contour
+    //      proceeds in phenotype space, therefore the present function 
+    //      is required to work in both cases.
+    for (size_t i=0;i<sk.size();i++)
+      addElement(nx,sk[i],gvk[sk[i]]);
     CMASolutions rcmasol;
     rcmasol._candidates.emplace_back(cms.best_candidate().get_fvalue(),nx); // in genotype
     rcmasol._best_candidates_hist.push_back(rcmasol._candidates.at(0));
-- 
2.43.0


From bfa1e08319effef5cebb7a0559e644637b9509cc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:10:31 +0000
Subject: [PATCH 41/71] fix: profile likelihood always failed on objectives
 with a negative minimum

A constrained minimum above a tenth of a negative minimum was taken for a new
minimum; what matters is an improvement that is not small with respect to the
deviation looked for.
---
 src/errstats.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index a37d8a4..a1e1505 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -103,7 +103,7 @@ namespace libcmaes
 	      }
 	      return;
 	  }
-	else if (ncitsol.best_candidate().get_fvalue() < 1e-1*minfvalue)
+	else if (minfvalue - ncitsol.best_candidate().get_fvalue() > 0.1*fup)
 	  {
 	    LOG(ERROR) << "profile likelihood finds new minimum: " << ncitsol.best_candidate().get_fvalue() << std::endl;
 	    // pad and return.
-- 
2.43.0


From 99bd482a20962c32bc1fdc1a0adcc8f4974117c2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:10:31 +0000
Subject: [PATCH 42/71] fix: profile likelihood never returned for a parameter
 whose optimum is zero

The first step was a tenth of the parameter, and doubling a null step loops for
ever.
---
 src/errstats.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index a1e1505..51b3e69 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -77,7 +77,7 @@ namespace libcmaes
     CMASolutions citsol = cmasol;
     int i = 0;
     int n = 10;
-    double d = sign * xk * 0.1; // adhoc.
+    double d = sign * (xk != 0.0 ? xk : 1.0) * 0.1; // adhoc.
     bool linit = true;
     while(true)
       {
-- 
2.43.0


From f940bffe5ca9d5ff102db8b7911b076803277f37 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:10:31 +0000
Subject: [PATCH 43/71] fix: profile likelihood stepped along a row of the
 eigenvectors

The step is along the parameter of interest, whose coordinate is the only one
kept: the other coordinates of the rotated step changed the objective but not
the step, which could be null. Separable and VD algorithms have no eigenvectors
and crashed.
---
 include/libcmaes/errstats.h |  2 --
 src/errstats.cc             | 13 ++++---------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/libcmaes/errstats.h b/include/libcmaes/errstats.h
index cdc8b1b..3be4178 100644
--- a/include/libcmaes/errstats.h
+++ b/include/libcmaes/errstats.h
@@ -97,7 +97,6 @@ namespace libcmaes
      * @param fup the function deviation for which to compute the profile likelihood
      * @param delta tolerance around fvalue + fup for which to compute the profile likelihood
      * @param linit whether this is the first linesearch call
-     * @param eigenve eigenvectors
      * @param d step
      * @param x vector on the line
      */
@@ -109,7 +108,6 @@ namespace libcmaes
 				 const double &delta,
 				 const int &n,
 				 const bool &linit,
-				 const dMat &eigenve,
 				 double &d,
 				 dVec &x);
 
diff --git a/src/errstats.cc b/src/errstats.cc
index 51b3e69..09d68f6 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -82,7 +82,7 @@ namespace libcmaes
     while(true)
       {
 	// get a new xk point.
-	errstats<TGenoPheno>::take_linear_step(func,parameters,k,minfvalue,fup,delta,n,linit,cmasol.eigenvectors(),d,x);
+	errstats<TGenoPheno>::take_linear_step(func,parameters,k,minfvalue,fup,delta,n,linit,d,x);
 	linit = false;
 	
 	//debug
@@ -164,7 +164,6 @@ namespace libcmaes
 					      const double &delta,
 					      const int &n,
 					      const bool &linit,
-					      const dMat &eigenve,
 					      double &d,
 					      dVec &x)
   {
@@ -179,20 +178,17 @@ namespace libcmaes
     //std::cerr << "d=" << d << " / fdiff=" << fdiff << " / xtmpk=" << xtmp[k] << std::endl;
     //debug
     
-    dVec dv = dVec::Zero(parameters.dim());
-    dv[k] = d;
     int i = n;
     if (fdiff > fup + fdelta) // above
       {
-	x -= eigenve.transpose() * dv;
+	x[k] -= d;
 	while (fdiff > fup + fdelta
 	       && i > 0
 	       && phenoxtmp[k] >= parameters._gp.get_boundstrategy().getPhenoLBound(k)
 	       && phenoxtmp[k] <= parameters._gp.get_boundstrategy().getPhenoUBound(k))
 	  {
 	    d /= 2.0;
-	    dv[k] = d;
-	    xtmp = x + eigenve.transpose() * dv; // search in rotated space
+	    xtmp[k] = x[k] + d;
 	    phenoxtmp = parameters._gp.pheno(xtmp);
 	    fvalue = fsign*func(phenoxtmp.data(),xtmp.size());
 	    fdiff = fabs(fvalue - minfvalue);
@@ -213,8 +209,7 @@ namespace libcmaes
 	       && phenoxtmp[k] <= parameters._gp.get_boundstrategy().getPhenoUBound(k))
 	  {
 	    d *= 2.0;
-	    dv[k] = d;
-	    xtmp = x + eigenve.transpose() * dv; // search in rotated space
+	    xtmp[k] = x[k] + d;
 	    phenoxtmp = parameters._gp.pheno(xtmp);
 	    fvalue = fsign*func(phenoxtmp.data(),xtmp.size());
 	    fdiff = fabs(fvalue - minfvalue);
-- 
2.43.0


From d79cb6674fe5ec9ab60a72ef35c4b22c9a69456a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:10:31 +0000
Subject: [PATCH 44/71] fix: profile likelihood at a bound looked for an end
 outside of the bounds

The value in user space never leaves the bounds, so that steps were doubled up
to infinity when the deviation is not reached within the bounds. Steps now stop
at the bound, which is then the end of the interval. Points that are not
computed, here or when the maximum number of steps is reached, repeat the last
one instead of being null.
---
 src/errstats.cc | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 09d68f6..d8889bd 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -74,6 +74,7 @@ namespace libcmaes
     double xk = x[k];
     double minfvalue = cmasol.best_candidate().get_fvalue();
     double nminfvalue = minfvalue;
+    int status = cmasol._run_status;
     CMASolutions citsol = cmasol;
     int i = 0;
     int n = 10;
@@ -81,9 +82,13 @@ namespace libcmaes
     bool linit = true;
     while(true)
       {
+	xk = x[k];
+	
 	// get a new xk point.
 	errstats<TGenoPheno>::take_linear_step(func,parameters,k,minfvalue,fup,delta,n,linit,d,x);
 	linit = false;
+	if (x[k] == xk) // no further step, at a bound.
+	  break;
 	
 	//debug
 	//std::cout << "new xk point: " << x.transpose() << std::endl;
@@ -119,6 +124,7 @@ namespace libcmaes
 	  {
 	    x = ncitsol.best_candidate().get_x_dvec();
 	    nminfvalue = ncitsol.best_candidate().get_fvalue();
+	    status = ncitsol._run_status;
 	  }
 	
 	// store points.
@@ -153,6 +159,15 @@ namespace libcmaes
 	if (i == maxiters)
 	  break;
       }
+
+    // pad with last point.
+    dVec phenolx = parameters._gp.pheno(x);
+    for (int j=curve ? i : 0;j<samplesize;j++)
+      {
+	le._fvaluem[samplesize+sign*(1+j)] = nminfvalue;
+	le._xm.row(samplesize+sign*(1+j)) = phenolx.transpose();
+	le._err[samplesize+sign*(1+j)] = status;
+      }
   }
 
   template <class TGenoPheno>
@@ -178,14 +193,23 @@ namespace libcmaes
     //std::cerr << "d=" << d << " / fdiff=" << fdiff << " / xtmpk=" << xtmp[k] << std::endl;
     //debug
     
+    double lb = -std::numeric_limits<double>::max(), ub = std::numeric_limits<double>::max(); // bounds in genotype
+    if (!parameters._gp.get_boundstrategy().is_id())
+      {
+	dVec phenob = phenoxtmp;
+	phenob[k] = parameters._gp.get_boundstrategy().getPhenoLBound(k);
+	lb = parameters._gp.geno(phenob)[k];
+	phenob[k] = parameters._gp.get_boundstrategy().getPhenoUBound(k);
+	ub = parameters._gp.geno(phenob)[k];
+	if (lb > ub)
+	  std::swap(lb,ub);
+      }
     int i = n;
     if (fdiff > fup + fdelta) // above
       {
 	x[k] -= d;
 	while (fdiff > fup + fdelta
-	       && i > 0
-	       && phenoxtmp[k] >= parameters._gp.get_boundstrategy().getPhenoLBound(k)
-	       && phenoxtmp[k] <= parameters._gp.get_boundstrategy().getPhenoUBound(k))
+	       && i > 0)
 	  {
 	    d /= 2.0;
 	    xtmp[k] = x[k] + d;
@@ -205,11 +229,11 @@ namespace libcmaes
       {
 	while (fdiff < fup - fdelta
 	       && i > 0
-	       && phenoxtmp[k] >= parameters._gp.get_boundstrategy().getPhenoLBound(k)
-	       && phenoxtmp[k] <= parameters._gp.get_boundstrategy().getPhenoUBound(k))
+	       && (d > 0.0 ? xtmp[k] < ub : xtmp[k] > lb))
 	  {
 	    d *= 2.0;
-	    xtmp[k] = x[k] + d;
+	    xtmp[k] = std::min(std::max(x[k] + d,lb),ub);
+	    d = xtmp[k] - x[k];
 	    phenoxtmp = parameters._gp.pheno(xtmp);
 	    fvalue = fsign*func(phenoxtmp.data(),xtmp.size());
 	    fdiff = fabs(fvalue - minfvalue);
-- 
2.43.0


From 2fb1666fa1bbf4274f3be5bc8ff0316b1d06a505 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:10:31 +0000
Subject: [PATCH 45/71] fix: profile likelihood of another deviation was kept
 and used for contours

---
 src/errstats.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index d8889bd..51f41bc 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -52,7 +52,7 @@ namespace libcmaes
     errstats<TGenoPheno>::profile_likelihood_search(func,parameters,le,cmasol,k,true,samplesize,fup,delta,maxiters,curve);  // negative direction
     
     le.setErrMinMax();
-    cmasol._pls.insert(std::pair<int,pli>(k,le));
+    cmasol._pls[k] = le;
     return le;
   }
 
@@ -356,14 +356,14 @@ namespace libcmaes
     // find first two points.
     int samplesize = 10;
     pli plx,ply;
-    if (!cmasol.get_pli(px,plx))
+    if (!cmasol.get_pli(px,plx) || plx._fup != fup)
       {
 	errstats<TGenoPheno>::profile_likelihood(func,parameters,cmasol,px,false,samplesize,fup,delta,maxiters);
 	cmasol.get_pli(px,plx); // in phenotype
       }
     
     // find second two points.
-    if (!cmasol.get_pli(py,ply))
+    if (!cmasol.get_pli(py,ply) || ply._fup != fup)
       {
 	errstats<TGenoPheno>::profile_likelihood(func,parameters,cmasol,py,false,samplesize,fup,delta,maxiters);
 	cmasol.get_pli(py,ply); // in phenotype
-- 
2.43.0


From 3dcd2aac6c7eafa492d5c56e3cd618334ed816e6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:11:25 +0000
Subject: [PATCH 46/71] fix: contour points were off the level asked for

Once points on both sides of the level are known, the search walked by a tenth of
the parameter values, whatever their scale and not along the line between the
points, looping for ever when the values are zero. Bisect between the two points
instead. The number of attempts is bounded in every case.
---
 src/errstats.cc | 88 ++++++++++++++-----------------------------------
 1 file changed, 25 insertions(+), 63 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 51f41bc..15a999e 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -520,7 +520,7 @@ namespace libcmaes
     if (aopt > 1.0)
       aopt = 1.0;
     else if (aopt < -0.5)
-      aopt = 0.5;
+      aopt = -0.5;
     std::vector<double> pmiddir2 = {pmid[0]+aopt*pdir[0],pmid[1]+aopt*pdir[1]};
     CMASolutions cmasol2 = errstats<TGenoPheno>::optimize_vpk(func,parameters,cmasol,par,pmiddir2,parameters.get_x0min());
     alsb[1] = aopt;
@@ -535,6 +535,7 @@ namespace libcmaes
     //debug
     
     // study slope between the two points.
+    int tentatives = 0;
   slope:
     if (dfda < 0.0)
       {
@@ -563,7 +564,6 @@ namespace libcmaes
       }
 
     // once positive slope, find a third point.
-    int tentatives = 0;
   point3:
     //debug
     //std::cout << "positive slope, dfda=" << dfda << std::endl;
@@ -634,76 +634,37 @@ namespace libcmaes
     if(noless == 1 || noless == 2)
       {
 	// XXX: could do parabola instead.
-	int srefp = -1;
-	bool bestbelow = (flsb[ibest] < aim);
-	double srefecar = ecarmx;
+	int ilow = -1, iup = -1; // closest points below and above aim.
 	for (int i=0;i<3;i++)
 	  {
-	    if (i != (int)ibest)
+	    if (flsb[i] < aim)
 	      {
-		if ((bestbelow && flsb[i] > aim)
-		    || (!bestbelow && flsb[i] < aim))
-		  {
-		    double ecar = fabs(flsb[i]-aim);
-		    if (ecar <= srefecar)
-		      {
-			srefecar = ecar;
-			srefp = i;
-		      }
-		  }
+		if (ilow == -1 || flsb[i] > flsb[ilow])
+		  ilow = i;
 	      }
+	    else if (iup == -1 || flsb[i] < flsb[iup])
+	      iup = i;
 	  }
-	dVec srefp_phenox = cmasols.at(srefp).best_candidate().get_x_pheno_dvec(parameters);
-	dVec ibest_phenox = cmasols.at(ibest).best_candidate().get_x_pheno_dvec(parameters);
-	int sdir0 = (srefp_phenox(par[0])-ibest_phenox(par[0]) > 0.0) ? 1 : -1;
-	int sdir1 = (srefp_phenox(par[1])-ibest_phenox(par[1]) > 0.0) ? 1 : -1;
-	dVec xstart;
-	double nminfvalue;
-	if (cmasols.at(ibest).best_candidate().get_fvalue() < aim)
-	  {
-	    xstart = ibest_phenox;
-	    nminfvalue = cmasols.at(ibest).best_candidate().get_fvalue();
-	  }
-	else
+	double alow = alsb[ilow], aup = alsb[iup];
+	CMASolutions citsol;
+	for (int i=0;i<50;i++)
 	  {
-	    xstart = srefp_phenox;
-	    nminfvalue = cmasols.at(srefp).best_candidate().get_fvalue();
-	  }
-	double dxk0 = sdir0 * fabs(xstart(par[0])) * 0.1;
-	double dxk1 = sdir1 * fabs(xstart(par[1])) * 0.1;
-
-	//debug
-	//std::cout << "sdir0=" << sdir0 << " / sdir1=" << sdir1 << " / dxk0=" << dxk0 << " / dxk1=" << dxk1 << std::endl;
-	//debug
-	
-	CMASolutions citsol = cmasols.at(ibest);
-	while (true)
-	  {
-	    // advance incrementally
-	    xstart(par[0]) += dxk0;
-	    xstart(par[1]) += dxk1;
-	    
-	    //debug
-	    //std::cout << "xstart=" << xstart.transpose() << std::endl;
-	    //debug
-	    
-	    std::vector<double> vxk = {xstart(par[0]),xstart(par[1])};
-	    CMASolutions ncitsol = errstats<TGenoPheno>::optimize_vpk(func,parameters,citsol,par,vxk,parameters.get_x0min());
-	    if (ncitsol._run_status < 0)
+	    aopt = 0.5*(alow+aup);
+	    std::vector<double> pmidt = {pmid[0]+aopt*pdir[0],pmid[1]+aopt*pdir[1]};
+	    citsol = errstats<TGenoPheno>::optimize_vpk(func,parameters,cmasol,par,pmidt,parameters.get_x0min());
+	    if (citsol._run_status < 0)
 	      {
-		LOG(WARNING) << "contour linesearch: optimization error " << ncitsol._run_status << std::endl;
+		LOG(WARNING) << "contour linesearch: optimization error " << citsol._run_status << std::endl;
 	      }
-	    nminfvalue = ncitsol.best_candidate().get_fvalue();
-	    if (nminfvalue > aim)
+	    nfcn += citsol._nevals;
+	    double fopt = citsol.best_candidate().get_fvalue();
+	    if (fabs(fopt-aim) <= 0.1*fup)
 	      break;
-	    citsol = ncitsol;
+	    if (fopt < aim)
+	      alow = aopt;
+	    else aup = aopt;
 	  }
-
-	//debug
-	//std::cout << "contour linesearch best point=" << citsol.best_candidate().get_x_dvec().transpose() << std::endl;
-	//debug
-
-	return fcross(citsol._candidates.at(0).get_fvalue(),nfcn,citsol._candidates.at(0).get_x_pheno_dvec(parameters));
+	return fcross(citsol.best_candidate().get_fvalue(),nfcn,citsol.best_candidate().get_x_pheno_dvec(parameters));
       }
     // if all three points are above aim, third point must be the closest to AIM, return it
     if(noless == 0 && ibest != 2)
@@ -717,7 +678,7 @@ namespace libcmaes
       }
     // if all three below and third is not best then the slope has again gone negative,
     // re-iterate and look for positive slope
-    if(noless == 3 && ibest != 2)
+    if(noless == 3 && ibest != 2 && tentatives < 10)
       {
 	//debug
 	//std::cout << "slope is again negative\n";
@@ -725,6 +686,7 @@ namespace libcmaes
 	
 	alsb[1] = alsb[2];
 	flsb[1] = flsb[2];
+	dfda = (flsb[1]-flsb[0])/(alsb[1]-alsb[0]);
 	goto slope;
       }
 
-- 
2.43.0


From 7e232974a246eb357e43c50fae0ff78884153b09 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:11:25 +0000
Subject: [PATCH 47/71] fix: contours evaluated the objective outside of the
 bounds

---
 src/errstats.cc | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index 15a999e..1caf0cc 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -369,32 +369,28 @@ namespace libcmaes
 	cmasol.get_pli(py,ply); // in phenotype
       }
 
-    dVec phenox = cmasol.best_candidate().get_x_pheno_dvec(parameters); // in phenotype
-    double valx = phenox(px);
-    double valy = phenox(py);
-    
     // find upper y value for x parameter.
-    CMASolutions exy_up = errstats<TGenoPheno>::optimize_pk(func,parameters,cmasol,px,valx+plx._errmax,parameters.get_x0min());
+    CMASolutions exy_up = errstats<TGenoPheno>::optimize_pk(func,parameters,cmasol,px,plx._max,parameters.get_x0min());
     //std::cout << "exy_up=" << exy_up.best_candidate().get_x_dvec().transpose() << std::endl;
     
     // find lower y value for x parameter.
-    CMASolutions exy_lo = errstats<TGenoPheno>::optimize_pk(func,parameters,cmasol,px,valx+plx._errmin,parameters.get_x0min());
+    CMASolutions exy_lo = errstats<TGenoPheno>::optimize_pk(func,parameters,cmasol,px,plx._min,parameters.get_x0min());
     //std::cout << "exy_lo=" << exy_lo.best_candidate().get_x_dvec().transpose() << std::endl;
     
     // find upper x value for y parameter.
-    CMASolutions eyx_up = errstats<TGenoPheno>::optimize_pk(func,parameters,cmasol,py,valy+ply._errmax,parameters.get_x0min());
+    CMASolutions eyx_up = errstats<TGenoPheno>::optimize_pk(func,parameters,cmasol,py,ply._max,parameters.get_x0min());
     //std::cout << "eyx_up=" << eyx_up.best_candidate().get_x_dvec().transpose() << std::endl;
     
     // find lower x value for y parameter.
-    CMASolutions eyx_lo = errstats<TGenoPheno>::optimize_pk(func,parameters,cmasol,py,valy+ply._errmin,parameters.get_x0min());
+    CMASolutions eyx_lo = errstats<TGenoPheno>::optimize_pk(func,parameters,cmasol,py,ply._min,parameters.get_x0min());
     //std::cout << "eyx_lo=" << eyx_lo.best_candidate().get_x_dvec().transpose() << std::endl;
     
     // early contour in phenotype
     contour c;
-    c.add_point(valx+plx._errmin,exy_lo.best_candidate().get_x_pheno_dvec(parameters)(py));
-    c.add_point(eyx_lo.best_candidate().get_x_pheno_dvec(parameters)(px),valy+ply._errmin); 
-    c.add_point(valx+plx._errmax,exy_up.best_candidate().get_x_pheno_dvec(parameters)(py));
-    c.add_point(eyx_up.best_candidate().get_x_pheno_dvec(parameters)(px),valy+ply._errmax);
+    c.add_point(plx._min,exy_lo.best_candidate().get_x_pheno_dvec(parameters)(py));
+    c.add_point(eyx_lo.best_candidate().get_x_pheno_dvec(parameters)(px),ply._min); 
+    c.add_point(plx._max,exy_up.best_candidate().get_x_pheno_dvec(parameters)(py));
+    c.add_point(eyx_up.best_candidate().get_x_pheno_dvec(parameters)(px),ply._max);
 
     double scalx = 1.0/(plx._errmax - plx._errmin); // in phenotype
     double scaly = 1.0/(ply._errmax - ply._errmin);
@@ -497,6 +493,14 @@ namespace libcmaes
     int nfcn = 0;
     unsigned int maxitr = 15, ipt = 0;
     dVec nx;
+    auto point = [&](const double &a) // point on the line, within bounds.
+      {
+	std::vector<double> p(2);
+	for (int i=0;i<2;i++)
+	  p[i] = std::min(std::max(pmid[i]+a*pdir[i],parameters._gp.get_boundstrategy().getPhenoLBound(par[i])),
+			  parameters._gp.get_boundstrategy().getPhenoUBound(par[i]));
+	return p;
+      };
 
     //debug
     //std::cout << "aminsv=" << aminsv << " / aim=" << aim << " / tla=" << tla << " / tlf=" << tlf << std::endl;
@@ -521,7 +525,7 @@ namespace libcmaes
       aopt = 1.0;
     else if (aopt < -0.5)
       aopt = -0.5;
-    std::vector<double> pmiddir2 = {pmid[0]+aopt*pdir[0],pmid[1]+aopt*pdir[1]};
+    std::vector<double> pmiddir2 = point(aopt);
     CMASolutions cmasol2 = errstats<TGenoPheno>::optimize_vpk(func,parameters,cmasol,par,pmiddir2,parameters.get_x0min());
     alsb[1] = aopt;
     flsb[1] = cmasol2.best_candidate().get_fvalue();
@@ -551,7 +555,7 @@ namespace libcmaes
 	    alsb[0] = alsb[1];
 	    flsb[0] = flsb[1];
 	    aopt = alsb[0] + 0.2*(it+1);
-	    std::vector<double> pmidt = {pmid[0]+aopt*pdir[0],pmid[1]+aopt*pdir[1]};
+	    std::vector<double> pmidt = point(aopt);
 	    CMASolutions cmasolt = errstats<TGenoPheno>::optimize_vpk(func,parameters,cmasol,par,pmidt,parameters.get_x0min());
 	    alsb[1] = aopt;
 	    flsb[1] = cmasolt.best_candidate().get_fvalue();
@@ -590,7 +594,7 @@ namespace libcmaes
     if (aopt > bmax) aopt = bmax;
 
     // get third point.
-    std::vector<double> pmiddir3 = {pmid[0]+aopt*pdir[0],pmid[1]+aopt*pdir[1]};
+    std::vector<double> pmiddir3 = point(aopt);
     CMASolutions cmasol3 = errstats<TGenoPheno>::optimize_vpk(func,parameters,cmasol,par,pmiddir3,parameters.get_x0min());
     alsb[2] = aopt;
     flsb[2] = cmasol3.best_candidate().get_fvalue();
@@ -650,7 +654,7 @@ namespace libcmaes
 	for (int i=0;i<50;i++)
 	  {
 	    aopt = 0.5*(alow+aup);
-	    std::vector<double> pmidt = {pmid[0]+aopt*pdir[0],pmid[1]+aopt*pdir[1]};
+	    std::vector<double> pmidt = point(aopt);
 	    citsol = errstats<TGenoPheno>::optimize_vpk(func,parameters,cmasol,par,pmidt,parameters.get_x0min());
 	    if (citsol._run_status < 0)
 	      {
-- 
2.43.0


From 1db47863c04b7a749bb998cabf9102ff4e9d3795 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 05:17:05 +0000
Subject: [PATCH 48/71] fix: profile likelihood hardly moved after a first step
 that was too long

The step back kept the other coordinates of the point that is too far, where the
objective is above the deviation looked for whatever the step, so that the step
was reduced to almost nothing. Go back to the last point below the deviation.
---
 include/libcmaes/errstats.h |  2 ++
 src/errstats.cc             | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/errstats.h b/include/libcmaes/errstats.h
index 3be4178..cfa0317 100644
--- a/include/libcmaes/errstats.h
+++ b/include/libcmaes/errstats.h
@@ -97,6 +97,7 @@ namespace libcmaes
      * @param fup the function deviation for which to compute the profile likelihood
      * @param delta tolerance around fvalue + fup for which to compute the profile likelihood
      * @param linit whether this is the first linesearch call
+     * @param xbelow last point found below fvalue + fup
      * @param d step
      * @param x vector on the line
      */
@@ -108,6 +109,7 @@ namespace libcmaes
 				 const double &delta,
 				 const int &n,
 				 const bool &linit,
+				 const dVec &xbelow,
 				 double &d,
 				 dVec &x);
 
diff --git a/src/errstats.cc b/src/errstats.cc
index 1caf0cc..3598795 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -71,6 +71,7 @@ namespace libcmaes
   {
     int sign = neg ? -1 : 1;
     dVec x = cmasol.best_candidate().get_x_dvec();
+    dVec xbelow = x; // last point below the deviation looked for.
     double xk = x[k];
     double minfvalue = cmasol.best_candidate().get_fvalue();
     double nminfvalue = minfvalue;
@@ -85,7 +86,7 @@ namespace libcmaes
 	xk = x[k];
 	
 	// get a new xk point.
-	errstats<TGenoPheno>::take_linear_step(func,parameters,k,minfvalue,fup,delta,n,linit,d,x);
+	errstats<TGenoPheno>::take_linear_step(func,parameters,k,minfvalue,fup,delta,n,linit,xbelow,d,x);
 	linit = false;
 	if (x[k] == xk) // no further step, at a bound.
 	  break;
@@ -125,6 +126,8 @@ namespace libcmaes
 	    x = ncitsol.best_candidate().get_x_dvec();
 	    nminfvalue = ncitsol.best_candidate().get_fvalue();
 	    status = ncitsol._run_status;
+	    if (nminfvalue - minfvalue <= fup)
+	      xbelow = x;
 	  }
 	
 	// store points.
@@ -179,6 +182,7 @@ namespace libcmaes
 					      const double &delta,
 					      const int &n,
 					      const bool &linit,
+					      const dVec &xbelow,
 					      double &d,
 					      dVec &x)
   {
@@ -207,7 +211,9 @@ namespace libcmaes
     int i = n;
     if (fdiff > fup + fdelta) // above
       {
-	x[k] -= d;
+	d = x[k] - xbelow[k];
+	x = xbelow;
+	xtmp = x;
 	while (fdiff > fup + fdelta
 	       && i > 0)
 	  {
-- 
2.43.0


From fc957b3a242fa44078987d9b0ccf6bb597d11f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:40 +0000
Subject: [PATCH 49/71] fix: profile likelihood had no width when the internal
 optimum lies beyond the bounds

The internal representation of a bounded optimum may lie beyond the bounds
(the transform reflects it), in which case no step could be taken from it.
---
 src/errstats.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/errstats.cc b/src/errstats.cc
index 3598795..d95dc8c 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -71,6 +71,8 @@ namespace libcmaes
   {
     int sign = neg ? -1 : 1;
     dVec x = cmasol.best_candidate().get_x_dvec();
+    if (!parameters._gp.get_boundstrategy().is_id())
+      x = parameters._gp.geno(parameters._gp.pheno(x)); // search from within the bounds, in genotype.
     dVec xbelow = x; // last point below the deviation looked for.
     double xk = x[k];
     double minfvalue = cmasol.best_candidate().get_fvalue();
-- 
2.43.0


From 65cdec474605b447ce4d0240d6fb9fe99cdb332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:11 +0000
Subject: [PATCH 50/71] fix: simple surrogate was trained with an empty
 covariance by separable and VD algorithms

---
 src/surrogatestrategy.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index cfd677b..443668a 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -176,8 +176,11 @@ namespace libcmaes
     // train surrogate as required.
     if (do_train())
       {
-	this->train(this->_tset,
-		    eostrat<TGenoPheno>::_solutions._csqinv);
+	if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
+	  this->train(this->_tset,
+		      eostrat<TGenoPheno>::_solutions._csqinv);
+	else this->train(this->_tset,
+			 eostrat<TGenoPheno>::_solutions._sepcsqinv);
       }
   }
   
-- 
2.43.0


From c4e66ec2c274719e7503827a2971e8ebe74daeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:11 +0000
Subject: [PATCH 51/71] fix: simple surrogate predicted populations that mixed
 old and new points

---
 src/surrogatestrategy.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 443668a..42b1964 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -159,12 +159,12 @@ namespace libcmaes
 	for (int r=0;r<candidates.cols();r++)
 	  {
 	    eostrat<TGenoPheno>::_solutions.get_candidate(r).set_x(candidates.col(r));
-	    if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
-	      this->predict(eostrat<TGenoPheno>::_solutions.candidates(),
-			    eostrat<TGenoPheno>::_solutions.csqinv());
-	    else this->predict(eostrat<TGenoPheno>::_solutions.candidates(),
-			       eostrat<TGenoPheno>::_solutions.sepcsqinv());
 	  }
+	if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
+	  this->predict(eostrat<TGenoPheno>::_solutions.candidates(),
+			eostrat<TGenoPheno>::_solutions.csqinv());
+	else this->predict(eostrat<TGenoPheno>::_solutions.candidates(),
+			   eostrat<TGenoPheno>::_solutions.sepcsqinv());
       }
   }
 
-- 
2.43.0


From 0b20b68a21f6e321f7a2056a655d1cdb80fc694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:11 +0000
Subject: [PATCH 52/71] fix: threads training a ranking SVM raced for its
 random generator

---
 include/libcmaes/surrogates/rankingsvm.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/surrogates/rankingsvm.hpp b/include/libcmaes/surrogates/rankingsvm.hpp
index 03e30fb..f918e38 100644
--- a/include/libcmaes/surrogates/rankingsvm.hpp
+++ b/include/libcmaes/surrogates/rankingsvm.hpp
@@ -258,6 +258,9 @@ class RankingSVM
     // initialization of temporary variables
     dVec sum_alphas = dVec::Zero(_dKij.cols());
     dMat div_dKij = dMat::Zero(_dKij.rows(),_dKij.cols());
+    dVec facts(_dKij.rows()); // drawn in order, the random generator is shared among threads.
+    for (int i=0;i<facts.size();i++)
+      facts(i) = _udist(_rng);
 #pragma omp parallel
     {
 #pragma omp for
@@ -267,8 +270,7 @@ class RankingSVM
 	    {
 	      _dKij(i,j) = _K(i,j) - _K(i,j+1) - _K(i+1,j) + _K(i+1,j+1);
 	    }
-	  double fact = _udist(_rng);
-	  _alpha(i) = _C(i) * (0.95 + 0.05*fact);
+	  _alpha(i) = _C(i) * (0.95 + 0.05*facts(i));
 	}
 #pragma omp for
       for (int i=0;i<_dKij.rows();i++)
-- 
2.43.0


From 080012029730f7964fd31ce240e872020154858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:13 +0000
Subject: [PATCH 53/71] fix: surrogate test error was that of the previous
 population

It was computed before the new points are evaluated, on points the model had
been trained on, or on values predicted by the model itself.
---
 src/surrogatestrategy.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 42b1964..79fb14e 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -133,7 +133,10 @@ namespace libcmaes
 	// reactivate fvalue-based stopping criteria
 	this->_stopcriteria.set_criteria_active(FTARGET,true);
 	
-	// compute test error if needed.
+	// use original objective function.
+	eostrat<TGenoPheno>::eval(candidates,phenocandidates);
+	
+	// compute test error if needed, on points the surrogate was not trained on.
 	if (this->_niter != 0 && (int)this->_tset.size() >= this->_l)
 	  {
 	    if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
@@ -145,8 +148,7 @@ namespace libcmaes
 	      this->_nsteps = compute_lifelength();
 	  }
 	
-	// use original objective function and collect points.
-	eostrat<TGenoPheno>::eval(candidates,phenocandidates);
+	// collect points.
 	for (int i=0;i<eostrat<TGenoPheno>::_solutions.size();i++)
 	  this->add_to_training_set(eostrat<TGenoPheno>::_solutions.candidates().at(i)); // XXX: not very efficient update when test size already filled up.
       }
@@ -257,7 +259,10 @@ namespace libcmaes
       }
     else
       {
-	// compute test error if needed.
+	// use original objective function.
+	eostrat<TGenoPheno>::eval(candidates,phenocandidates);
+	
+	// compute test error if needed, on points the surrogate was not trained on.
 	if (this->_niter != 0 && (int)this->_tset.size() >= this->_l)
 	  {
 	    if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
@@ -267,8 +272,7 @@ namespace libcmaes
 							  eostrat<TGenoPheno>::_solutions._sepcsqinv));
 	  }
 	
-	// use original objective function and collect points.
-	eostrat<TGenoPheno>::eval(candidates,phenocandidates);
+	// collect points.
 	for (int i=0;i<eostrat<TGenoPheno>::_solutions.size();i++)
 	  this->add_to_training_set(eostrat<TGenoPheno>::_solutions.candidates().at(i)); // XXX: not very efficient update when test size already filled up.
       }
-- 
2.43.0


From a2b167da17a04260f31ef9e7a2b0823a0a073dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:13 +0000
Subject: [PATCH 54/71] fix: population that fills the training set of a
 surrogate was not sorted

The update of the iteration in which the training set fills up took the
candidates in the order they were drawn.
---
 include/libcmaes/surrogatestrategy.h |  1 +
 src/surrogatestrategy.cc             | 31 +++++++++++++++-------------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/include/libcmaes/surrogatestrategy.h b/include/libcmaes/surrogatestrategy.h
index c119adf..d496691 100644
--- a/include/libcmaes/surrogatestrategy.h
+++ b/include/libcmaes/surrogatestrategy.h
@@ -419,6 +419,7 @@ namespace libcmaes
     double _theta_sel0 = 0.4;  /**< standard deviation of selection sampling step 0. */
     double _theta_sel1 = 0.8;  /**< standard deviation of selection sampling step 1. */
     int _lambdaprime; /**< true objective function calls per iteration. */
+    bool _preselected = false; /**< whether the current candidates went through the pre-selection. */
 
     private:
     // random numbers for selection sampling
diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 79fb14e..642cecf 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -253,7 +253,8 @@ namespace libcmaes
 									  const dMat &phenocandidates)
   {
     // use pre selection eval only if surrogate is ready.
-    if (this->_exploit && (int)this->_tset.size() >= this->_l)
+    _preselected = this->_exploit && (int)this->_tset.size() >= this->_l;
+    if (_preselected)
       {
 	pre_selection_eval(candidates);
       }
@@ -281,21 +282,23 @@ namespace libcmaes
   template<template <class U,class V> class TStrategy, class TCovarianceUpdate, class TGenoPheno>
   void ACMSurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::tell()
   {
-    if (!this->_exploit || (int)this->_tset.size() < this->_l)
-      eostrat<TGenoPheno>::_solutions.sort_candidates();
-    
-    // update function value history, as needed.
-    eostrat<TGenoPheno>::_solutions.update_best_candidates();
+    if (!_preselected) // all candidates were evaluated with the objective function.
+      TStrategy<TCovarianceUpdate,TGenoPheno>::tell();
+    else
+      {
+	// update function value history, as needed (candidates are already sorted).
+	eostrat<TGenoPheno>::_solutions.update_best_candidates();
         
-    // CMA-ES update, depends on the selected 'flavor'.
-    TCovarianceUpdate::update(eostrat<TGenoPheno>::_parameters,this->_esolver,eostrat<TGenoPheno>::_solutions);
+	// CMA-ES update, depends on the selected 'flavor'.
+	TCovarianceUpdate::update(eostrat<TGenoPheno>::_parameters,this->_esolver,eostrat<TGenoPheno>::_solutions);
     
-    // other stuff.
-    if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
-      eostrat<TGenoPheno>::_solutions.update_eigenv(this->_esolver._eigenSolver.eigenvalues(),
-						    this->_esolver._eigenSolver.eigenvectors());
-    else eostrat<TGenoPheno>::_solutions.update_eigenv(eostrat<TGenoPheno>::_solutions._sepcov,
-						       dMat::Constant(eostrat<TGenoPheno>::_parameters._dim,1,1.0));
+	// other stuff.
+	if (!eostrat<TGenoPheno>::_parameters.is_sep() && !eostrat<TGenoPheno>::_parameters.is_vd())
+	  eostrat<TGenoPheno>::_solutions.update_eigenv(this->_esolver._eigenSolver.eigenvalues(),
+							this->_esolver._eigenSolver.eigenvectors());
+	else eostrat<TGenoPheno>::_solutions.update_eigenv(eostrat<TGenoPheno>::_solutions._sepcov,
+							   dMat::Constant(eostrat<TGenoPheno>::_parameters._dim,1,1.0));
+      }
     
     // train surrogate as required.
     if (do_train())
-- 
2.43.0


From d7905d81f6bbbe49b01cad49315dde76d8620ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:13 +0000
Subject: [PATCH 55/71] fix: surrogate test error was NaN with a single
 evaluation per iteration

---
 src/surrogatestrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index 642cecf..db1a088 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -79,6 +79,8 @@ namespace libcmaes
 									const dMat &cov)
   {
     double test_set_size = test_set.size();
+    if (test_set_size < 2)
+      return 0.0; // no pair to rank.
     double factor = 2.0 / static_cast<double>((test_set_size*(test_set_size-1)));
     std::vector<Candidate> ctest_set = test_set;
 
-- 
2.43.0


From fae76c377113445344406da369b8225f77a76ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:13 +0000
Subject: [PATCH 56/71] fix: surrogate pre-selection ignored the seed

---
 include/libcmaes/surrogatestrategy.h | 1 -
 src/surrogatestrategy.cc             | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/libcmaes/surrogatestrategy.h b/include/libcmaes/surrogatestrategy.h
index d496691..f6fd6ca 100644
--- a/include/libcmaes/surrogatestrategy.h
+++ b/include/libcmaes/surrogatestrategy.h
@@ -423,7 +423,6 @@ namespace libcmaes
 
     private:
     // random numbers for selection sampling
-    std::random_device _rd;
     std::normal_distribution<double> _norm_sel0;
     std::normal_distribution<double> _norm_sel1;
     std::mt19937 _gen0;
diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index db1a088..f6f8b1c 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -222,8 +222,8 @@ namespace libcmaes
   template<template <class U,class V> class TStrategy, class TCovarianceUpdate, class TGenoPheno>
   void ACMSurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::init_rd()
   {
-    _gen0 = std::mt19937(_rd());
-    _gen1 = std::mt19937(_rd());
+    _gen0 = std::mt19937(eostrat<TGenoPheno>::_parameters.get_seed());
+    _gen1 = std::mt19937(_gen0());
     _norm_sel0 = std::normal_distribution<double>(0.0,_theta_sel0*_theta_sel0);
     _norm_sel1 = std::normal_distribution<double>(0.0,_theta_sel1*_theta_sel1);
   }
-- 
2.43.0


From d9d8719301b1962293e9170581f3a1b4907aab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:56 +0000
Subject: [PATCH 57/71] fix: ranking SVM predicted from points it was not
 trained on

Points evaluated since the model was trained had entered the training set, so
that its parameters were applied to other points: the test error of every
iteration was that of a meaningless model.
---
 include/libcmaes/surrogates/rsvm_surr_strategy.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/libcmaes/surrogates/rsvm_surr_strategy.hpp b/include/libcmaes/surrogates/rsvm_surr_strategy.hpp
index 9c8f355..4a8de17 100644
--- a/include/libcmaes/surrogates/rsvm_surr_strategy.hpp
+++ b/include/libcmaes/surrogates/rsvm_surr_strategy.hpp
@@ -65,6 +65,7 @@ namespace libcmaes
 	dVec fvalues;
 	std::vector<Candidate> cp = c;
 	to_mat_vec(cp,x,fvalues,true);
+	_x_train = x;
 	dVec xmean = eostrat<TGenoPheno>::get_solutions().xmean();
 	_rsvm = RankingSVM<RBFKernel>();
 	_rsvm._encode = true;
@@ -77,11 +78,7 @@ namespace libcmaes
 	for (int i=0;i<(int)c.size();i++)
 	  x_test.col(i) = c.at(i).get_x_dvec().transpose();
 
-	dMat x_train;
-	dVec fvalues;
-	std::vector<Candidate> tset = this->_tset;
-	to_mat_vec(tset,x_train,fvalues,true);
-
+	dMat x_train = _x_train; // the points the model was trained on, the training set may have changed.
 	dVec fit;
 	dVec xmean = eostrat<TGenoPheno>::get_solutions().xmean();
 	_rsvm.predict(fit,x_test,x_train,cov,xmean);
@@ -95,6 +92,7 @@ namespace libcmaes
       ~RSVMSurrogateStrategy() {}
 
       RankingSVM<RBFKernel> _rsvm;
+      dMat _x_train; /**< points the ranking SVM was last trained on. */
       int _rsvm_iter = 1e6; /**< number of iterations for optimizing the ranking SVM */
   };
 
-- 
2.43.0


From 671f070430d7b1885b6948862cca33486b5f2aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:56 +0000
Subject: [PATCH 58/71] fix: ranking SVM surrogates could not be used from two
 source files

---
 include/libcmaes/surrogates/rsvm_surr_strategy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/surrogates/rsvm_surr_strategy.hpp b/include/libcmaes/surrogates/rsvm_surr_strategy.hpp
index 4a8de17..8fdf78f 100644
--- a/include/libcmaes/surrogates/rsvm_surr_strategy.hpp
+++ b/include/libcmaes/surrogates/rsvm_surr_strategy.hpp
@@ -31,7 +31,7 @@ namespace libcmaes
 {
 
   // Interfacing candidates with an Eigen matrix of double x and a vector of objective function value.
-  void to_mat_vec(std::vector<Candidate> &cp,
+  inline void to_mat_vec(std::vector<Candidate> &cp,
 		  dMat &x, dVec &fvalues,
 		  const bool &train)
   {
-- 
2.43.0


From a628273dbd5b65a69f50ca81e3b399c66cb366be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:41 +0000
Subject: [PATCH 59/71] fix: simple surrogate switched on a target criterion
 the user had switched off

---
 include/libcmaes/cmaparameters.h | 1 +
 src/surrogatestrategy.cc         | 5 +++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index d15ebe0..9e2a6dc 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -45,6 +45,7 @@ namespace libcmaes
       friend class ACovarianceUpdate;
       template <class U> friend class errstats;
       friend class VDCMAUpdate;
+      template <template <class X,class Y> class U, class V, class W> friend class SimpleSurrogateStrategy;
       
     public:
       CMAParameters() {} //TODO: var init even if this constructor is not supposed to be used for now.
diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index f6f8b1c..a0d5097 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -132,8 +132,9 @@ namespace libcmaes
   {
     if (!this->_exploit || this->_niter % this->_nsteps == 0 || (int)this->_tset.size() < this->_l)
       {
-	// reactivate fvalue-based stopping criteria
-	this->_stopcriteria.set_criteria_active(FTARGET,true);
+	// reactivate fvalue-based stopping criteria, unless deactivated by user
+	auto mit = eostrat<TGenoPheno>::_parameters._stoppingcrit.find(FTARGET);
+	this->_stopcriteria.set_criteria_active(FTARGET,mit == eostrat<TGenoPheno>::_parameters._stoppingcrit.end() || (*mit).second);
 	
 	// use original objective function.
 	eostrat<TGenoPheno>::eval(candidates,phenocandidates);
-- 
2.43.0


From 6aec2c6baa96cd1e7e70dee15716cf7af8c3d142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:15 +0000
Subject: [PATCH 60/71] fix: BIPOP ran small populations for ever when they
 stop before their first iteration

---
 src/bipopcmastrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index 29813dd..6c8745d 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -85,6 +85,8 @@ namespace libcmaes
 	    CMAStrategy<TCovarianceUpdate,TGenoPheno>::optimize(evalf,askf,tellf);
 	    budgets[1] += CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._niter * CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda;
 	    IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>::capture_best_solution(best_run);
+	    if (CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions._niter == 0)
+	      break; // stopped before its first iteration, its budget would never be reached.
 	  }
 	if (r > 0) // use lambda_def on first call.
 	  {
-- 
2.43.0


From 68b1287c77c7c25909c5a662e76f88252c105cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:15 +0000
Subject: [PATCH 61/71] fix: restarts never replaced a first run that stopped
 before its first iteration

---
 src/ipopcmastrategy.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ipopcmastrategy.cc b/src/ipopcmastrategy.cc
index b6faf8b..25fbadf 100644
--- a/src/ipopcmastrategy.cc
+++ b/src/ipopcmastrategy.cc
@@ -102,7 +102,8 @@ namespace libcmaes
   template <class TCovarianceUpdate, class TGenoPheno>
   void IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>::capture_best_solution(CMASolutions &best_run)
   {
-    if (best_run._candidates.empty() || CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions.best_candidate().get_fvalue() < best_run.best_candidate().get_fvalue())
+    if (best_run._candidates.empty() || std::isnan(best_run.best_candidate().get_fvalue())
+	|| CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions.best_candidate().get_fvalue() < best_run.best_candidate().get_fvalue())
       best_run = CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions;
   }
 
-- 
2.43.0


From b1f5aa18f96499f3443e27da98a903521a64d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:07 +0000
Subject: [PATCH 62/71] fix: uncertainty handling ranked with an order that is
 not transitive

---
 src/esostrategy.cc | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index c3fdfb2..e63bd07 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -324,14 +324,11 @@ namespace libcmaes
 		int s2 = c2._r1 + c2._r2;
 		if (s1 == s2)
 		  {
-		    if (c1._delta == c2._delta)
+		    double c1d = c1._idx < lreev ? fabs(c1._delta) : meandelta;
+		    double c2d = c2._idx < lreev ? fabs(c2._delta) : meandelta;
+		    if (c1d == c2d)
 		      return c1.get_fvalue() + c1._fvalue_mut < c2.get_fvalue() + c2._fvalue_mut;
-		    else
-		      {
-			double c1d = c1._idx < lreev ? fabs(c1._delta) : meandelta;
-			double c2d = c2._idx < lreev ? fabs(c2._delta) : meandelta;
-			return c1d < c2d;
-		      }
+		    else return c1d < c2d;
 		  }
 		else return c1._r1 + c1._r2 < c2._r1 + c2._r2;
 	      });
-- 
2.43.0


From 8290f7874d578e32163f928488d2bedb24183290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:13 +0000
Subject: [PATCH 63/71] fix: expected distance to minimum crashed when no
 iteration was made

---
 src/esostrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index e63bd07..5aee19c 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -222,6 +222,8 @@ namespace libcmaes
 	gradmn = dVec(n+1);
 	gradmn << dg, _solutions._v.dot(dg);
       }
+    else if (!_parameters._sep && _solutions._leigenvalues.size() == 0) // no iteration yet.
+      gradmn = gradff;
     else if (!_parameters._sep)
       gradmn = _solutions._leigenvalues.cwiseSqrt().asDiagonal() * (_solutions._leigenvectors.transpose() * gradff);
     else gradmn = _solutions._sepcov.cwiseSqrt().cwiseProduct(gradff);
-- 
2.43.0


From d498b682b698e522fb8a9a432a5f2c21e7d15bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:47 +0000
Subject: [PATCH 64/71] fix: the variance of fixed parameters vanished and
 ended the search

---
 include/libcmaes/cmasolutions.h |  7 +++++++
 src/cmasolutions.cc             | 17 +++++++++++++++++
 src/cmastrategy.cc              |  1 +
 3 files changed, 25 insertions(+)

diff --git a/include/libcmaes/cmasolutions.h b/include/libcmaes/cmasolutions.h
index 5baadef..e98c072 100644
--- a/include/libcmaes/cmasolutions.h
+++ b/include/libcmaes/cmasolutions.h
@@ -86,6 +86,13 @@ namespace libcmaes
      */
     void update_best_candidates();
 
+    /**
+     * \brief keeps the variances of fixed parameters, that do not vary, from vanishing:
+     *        the covariance would degenerate.
+     * @param fixed_p fixed parameters
+     */
+    void keep_fixed_variances(const std::unordered_map<int,double> &fixed_p);
+
     /**
      * \brief updates reference eigenvalue and eigenvectors, for use in 
      *        termination criteria.
diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index 9f20b2e..9bfd6d7 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -204,6 +204,23 @@ namespace libcmaes
     _leigenvectors = eigenvectors;
   }
 
+  void CMASolutions::keep_fixed_variances(const std::unordered_map<int,double> &fixed_p)
+  {
+    int dim = _xmean.size();
+    if (fixed_p.empty() || static_cast<int>(fixed_p.size()) >= dim)
+      return;
+    dVec variances = _sepcov.size() ? dVec(_sepcov) : dVec(_cov.diagonal());
+    double minv = std::numeric_limits<double>::max();
+    for (int i=0;i<dim;i++)
+      if (fixed_p.find(i) == fixed_p.end())
+	minv = std::min(minv,variances(i));
+    for (auto it=fixed_p.begin();it!=fixed_p.end();++it)
+      {
+	double &v = _sepcov.size() ? _sepcov((*it).first) : _cov((*it).first,(*it).first);
+	v = std::max(v,minv);
+      }
+  }
+
   void CMASolutions::reset()
   {
     //_candidates.clear();
diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index 79314ae..08685dc 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -325,6 +325,7 @@ namespace libcmaes
     
     // CMA-ES update, depends on the selected 'flavor'.
     TCovarianceUpdate::update(eostrat<TGenoPheno>::_parameters,_esolver,eostrat<TGenoPheno>::_solutions);
+    eostrat<TGenoPheno>::_solutions.keep_fixed_variances(eostrat<TGenoPheno>::_parameters._fixed_p);
     
     if (eostrat<TGenoPheno>::_parameters._uh)
       if (eostrat<TGenoPheno>::_solutions._suh > 0.0)
-- 
2.43.0


From 30d67149113e681434cad023048997c55c6c36ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:10 +0000
Subject: [PATCH 65/71] fix: profile likelihood never ended when the value of
 the minimum does not repeat

---
 src/errstats.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/errstats.cc b/src/errstats.cc
index d95dc8c..72edbda 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -217,7 +217,8 @@ namespace libcmaes
 	x = xbelow;
 	xtmp = x;
 	while (fdiff > fup + fdelta
-	       && i > 0)
+	       && i > 0
+	       && d != 0.0) // e.g. value of the minimum does not repeat, with noise.
 	  {
 	    d /= 2.0;
 	    xtmp[k] = x[k] + d;
-- 
2.43.0


From e88fd633e9daaef74120bf1f8967b63eec1b5157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:05 +0000
Subject: [PATCH 66/71] fix: correlation of two parameters lost its digits far
 from the origin

---
 src/cmasolutions.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index 9bfd6d7..6f3413a 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -170,16 +170,10 @@ namespace libcmaes
       return 1.0;
     if (_cov.size() > 0) //  ful cov
       {
-	CMAParameters<> cp; // fake parameter with identity gp, since correlation is independent from unit
-	dVec st = stds(cp);
-	return _cov(i,j)/(st(i)*st(j));
+	return _cov(i,j)/(sqrt(_cov(i,i))*sqrt(_cov(j,j)));
       }
     else if (_v.size() > 0) // vd
       {
-	CMAParameters<> cp(std::vector<double>(_v.size()),1.0);
-	cp.set_str_algo("vdcma");
-	cp.set_vd();
-	dVec st = stds(cp);
 	dVec sc(2);
 	dVec v(2);
 	sc(0) = _sepcov(i,0);
@@ -187,7 +181,7 @@ namespace libcmaes
 	v(0) = _v(i);
 	v(1) = _v(j);
 	dMat c = sc.asDiagonal()*(dMat::Identity(2,2)+v*v.transpose())*(sc.asDiagonal()); // compute cov matrix for i & j
-	return c(0,1)/(st(i)*st(j));
+	return c(0,1)/(sqrt(c(0,0))*sqrt(c(1,1)));
       }
     else // sep 
       {
-- 
2.43.0


From 0255db499f10c1967b4efefbce5c63a1c46974c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:09 +0000
Subject: [PATCH 67/71] fix: python covariance accessors returned the wrong
 array, or one that did not outlive the solution

---
 python/lcmaes.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/python/lcmaes.cc b/python/lcmaes.cc
index cd1953b..95ebcd5 100644
--- a/python/lcmaes.cc
+++ b/python/lcmaes.cc
@@ -107,13 +107,21 @@ boost::python::list get_best_candidate_pheno(const CMASolutions &s,
   return gpx;
 }
 
-PyObject* get_solution_cov_py(const CMASolutions &s)
+/* array with its own copy of the data, since the solution may not outlive it. */
+PyObject* to_py_array(const int &nd, npy_intp *shape, const double *data)
 {
-  npy_intp shape[2] = {s.dim(),s.dim()};
-  PyObject* pyArray = PyArray_SimpleNewFromData(2, shape, NPY_DOUBLE, (double*)s.cov_data());
+  PyObject* pyArray = PyArray_SimpleNew(nd, shape, NPY_DOUBLE);
+  if (pyArray && PyArray_SIZE((PyArrayObject*)pyArray))
+    std::copy(data,data+PyArray_SIZE((PyArrayObject*)pyArray),(double*)PyArray_DATA((PyArrayObject*)pyArray));
   return pyArray;
 }
 
+PyObject* get_solution_cov_py(const CMASolutions &s)
+{
+  npy_intp shape[2] = {s.cov_ref().rows(),s.cov_ref().cols()}; // empty with sep-* and vd-*
+  return to_py_array(2, shape, s.cov_data());
+}
+
 boost::python::object get_solution_cov(const CMASolutions &s)
 {
   PyObject *pobj = get_solution_cov_py(s);
@@ -123,14 +131,13 @@ boost::python::object get_solution_cov(const CMASolutions &s)
 
 PyObject* get_solution_sepcov_py(const CMASolutions &s)
 {
-  npy_intp shape[1] = {s.dim()};
-  PyObject* pyArray = PyArray_SimpleNewFromData(1, shape, NPY_DOUBLE, (double*)s.sepcov_data());
-  return pyArray;
+  npy_intp shape[1] = {s.sepcov_ref().size()}; // empty but with sep-* and vd-*
+  return to_py_array(1, shape, s.sepcov_data());
 }
 
 boost::python::object get_solution_sepcov(const CMASolutions &s)
 {
-  PyObject *pobj = get_solution_cov_py(s);
+  PyObject *pobj = get_solution_sepcov_py(s);
   boost::python::object boostobj(boost::python::handle<>((PyObject*)pobj));
   return boostobj;
 }
-- 
2.43.0


From 60649aec30b8ae8b01414649fbedbad4c76b320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:09 +0000
Subject: [PATCH 68/71] fix: python eigenvalues() had no conversion

---
 python/lcmaes.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/lcmaes.cc b/python/lcmaes.cc
index 95ebcd5..e41a34a 100644
--- a/python/lcmaes.cc
+++ b/python/lcmaes.cc
@@ -89,6 +89,14 @@ boost::python::list get_solution_xmean(const CMASolutions &s)
   return xmean;
 }
 
+boost::python::list get_solution_eigenvalues(const CMASolutions &s)
+{
+  boost::python::list eigenvalues;
+  for (int i=0;i<s.eigenvalues().size();i++)
+    eigenvalues.append(s.eigenvalues()(i));
+  return eigenvalues;
+}
+
 boost::python::list get_candidate_x(const Candidate &c)
 {
   boost::python::list x;
@@ -441,7 +449,7 @@ BOOST_PYTHON_MODULE(lcmaes)
     .def("edm",&CMASolutions::edm,"returns the expected distance to minimum, if computed (see set_edm() in CMAParameters)")
     .def("sigma",&CMASolutions::sigma,"returns current value of step-size sigma")
     .def("fevals",&CMASolutions::fevals,"returns current number of objective function evaluations")
-    .def("eigenvalues",&CMASolutions::eigenvalues,"returns a vector of last computed eigenvalues")
+    .def("eigenvalues",get_solution_eigenvalues,"returns a vector of last computed eigenvalues")
     .def("min_eigenv",&CMASolutions::min_eigenv,"returns current min eigen value")
     .def("max_eigenv",&CMASolutions::max_eigenv,"returns current max eigen value")
     .def("run_status",&CMASolutions::run_status,"returns current optimization status code")
-- 
2.43.0


From 21c06a4ff9c508b1745bb8eb2a98702c85368cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:26:09 +0000
Subject: [PATCH 69/71] fix: python interface could not build scaled parameters
 without bounds

---
 python/lcmaes_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lcmaes_interface.py b/python/lcmaes_interface.py
index 614cab5..644d7d4 100644
--- a/python/lcmaes_interface.py
+++ b/python/lcmaes_interface.py
@@ -48,7 +48,7 @@ def to_params(x0, sigma0, str_algo=b'acmaes', fplot=None, lbounds=None, ubounds=
             p = lcmaes.make_simple_parameters(x0, sigma0)
         else:
             gp = lcmaes.make_genopheno_ls(vscaling,vshift)
-            p = lcmaes.make_parameters_ls(x0,sigma0,gp)
+            p = lcmaes.make_parameters_ls(x0,sigma0,gp,-1,0)
     p.set_str_algo(str_algo)
     if fplot and fplot != True:  # then fplot must be filename
         global fplot_current
-- 
2.43.0


From 121ed723e1bbeec022f04ced1f5a0dc00d71abfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:02 +0000
Subject: [PATCH 70/71] fix: python objective called from several threads
 without the interpreter lock

---
 python/lcmaes.cc | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/python/lcmaes.cc b/python/lcmaes.cc
index e41a34a..7fca440 100644
--- a/python/lcmaes.cc
+++ b/python/lcmaes.cc
@@ -41,18 +41,35 @@ double fitfunc_f(const boost::python::list &x, const int &n)
 }
 boost::function<double(const boost::python::list&,const int&)> fitfunc_bf(fitfunc_f);
 
+/* the search runs without the interpreter lock, each call to Python takes it, from any thread. */
+struct gil_release
+{
+  gil_release():_state(PyEval_SaveThread()) {}
+  ~gil_release() { PyEval_RestoreThread(_state); }
+  PyThreadState *_state;
+};
+
+struct gil_acquire
+{
+  gil_acquire():_state(PyGILState_Ensure()) {}
+  ~gil_acquire() { PyGILState_Release(_state); }
+  PyGILState_STATE _state;
+};
+
 /* wrapper to cmaes high level function. */
 template <class TGenoPheno=GenoPheno<NoBoundStrategy>>
   CMASolutions pcmaes(boost::function<double(const boost::python::list&,const int&)>& fitfunc_bf,
   CMAParameters<TGenoPheno> &parameters)
   {
-    FitFunc fpython = [fitfunc_bf](const double *x, const int N)
+    FitFunc fpython = [&fitfunc_bf](const double *x, const int N)
       {
+	gil_acquire gil;
 	boost::python::list plx;
 	for (int i=0;i<N;i++) // XXX: how to avoid the loop ?
 	  plx.append(x[i]);
 	return fitfunc_bf(plx,N);
       };
+    gil_release nogil;
     return cmaes(fpython,parameters);
   }
 
@@ -203,16 +220,18 @@ template <class TGenoPheno=GenoPheno<NoBoundStrategy>>
 			  const bool &exploit,
 			  const int &l)
   {
-    FitFunc fpython = [fitfunc_bf](const double *x, const int N)
+    FitFunc fpython = [&fitfunc_bf](const double *x, const int N)
       {
+	gil_acquire gil;
 	boost::python::list plx;
 	for (int i=0;i<N;i++)
 	  plx.append(x[i]);
 	return fitfunc_bf(plx,N);
       };
     ESOptimizer<ACMSurrogateStrategy<CMAStrategy,CovarianceUpdate,TGenoPheno>,CMAParameters<TGenoPheno>> optim(fpython,parameters);
-    CSurrFunc csurrfpython = [csurrfunc_bf](const std::vector<Candidate> &c, const dMat &m)
+    CSurrFunc csurrfpython = [&csurrfunc_bf](const std::vector<Candidate> &c, const dMat &m)
       {
+	gil_acquire gil;
 	boost::python::list plc;
 	for (size_t i=0;i<c.size();i++)
 	  plc.append(c[i]);
@@ -222,8 +241,9 @@ template <class TGenoPheno=GenoPheno<NoBoundStrategy>>
 	return csurrfunc_bf(plc,boost::ref(boostobj));
       };
     optim.set_ftrain(csurrfpython);
-    SurrFunc surrfpython = [surrfunc_bf](std::vector<Candidate> &c, const dMat &m)
+    SurrFunc surrfpython = [&surrfunc_bf](std::vector<Candidate> &c, const dMat &m)
       {
+	gil_acquire gil;
 	boost::python::list plc;
 	for (size_t i=0;i<c.size();i++)
 	  plc.append(c[i]);
@@ -238,6 +258,7 @@ template <class TGenoPheno=GenoPheno<NoBoundStrategy>>
       optim.set_fpredict(surrfpython);
       optim.set_exploit(exploit);
       optim.set_l(l);
+    gil_release nogil;
     optim.optimize();
     return optim.get_solutions();
   }
-- 
2.43.0


From c84f14a833410bd1c17a877408261f32446ae73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:44 +0000
Subject: [PATCH 71/71] fix: identity scaling read past its one-element vectors

---
 include/libcmaes/scaling.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/libcmaes/scaling.h b/include/libcmaes/scaling.h
index 1641c1e..42be851 100644
--- a/include/libcmaes/scaling.h
+++ b/include/libcmaes/scaling.h
@@ -125,12 +125,19 @@ namespace libcmaes
     void scale_to_internal(dVec &x,
 			   const dVec &y) const
     {
-      x = y.cwiseProduct(_scaling) + _shift;
+      if (_id)
+	x = y;
+      else x = y.cwiseProduct(_scaling) + _shift;
     }
 
     void scale_to_f(const dVec &x,
 		    dVec &y) const
     {
+      if (_id)
+	{
+	  y = x;
+	  return;
+	}
       y = x - _shift;
       y = y.cwiseQuotient(_scaling);
     }
-- 
2.43.0

