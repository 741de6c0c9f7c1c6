From 66271db997032717c5b3cc0f900cd5095abf03ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:38 +0000
Subject: [PATCH 01/31] fix: register sepaipop and sepabipop under their
 documented names

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index da9f038..0b37bb0 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -328,7 +328,7 @@ namespace libcmaes
     };
 
   template<class TGenoPheno>
-    std::map<std::string,int> Parameters<TGenoPheno>::_algos = {{"cmaes",0},{"ipop",1},{"bipop",2},{"acmaes",3},{"aipop",4},{"abipop",5},{"sepcmaes",6},{"sepipop",7},{"sepbipop",8},{"sepacmaes",9},{"sepipop",10},{"sepbipop",11},{"vdcma",12},{"vdipopcma",13},{"vdbipopcma",14}};
+    std::map<std::string,int> Parameters<TGenoPheno>::_algos = {{"cmaes",0},{"ipop",1},{"bipop",2},{"acmaes",3},{"aipop",4},{"abipop",5},{"sepcmaes",6},{"sepipop",7},{"sepbipop",8},{"sepacmaes",9},{"sepaipop",10},{"sepabipop",11},{"vdcma",12},{"vdipopcma",13},{"vdbipopcma",14}};
 }
 
 #endif
-- 
2.43.0


From fcf4a059905c1def36ac41e370e182e2be7b3b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:38 +0000
Subject: [PATCH 02/31] fix: set_seed tests its argument, not the previous
 seed, for the automatic seed

---
 include/libcmaes/parameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/parameters.h b/include/libcmaes/parameters.h
index be42b04..a0ea93d 100644
--- a/include/libcmaes/parameters.h
+++ b/include/libcmaes/parameters.h
@@ -276,7 +276,7 @@ namespace libcmaes
        */
       void set_seed(const int &seed)
       {
-	if (_seed == 0)
+	if (seed == 0)
 	  _seed = static_cast<uint64_t>(std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::high_resolution_clock::now().time_since_epoch()).count());
 	else _seed = seed;
       }
-- 
2.43.0


From 7bb0fc3028d37bc84d8ea80ad8d464786a15b176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:38 +0000
Subject: [PATCH 03/31] fix: set_elitism(0) disables every elitism scheme

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 0b37bb0..41cde8a 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -243,7 +243,7 @@ namespace libcmaes
       inline void set_elitism(const int &e)
       {
 	if (e == 0)
-	  _elitist = _initial_elitist = _initial_elitist_on_restart;
+	  _elitist = _initial_elitist = _initial_elitist_on_restart = false;
 	else if (e == 1)
 	  {
 	    _elitist = true;
-- 
2.43.0


From 1b87c10e7d7c416ebfb76605b53ff8674925539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:54 +0000
Subject: [PATCH 04/31] fix: the last set_stopping_criteria call for a
 criterion wins

---
 include/libcmaes/cmaparameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 41cde8a..17af439 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -270,7 +270,7 @@ namespace libcmaes
       inline void set_stopping_criteria(const int &criteria,
 					const bool &active)
       {
-	_stoppingcrit.insert(std::pair<int,bool>(criteria,active));
+	_stoppingcrit[criteria] = active;
       }
 
       /**
-- 
2.43.0


From c14554251f73905ec10317cf7e4d648108984263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:54 +0000
Subject: [PATCH 05/31] fix: the last set_fixed_p call for a parameter wins

---
 include/libcmaes/parameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/parameters.h b/include/libcmaes/parameters.h
index a0ea93d..f8e7192 100644
--- a/include/libcmaes/parameters.h
+++ b/include/libcmaes/parameters.h
@@ -194,7 +194,7 @@ namespace libcmaes
        */
       void set_fixed_p(const int &index, const double &value)
       {
-	_fixed_p.insert(std::pair<int,double>(index,value));
+	_fixed_p[index] = value;
       }
       
       /**
-- 
2.43.0


From e80bb60c130e8e41411f4dff9361acddd9d8b553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:54 +0000
Subject: [PATCH 06/31] fix: uncertainty handling reranks both candidates by r1
 + r2

---
 src/esostrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 0c570c1..8a0ec8e 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -298,7 +298,7 @@ namespace libcmaes
 	      [lreev,meandelta](RankedCandidate const &c1, RankedCandidate const &c2)
 	      { 
 		int s1 = c1._r1 + c1._r2;
-		int s2 = c2._r2 + c2._r2;
+		int s2 = c2._r1 + c2._r2;
 		if (s1 == s2)
 		  {
 		    if (c1._delta == c2._delta)
-- 
2.43.0


From 66707d54a39355f6696eb00a5243fa3ea50f7c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:54 +0000
Subject: [PATCH 07/31] fix: maxIter criterion message obeys the quiet flag

---
 src/cmastopcriteria.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastopcriteria.cc b/src/cmastopcriteria.cc
index 89310a9..13f50c9 100644
--- a/src/cmastopcriteria.cc
+++ b/src/cmastopcriteria.cc
@@ -84,7 +84,7 @@ namespace libcmaes
 	  return CONT;
 	if (cmas._niter >= cmap._max_iter)
 	  {
-	    LOG_IF(INFO,!cmap._max_iter) << "stopping criteria maxIter=" << cmas._niter << std::endl;
+	    LOG_IF(INFO,!cmap._quiet) << "stopping criteria maxIter=" << cmas._niter << std::endl;
 	    return MAXITER;
 	  }
 	else return CONT;
-- 
2.43.0


From e3b9f8641b4576df70337d65e527f13c1c9763bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:43 +0000
Subject: [PATCH 08/31] fix: uncertainty handling perturbs the genotype, so
 that re-evaluated points respect the bounds

---
 src/esostrategy.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 8a0ec8e..4ecf0c8 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -348,13 +348,13 @@ namespace libcmaes
 	  _solutions._lambda_reev = 1;
 	
 	// mutate candidates.
-	if (phenocandidates.size())
-	  candidates_uh = phenocandidates.block(0,0,phenocandidates.rows(),_solutions._lambda_reev);
-	else candidates_uh = candidates.block(0,0,candidates.rows(),_solutions._lambda_reev);
+	candidates_uh = candidates.block(0,0,candidates.rows(),_solutions._lambda_reev);
 	if (_solutions._sepcov.size())
 	  _uhesolver.set_covar(_solutions._sepcov);
 	else _uhesolver.set_covar(_solutions._cov);
 	candidates_uh += _parameters._epsuh * _solutions._sigma * _uhesolver.samples_ind(_solutions._lambda_reev);
+	if (phenocandidates.size())
+	  candidates_uh = _parameters._gp.pheno(candidates_uh);
 	}
 
   template<class TParameters,class TSolutions,class TStopCriteria>
-- 
2.43.0


From 11510362bec16493e0d957fd65c3ec6197456c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:43 +0000
Subject: [PATCH 09/31] fix: finite differences are clamped at the user's
 bounds, not at the internal ones

---
 src/esostrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 4ecf0c8..1be1538 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -175,7 +175,7 @@ namespace libcmaes
       {
 	dVec ei1 = x;
 	ei1(i,0) += epsilon(i);
-	ei1(i,0) = std::min(ei1(i,0),_parameters.get_gp().get_boundstrategy_ref().getUBound(i));
+	ei1(i,0) = std::min(ei1(i,0),_parameters.get_gp().get_boundstrategy_ref().getPhenoUBound(i));
 	double gradi = (_func(ei1.data(),_parameters._dim) - fx)/epsilon(i);
 	vgradf(i,0) = gradi;
       }
-- 
2.43.0


From f1614feed9457cf760cb6ade9a8ffc85cb5e8687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:43 +0000
Subject: [PATCH 10/31] fix: the uncertainty handling comparator is a strict
 weak ordering

---
 src/esostrategy.cc | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 1be1538..0a84bac 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -301,14 +301,11 @@ namespace libcmaes
 		int s2 = c2._r1 + c2._r2;
 		if (s1 == s2)
 		  {
-		    if (c1._delta == c2._delta)
+		    double c1d = c1._idx < lreev ? fabs(c1._delta) : meandelta;
+		    double c2d = c2._idx < lreev ? fabs(c2._delta) : meandelta;
+		    if (c1d == c2d)
 		      return c1.get_fvalue() + c1._fvalue_mut < c2.get_fvalue() + c2._fvalue_mut;
-		    else
-		      {
-			double c1d = c1._idx < lreev ? fabs(c1._delta) : meandelta;
-			double c2d = c2._idx < lreev ? fabs(c2._delta) : meandelta;
-			return c1d < c2d;
-		      }
+		    else return c1d < c2d;
 		  }
 		else return c1._r1 + c1._r2 < c2._r1 + c2._r2;
 	      });
-- 
2.43.0


From b6c0a110dc846d3073257eff2978f958b5c634d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:58 +0000
Subject: [PATCH 11/31] fix: the ranking SVM draws from its random generator
 outside of the parallel region

---
 include/libcmaes/surrogates/rankingsvm.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/surrogates/rankingsvm.hpp b/include/libcmaes/surrogates/rankingsvm.hpp
index 03e30fb..ea57187 100644
--- a/include/libcmaes/surrogates/rankingsvm.hpp
+++ b/include/libcmaes/surrogates/rankingsvm.hpp
@@ -258,6 +258,11 @@ class RankingSVM
     // initialization of temporary variables
     dVec sum_alphas = dVec::Zero(_dKij.cols());
     dMat div_dKij = dMat::Zero(_dKij.rows(),_dKij.cols());
+    for (int i=0;i<_dKij.rows();i++) // sequential, the random generator is shared
+      {
+	double fact = _udist(_rng);
+	_alpha(i) = _C(i) * (0.95 + 0.05*fact);
+      }
 #pragma omp parallel
     {
 #pragma omp for
@@ -267,8 +272,6 @@ class RankingSVM
 	    {
 	      _dKij(i,j) = _K(i,j) - _K(i,j+1) - _K(i+1,j) + _K(i+1,j+1);
 	    }
-	  double fact = _udist(_rng);
-	  _alpha(i) = _C(i) * (0.95 + 0.05*fact);
 	}
 #pragma omp for
       for (int i=0;i<_dKij.rows();i++)
-- 
2.43.0


From 8ac1511d7f2a7fcc20b587b5fa08819436e517b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:30 +0000
Subject: [PATCH 12/31] fix: BIPOP restarts draw from a generator seeded with
 the user's seed

---
 src/bipopcmastrategy.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index a6ee42f..861af48 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -33,9 +33,7 @@ namespace libcmaes
 								   CMAParameters<TGenoPheno> &parameters)
     :IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>(func,parameters),_lambda_def(parameters._lambda),_lambda_l(parameters._lambda)
   {
-    std::random_device rd;
-    _gen = std::mt19937(rd());
-    _gen.seed(static_cast<uint64_t>(time(nullptr)));
+    _gen = std::mt19937(parameters._seed);
     _unif = std::uniform_real_distribution<>(0,1);
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
@@ -50,9 +48,7 @@ namespace libcmaes
 								   const CMASolutions &solutions)
     :IPOPCMAStrategy<TCovarianceUpdate,TGenoPheno>(func,parameters,solutions),_lambda_def(parameters._lambda),_lambda_l(parameters._lambda)
   {
-    std::random_device rd;
-    _gen = std::mt19937(rd());
-    _gen.seed(static_cast<uint64_t>(time(nullptr)));
+    _gen = std::mt19937(parameters._seed);
     _unif = std::uniform_real_distribution<>(0,1);
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
-- 
2.43.0


From 4d8918547cdcb715fb79ed66dff1018e5ae72d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:30 +0000
Subject: [PATCH 13/31] fix: uncertainty handling draws from a generator seeded
 with the user's seed

---
 src/esostrategy.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 0a84bac..523e13e 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -52,8 +52,7 @@ namespace libcmaes
     _solutions = TSolutions(_parameters);
     if (parameters._uh)
       {
-	std::random_device rd;
-	_uhgen = std::mt19937(rd());
+	_uhgen = std::mt19937(parameters._seed);
 	_uhunif = std::uniform_real_distribution<>(0,1);
       }
   }
@@ -68,8 +67,7 @@ namespace libcmaes
     start_from_solution(solutions);
     if (parameters._uh)
       {
-	std::random_device rd;
-	_uhgen = std::mt19937(rd());
+	_uhgen = std::mt19937(parameters._seed);
 	_uhunif = std::uniform_real_distribution<>(0,1);
       }
   }
-- 
2.43.0


From 86ad2f823622ab079c899abb25905e48ef87c06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:30 +0000
Subject: [PATCH 14/31] fix: ACM surrogate sampling draws from generators
 seeded with the user's seed

---
 include/libcmaes/surrogatestrategy.h | 1 -
 src/surrogatestrategy.cc             | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/libcmaes/surrogatestrategy.h b/include/libcmaes/surrogatestrategy.h
index c119adf..b3137bd 100644
--- a/include/libcmaes/surrogatestrategy.h
+++ b/include/libcmaes/surrogatestrategy.h
@@ -422,7 +422,6 @@ namespace libcmaes
 
     private:
     // random numbers for selection sampling
-    std::random_device _rd;
     std::normal_distribution<double> _norm_sel0;
     std::normal_distribution<double> _norm_sel1;
     std::mt19937 _gen0;
diff --git a/src/surrogatestrategy.cc b/src/surrogatestrategy.cc
index cfd677b..6f13759 100644
--- a/src/surrogatestrategy.cc
+++ b/src/surrogatestrategy.cc
@@ -215,8 +215,8 @@ namespace libcmaes
   template<template <class U,class V> class TStrategy, class TCovarianceUpdate, class TGenoPheno>
   void ACMSurrogateStrategy<TStrategy,TCovarianceUpdate,TGenoPheno>::init_rd()
   {
-    _gen0 = std::mt19937(_rd());
-    _gen1 = std::mt19937(_rd());
+    _gen0 = std::mt19937(eostrat<TGenoPheno>::_parameters._seed);
+    _gen1 = std::mt19937(eostrat<TGenoPheno>::_parameters._seed+1);
     _norm_sel0 = std::normal_distribution<double>(0.0,_theta_sel0*_theta_sel0);
     _norm_sel1 = std::normal_distribution<double>(0.0,_theta_sel1*_theta_sel1);
   }
-- 
2.43.0


From acfb37a81823e9c922f131ed60c77f92ddc011b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:51 +0000
Subject: [PATCH 15/31] fix: the random initial mean comes from the seeded
 generator instead of rand()

---
 src/cmasolutions.cc | 14 ++++++++++++--
 src/esostrategy.cc  |  4 ++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/cmasolutions.cc b/src/cmasolutions.cc
index a46e414..db1bbfa 100644
--- a/src/cmasolutions.cc
+++ b/src/cmasolutions.cc
@@ -27,6 +27,16 @@
 
 namespace libcmaes
 {
+  // uniform sample in [-1,1]^dim, from the generator that the strategies seed.
+  static dVec random_uniform(const int &dim)
+  {
+    std::uniform_real_distribution<double> unif(-1.0,1.0);
+    dVec x(dim);
+    for (int i=0;i<dim;i++)
+      x(i) = unif(Eigen::internal::scalar_normal_dist_op<double>::rng);
+    return x;
+  }
+
   template <class TGenoPheno>
   CMASolutions::CMASolutions(Parameters<TGenoPheno> &p)
     :_hsig(1),_max_eigenv(0.0),_min_eigenv(0.0),_niter(0),_nevals(0),_kcand(1),_eigeniter(0),_updated_eigen(true),_run_status(0),_elapsed_time(0)
@@ -45,12 +55,12 @@ namespace libcmaes
     if (p._x0min == p._x0max)
       {
 	if (p._x0min == dVec::Constant(p._dim,-std::numeric_limits<double>::max()))
-	  _xmean = dVec::Random(p._dim) * 4.0; // initial mean randomly sampled from -4,4 in all dimensions.
+	  _xmean = random_uniform(p._dim) * 4.0; // initial mean randomly sampled from -4,4 in all dimensions.
 	else _xmean = p._x0min;
       }
     else
       {
-	_xmean = 0.5*(dVec::Random(p._dim) + dVec::Constant(p._dim,1.0)); // scale to [0,1].
+	_xmean = 0.5*(random_uniform(p._dim) + dVec::Constant(p._dim,1.0)); // scale to [0,1].
 	_xmean = _xmean.cwiseProduct(p._x0max - p._x0min) + p._x0min; // scale to bounds.
       }
     if (!p._fixed_p.empty())
diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 523e13e..62afa8e 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -41,7 +41,7 @@ namespace libcmaes
   template<class TParameters,class TSolutions,class TStopCriteria>
   ESOStrategy<TParameters,TSolutions,TStopCriteria>::ESOStrategy(FitFunc &func,
 								 TParameters &parameters)
-    :_func(func),_nevals(0),_niter(0),_parameters(parameters)
+    :_func(func),_nevals(0),_niter(0),_parameters(parameters),_uhesolver(false,parameters._seed)
   {
     if (parameters._maximize)
       {
@@ -61,7 +61,7 @@ namespace libcmaes
   ESOStrategy<TParameters,TSolutions,TStopCriteria>::ESOStrategy(FitFunc &func,
 								 TParameters &parameters,
 								 const TSolutions &solutions)
-    :_func(func),_nevals(0),_niter(0),_parameters(parameters)
+    :_func(func),_nevals(0),_niter(0),_parameters(parameters),_uhesolver(false,parameters._seed)
   {
     _pfunc = [](const TParameters&,const TSolutions&){return 0;}; // high level progress function does do anything.
     start_from_solution(solutions);
-- 
2.43.0


From 0291b0e62ae43a5415f9c252db2689910d047dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:29 +0000
Subject: [PATCH 16/31] fix: cmaes() starting from given solutions installs the
 plot function for sepbipop, sepacmaes, sepaipop and sepabipop too

---
 include/libcmaes/cmaes.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libcmaes/cmaes.h b/include/libcmaes/cmaes.h
index f7e49e1..41180e6 100644
--- a/include/libcmaes/cmaes.h
+++ b/include/libcmaes/cmaes.h
@@ -250,6 +250,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		bipop.set_gradient_func(gfunc);
 	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
 	      bipop.optimize();
 	      return bipop.get_solutions();
 	    }
@@ -274,6 +275,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		sepcmaes.set_gradient_func(gfunc);
 	      sepcmaes.set_progress_func(pfunc);
+	      sepcmaes.set_plot_func(pffunc);
 	      sepcmaes.optimize();
 	      return sepcmaes.get_solutions();
 	    }
@@ -298,6 +300,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		ipop.set_gradient_func(gfunc);
 	      ipop.set_progress_func(pfunc);
+	      ipop.set_plot_func(pffunc);
 	      ipop.optimize();
 	      return ipop.get_solutions();
 	    }
@@ -322,6 +325,7 @@ namespace libcmaes
 	      if (gfunc != nullptr)
 		bipop.set_gradient_func(gfunc);
 	      bipop.set_progress_func(pfunc);
+	      bipop.set_plot_func(pffunc);
 	      bipop.optimize();
 	      return bipop.get_solutions();
 	    }
-- 
2.43.0


From 05485aca17556eaf6a5dc82a5bbb7b9fd2c461e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:29 +0000
Subject: [PATCH 17/31] fix: surrcmaes() does not rescale the learning rates
 again when sep or vd is already active

---
 include/libcmaes/surrcmaes.h | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/libcmaes/surrcmaes.h b/include/libcmaes/surrcmaes.h
index 609ab97..ed93b08 100644
--- a/include/libcmaes/surrcmaes.h
+++ b/include/libcmaes/surrcmaes.h
@@ -72,63 +72,72 @@ namespace libcmaes
 	}
 	case sepCMAES:
 	{
-	  parameters.set_sep();
+	  if (!parameters.is_sep())
+	    parameters.set_sep();
 	  ESOptimizer<RSVMSurrogateStrategy<CMAStrategy,CovarianceUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
 	}
 	case sepIPOP_CMAES:
 	{
-	  parameters.set_sep();
+	  if (!parameters.is_sep())
+	    parameters.set_sep();
 	  ESOptimizer<RSVMSurrogateStrategy<IPOPCMAStrategy,CovarianceUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
 	}
 	case sepBIPOP_CMAES:
 	{
-	  parameters.set_sep();
+	  if (!parameters.is_sep())
+	    parameters.set_sep();
 	  ESOptimizer<RSVMSurrogateStrategy<BIPOPCMAStrategy,CovarianceUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
 	}
 	case sepaCMAES:
 	{
-	  parameters.set_sep();
+	  if (!parameters.is_sep())
+	    parameters.set_sep();
 	  ESOptimizer<RSVMSurrogateStrategy<CMAStrategy,ACovarianceUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
 	}
 	case sepaIPOP_CMAES:
 	{
-	  parameters.set_sep();
+	  if (!parameters.is_sep())
+	    parameters.set_sep();
 	  ESOptimizer<RSVMSurrogateStrategy<IPOPCMAStrategy,ACovarianceUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
 	}
 	case sepaBIPOP_CMAES:
 	{
-	  parameters.set_sep();
+	  if (!parameters.is_sep())
+	    parameters.set_sep();
 	  ESOptimizer<RSVMSurrogateStrategy<BIPOPCMAStrategy,ACovarianceUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
 	}
 	case VD_CMAES:
 	{
-	  parameters.set_vd();
+	  if (!parameters.is_vd())
+	    parameters.set_vd();
 	  ESOptimizer<RSVMSurrogateStrategy<CMAStrategy,VDCMAUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
 	}
 	case VD_IPOP_CMAES:
 	{
-	  parameters.set_vd();
+	  if (!parameters.is_vd())
+	    parameters.set_vd();
 	  ESOptimizer<RSVMSurrogateStrategy<IPOPCMAStrategy,VDCMAUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
 	}
 	case VD_BIPOP_CMAES:
 	{
-	  parameters.set_vd();
+	  if (!parameters.is_vd())
+	    parameters.set_vd();
 	  ESOptimizer<RSVMSurrogateStrategy<BIPOPCMAStrategy,VDCMAUpdate>,CMAParameters<>> optim(func,parameters);
 	  optim.optimize();
 	  return optim.get_solutions();
-- 
2.43.0


From 75fd8a65030426d6011b8ed8f44fb3b17864c993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:55 +0000
Subject: [PATCH 18/31] fix: maximisation is honoured when starting from given
 solutions

---
 src/esostrategy.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 62afa8e..38551ef 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -63,6 +63,11 @@ namespace libcmaes
 								 const TSolutions &solutions)
     :_func(func),_nevals(0),_niter(0),_parameters(parameters),_uhesolver(false,parameters._seed)
   {
+    if (parameters._maximize)
+      {
+	_funcaux = _func;
+	_func = [&](const double *x, const int N) { return -1.0*_funcaux(x,N); };
+      }
     _pfunc = [](const TParameters&,const TSolutions&){return 0;}; // high level progress function does do anything.
     start_from_solution(solutions);
     if (parameters._uh)
-- 
2.43.0


From b91eaac609415d0555efc670a9e47b9704b6d648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:55 +0000
Subject: [PATCH 19/31] fix: the user's gradient is negated along with the
 objective when maximising

---
 src/esostrategy.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 38551ef..5b34f30 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -169,7 +169,10 @@ namespace libcmaes
   dVec ESOStrategy<TParameters,TSolutions,TStopCriteria>::gradf(const dVec &x)
   {
     if (_gfunc != nullptr)
-      return _gfunc(x.data(),_parameters._dim);
+      {
+	dVec ugradf = _gfunc(x.data(),_parameters._dim);
+	return _parameters._maximize ? dVec(-ugradf) : ugradf; // gradient of the function being minimized.
+      }
     dVec vgradf(_parameters._dim);
     dVec epsilon = 1e-8 * (dVec::Constant(_parameters._dim,1.0) + x.cwiseAbs());
     double fx = _func(x.data(),_parameters._dim);
-- 
2.43.0


From 9ce48111003075d5b9ef24816df724ea917dfecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:55 +0000
Subject: [PATCH 20/31] fix: edm() uses the diagonal covariance with VD-CMA, as
 it does with sep-CMA

---
 src/esostrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/esostrategy.cc b/src/esostrategy.cc
index 5b34f30..15043b6 100644
--- a/src/esostrategy.cc
+++ b/src/esostrategy.cc
@@ -205,7 +205,7 @@ namespace libcmaes
     dVec gradgpf = gradgp(_solutions._xmean);
     gradff = gradff.cwiseProduct(gradgpf);
     dMat gradmn;
-    if (!_parameters._sep)
+    if (!_parameters._sep && !_parameters._vd)
       gradmn = _solutions._leigenvectors*_solutions._leigenvalues.cwiseSqrt().asDiagonal() * gradff;
     else gradmn = _solutions._sepcov.cwiseSqrt().cwiseProduct(gradff);
     double gradn = _solutions._sigma * gradmn.norm();
-- 
2.43.0


From f9435311988263d79d669d5b0fb766360520b921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:31 +0000
Subject: [PATCH 21/31] fix: tolX criterion compares with the tolerance
 relative to the initial step size

The path and standard deviations are to be scaled by sigma/sigma_init before
they are compared with the tolerance (as the comments say); scaling the
tolerance instead made diverging runs stop as converged in x.
---
 src/cmastopcriteria.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cmastopcriteria.cc b/src/cmastopcriteria.cc
index 13f50c9..596c483 100644
--- a/src/cmastopcriteria.cc
+++ b/src/cmastopcriteria.cc
@@ -166,16 +166,15 @@ namespace libcmaes
       {
 	double tolx = std::max(cmap._xtol,1e-12);
 	double factor = cmas._sigma / cmap._sigma_init;
-	double tfactor = tolx * factor;
 	// test1: all components of pc . factor < tolx.
 	for (int i=0;i<cmas._pc.rows();i++)
-	  if (cmas._pc[i]>=tfactor)
+	  if (factor*fabs(cmas._pc[i])>=tolx)
 	    return CONT;
 	//test 2: all square root components of cov . factor < tolx.
 	int covrows = std::max(cmas._cov.rows(),cmas._sepcov.rows());
 	for (int i=0;i<covrows;i++)
-	  if ((!cmap._sep && !cmap._vd && sqrt(cmas._cov(i,i))>=tfactor)
-	      || ((cmap._sep || cmap._vd) && sqrt(cmas._sepcov(i))>=tfactor))
+	  if ((!cmap._sep && !cmap._vd && factor*sqrt(cmas._cov(i,i))>=tolx)
+	      || ((cmap._sep || cmap._vd) && factor*sqrt(cmas._sepcov(i))>=tolx))
 	    return CONT;
 	LOG_IF(INFO,!cmap._quiet) << "stopping criteria tolX\n";
 	return TOLX;
-- 
2.43.0


From e85188257fd4c552f010eb342963e32618f79c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:14 +0000
Subject: [PATCH 22/31] fix: no target value is set when it is -infinity, its
 inactive state

---
 src/cmastopcriteria.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastopcriteria.cc b/src/cmastopcriteria.cc
index 596c483..530ba9f 100644
--- a/src/cmastopcriteria.cc
+++ b/src/cmastopcriteria.cc
@@ -105,7 +105,7 @@ namespace libcmaes
     _scriteria.insert(std::pair<int,StopCriteria<TGenoPheno> >(AUTOMAXITER,StopCriteria<TGenoPheno>(autoMaxIter)));
     StopCriteriaFunc<TGenoPheno> fTarget = [](const CMAParameters<TGenoPheno> &cmap, const CMASolutions &cmas)
       {
-	if (cmap._ftarget != std::numeric_limits<double>::infinity())
+	if (fabs(cmap._ftarget) != std::numeric_limits<double>::infinity()) // inactive state is -infinity
 	  {
 	    if (cmas.best_candidate().get_fvalue() <= cmap._ftarget)
 	      {
-- 
2.43.0


From b07099669da060afea0b8cdb46f57e9f9b265833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:06 +0000
Subject: [PATCH 23/31] fix: initializing the parameters again keeps the sep,
 VD, TPA and fixed-parameter settings in force

---
 src/cmaparameters.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 9565984..1b8513f 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -115,6 +115,20 @@ namespace libcmaes
     // uncertainty handling.
     this->_rlambda = std::max(0.1,2.0/Parameters<TGenoPheno>::_lambda);
     this->_alphathuh = 1 + 2.0/(Parameters<TGenoPheno>::_dim+10.0);
+
+    // options already in force, e.g. when parameters are initialized again for a restart.
+    if (_sep)
+      set_sep();
+    if (_vd)
+      set_vd();
+    if (this->_tpa == 2)
+      set_tpa(this->_tpa);
+    if (!this->_fixed_p.empty())
+      {
+	double ndim = Parameters<TGenoPheno>::_dim-Parameters<TGenoPheno>::_fixed_p.size();
+	_chi = sqrt(ndim)*(1.0-1.0/(4.0*ndim) + 1.0/(21.0*ndim*ndim));
+	_lazy_value = 1.0/(_c1+_cmu)/ndim/10.0;
+      }
   }
   
   template <class TGenoPheno>
-- 
2.43.0


From a30138e8eed6a33c2969256a0853a209904a26e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:06 +0000
Subject: [PATCH 24/31] fix: BIPOP started from a solution initializes its step
 size and budget

---
 src/bipopcmastrategy.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bipopcmastrategy.cc b/src/bipopcmastrategy.cc
index 861af48..a505273 100644
--- a/src/bipopcmastrategy.cc
+++ b/src/bipopcmastrategy.cc
@@ -53,6 +53,8 @@ namespace libcmaes
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._lambda = _lambda_def;
     CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters._mu = floor(_lambda_def / 2.0);
     //CMAStrategy<TCovarianceUpdate,TGenoPheno>::_solutions = CMASolutions(CMAStrategy<TCovarianceUpdate,TGenoPheno>::_parameters);
+    _sigma_init = parameters._sigma_init;
+    _max_fevals = parameters._max_fevals;
   }
 
   template <class TCovarianceUpdate, class TGenoPheno>
-- 
2.43.0


From 43e1f62b003544056555a306841310b7fe9a90f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:00 +0000
Subject: [PATCH 25/31] fix: set_vd warns about a non-VD algorithm only when
 not quiet

---
 src/cmaparameters.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cmaparameters.cc b/src/cmaparameters.cc
index 1b8513f..425efe5 100644
--- a/src/cmaparameters.cc
+++ b/src/cmaparameters.cc
@@ -177,7 +177,8 @@ namespace libcmaes
   {
     if (this->_algo != 12 && this->_algo != 13 && this->_algo != 14)
       {
-	std::cerr << "[Warning]: set_vd on non VD algorithm " << this->_algo << ". Not activating VD update\n";
+	if (!this->_quiet)
+	  std::cerr << "[Warning]: set_vd on non VD algorithm " << this->_algo << ". Not activating VD update\n";
 	return;
       }
     _vd = true;
-- 
2.43.0


From e4a8f31bb3519ccb52cc775b23c0ae66d4f2c0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:51 +0000
Subject: [PATCH 26/31] fix: profile likelihood, contour and algorithm
 selection messages respect quiet mode

---
 include/libcmaes/cmaparameters.h | 2 +-
 src/errstats.cc                  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/libcmaes/cmaparameters.h b/include/libcmaes/cmaparameters.h
index 17af439..16db86e 100644
--- a/include/libcmaes/cmaparameters.h
+++ b/include/libcmaes/cmaparameters.h
@@ -142,7 +142,7 @@ namespace libcmaes
 	std::map<std::string,int>::const_iterator mit;
 	if ((mit = Parameters<TGenoPheno>::_algos.find(algo))!=Parameters<TGenoPheno>::_algos.end())
 	  Parameters<TGenoPheno>::_algo = (*mit).second;
-	else LOG(ERROR) << "unknown algorithm " << algo << std::endl;
+	else LOG_IF(ERROR,!this->_quiet) << "unknown algorithm " << algo << std::endl;
 	if (algo.find("sep")!=std::string::npos)
 	  set_sep();
 	if (algo.find("vd")!=std::string::npos)
diff --git a/src/errstats.cc b/src/errstats.cc
index 45e53d3..6f7aaff 100644
--- a/src/errstats.cc
+++ b/src/errstats.cc
@@ -93,7 +93,7 @@ namespace libcmaes
 	CMASolutions ncitsol = errstats<TGenoPheno>::optimize_pk(func,parameters,citsol,k,x[k],x,false,false);
 	if (ncitsol._run_status < 0)
 	  {
-	    LOG(ERROR) << "profile likelihood linesearch: optimization error " << ncitsol._run_status << " -- " << ncitsol.status_msg() << std::endl;
+	    LOG_IF(ERROR,!parameters._quiet) << "profile likelihood linesearch: optimization error " << ncitsol._run_status << " -- " << ncitsol.status_msg() << std::endl;
 	    // pad and return.
 	    for (int j=0;j<samplesize;j++)
 	      {
@@ -105,7 +105,7 @@ namespace libcmaes
 	  }
 	else if (ncitsol.best_candidate().get_fvalue() < 1e-1*minfvalue)
 	  {
-	    LOG(ERROR) << "profile likelihood finds new minimum: " << ncitsol.best_candidate().get_fvalue() << std::endl;
+	    LOG_IF(ERROR,!parameters._quiet) << "profile likelihood finds new minimum: " << ncitsol.best_candidate().get_fvalue() << std::endl;
 	    // pad and return.
 	    for (int j=0;j<samplesize;j++)
 	      {
@@ -672,7 +672,7 @@ namespace libcmaes
 	    CMASolutions ncitsol = errstats<TGenoPheno>::optimize_vpk(func,parameters,citsol,par,vxk,parameters.get_x0min());
 	    if (ncitsol._run_status < 0)
 	      {
-		LOG(WARNING) << "contour linesearch: optimization error " << ncitsol._run_status << std::endl;
+		LOG_IF(WARNING,!parameters._quiet) << "contour linesearch: optimization error " << ncitsol._run_status << std::endl;
 	      }
 	    nminfvalue = ncitsol.best_candidate().get_fvalue();
 	    if (nminfvalue > aim)
@@ -721,7 +721,7 @@ namespace libcmaes
     if (tentatives < 10)
       goto point3;
 
-    LOG(WARNING) << "returning empty cross point when drawing contour\n";
+    LOG_IF(WARNING,!parameters._quiet) << "returning empty cross point when drawing contour\n";
     return fcross();
   }
   
-- 
2.43.0


From 714200edb05c7f47fea8f0568172cbabe630d298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:00 +0000
Subject: [PATCH 27/31] fix: pwq bounds: points far outside of the bounds
 overflowed an int and stayed outside

---
 src/pwq_bound_strategy.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pwq_bound_strategy.cc b/src/pwq_bound_strategy.cc
index 5fb94c7..8ab3c15 100644
--- a/src/pwq_bound_strategy.cc
+++ b/src/pwq_bound_strategy.cc
@@ -97,9 +97,9 @@ namespace libcmaes
     for (int i=0;i<x.rows();i++) //TODO: vectorize ?
       {
 	if (x_s[i] < _xlow[i])
-	  x_s[i] += _r[i] * (1.0 + static_cast<int>((_xlow[i]-x_s[i])/_r[i])); // shift up.
+	  x_s[i] += _r[i] * (1.0 + floor((_xlow[i]-x_s[i])/_r[i])); // shift up.
 	if (x_s[i] > _xup[i])
-	  x_s[i] -= _r[i] * (1.0 + static_cast<int>((x_s[i]-_xup[i])/_r[i])); // shift down;
+	  x_s[i] -= _r[i] * (1.0 + floor((x_s[i]-_xup[i])/_r[i])); // shift down;
 	if (x_s[i] < _lbounds[i] - _al[i])
 	  x_s[i] += 2.0 * (_lbounds[i] - _al[i] - x_s[i]);
 	if (x_s[i] > _ubounds[i] + _au[i])
-- 
2.43.0


From 211bf0c2c17d8f2a8ff96ba3b560e3d0b9db371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:00 +0000
Subject: [PATCH 28/31] fix: identity linear scaling without bounds read
 one-dimensional scaling vectors out of range

---
 include/libcmaes/genopheno.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index 7c1b4ef..95e8bde 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -296,6 +296,8 @@ namespace libcmaes
       if (!_id)
 	_phenof(candidate.data(),ncandidate.data(),candidate.rows());
       
+      if (_scalingstrategy._id)
+	return _id ? candidate : ncandidate;
       dVec sphen;
       if (!_id)
 	_scalingstrategy.scale_to_f(ncandidate,sphen);
@@ -304,8 +306,9 @@ namespace libcmaes
     }
   template<> inline dVec GenoPheno<NoBoundStrategy,linScalingStrategy>::geno(const dVec &candidate) const
     {
-      dVec scand = dVec::Zero(candidate.rows());
-      _scalingstrategy.scale_to_internal(scand,candidate);
+      dVec scand = candidate;
+      if (!_scalingstrategy._id)
+	_scalingstrategy.scale_to_internal(scand,candidate);
       if (_id)
 	return scand;
       else
@@ -321,6 +324,8 @@ namespace libcmaes
       if (!_id)
 	ncandidates = pheno_candidates(candidates);
       else ncandidates = candidates;
+      if (_scalingstrategy._id)
+	return ncandidates;
       
       // apply scaling.
 #pragma omp parallel for if (ncandidates.cols() >= 100)
-- 
2.43.0


From 661985131ac6707ffdb65a962470bdb221bec827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:00 +0000
Subject: [PATCH 29/31] fix: geno with linear scaling and a custom transform
 returned uninitialised values

---
 include/libcmaes/genopheno.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index 95e8bde..df3eda3 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -314,7 +314,7 @@ namespace libcmaes
       else
 	{
 	  dVec ncandidate(candidate.rows());
-	  _genof(scand.data(),scand.data(),candidate.rows());
+	  _genof(scand.data(),ncandidate.data(),candidate.rows());
 	  return ncandidate;
 	}
     }
-- 
2.43.0


From 34fb00727119be17ec84595b76e0d682e8091e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:00 +0000
Subject: [PATCH 30/31] fix: user bounds with a scaling vector were kept in
 internal instead of phenotype space

---
 include/libcmaes/genopheno.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcmaes/genopheno.h b/include/libcmaes/genopheno.h
index df3eda3..90ed731 100644
--- a/include/libcmaes/genopheno.h
+++ b/include/libcmaes/genopheno.h
@@ -363,7 +363,7 @@ namespace libcmaes
       dVec nlbounds, nubounds;
       _scalingstrategy.scale_to_internal(nlbounds,vlbounds);
       _scalingstrategy.scale_to_internal(nubounds,vubounds);
-      _boundstrategy = pwqBoundStrategy(nlbounds.data(),nubounds.data(),scaling.size());
+      _boundstrategy = pwqBoundStrategy(nlbounds.data(),nubounds.data(),lbounds,ubounds,scaling.size());
     }
 }
 
-- 
2.43.0


From f11dc5918f68fb43b482fc0f2b2c9fbcc3d988f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:30 +0000
Subject: [PATCH 31/31] fix: lazy updates of the eigen decomposition sampled
 around a stale mean

With lazy update the sampler's mean was only refreshed together with the
decomposition, so the generations in between sampled around an old mean.
---
 src/cmastrategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmastrategy.cc b/src/cmastrategy.cc
index cc8814c..0390686 100644
--- a/src/cmastrategy.cc
+++ b/src/cmastrategy.cc
@@ -154,11 +154,11 @@ namespace libcmaes
     if (!eostrat<TGenoPheno>::_parameters._sep && !eostrat<TGenoPheno>::_parameters._vd)
       {
 	eostrat<TGenoPheno>::_solutions._updated_eigen = false;
+	_esolver.setMean(eostrat<TGenoPheno>::_solutions._xmean);
 	if (eostrat<TGenoPheno>::_niter == 0 || !eostrat<TGenoPheno>::_parameters._lazy_update
 	    || eostrat<TGenoPheno>::_niter - eostrat<TGenoPheno>::_solutions._eigeniter > eostrat<TGenoPheno>::_parameters._lazy_value)
 	  {
 	    eostrat<TGenoPheno>::_solutions._eigeniter = eostrat<TGenoPheno>::_niter;
-	    _esolver.setMean(eostrat<TGenoPheno>::_solutions._xmean);
 	    _esolver.setCovar(eostrat<TGenoPheno>::_solutions._cov);
 	    eostrat<TGenoPheno>::_solutions._updated_eigen = true;
 	  }
-- 
2.43.0

