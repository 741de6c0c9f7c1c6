// IPOP and BIPOP restarts around single runs of the strategy, in exact form.
// Parsed and analysed next to the library, never run.
#include <libcmaes/ipopcmastrategy.h>
#include <libcmaes/bipopcmastrategy.h>
#include <libcmaes/opti_err.h>
#include <cmath>
namespace spec {
using namespace libcmaes;
typedef GenoPheno<NoBoundStrategy> G;
typedef CMAStrategy<CovarianceUpdate,G> Base;
typedef IPOPCMAStrategy<CovarianceUpdate,G> IPOP;
typedef BIPOPCMAStrategy<CovarianceUpdate,G> BIPOP;

// the population doubles, everything that depends on it is recomputed
void lambda_inc(IPOP &s)
{
  s._parameters._lambda = 2 * s._parameters._lambda;
  s._parameters.initialize_parameters();
}

// the next run starts from a fresh state that fits the parameters
void reset_search_state(IPOP &s)
{
  s._solutions = CMASolutions(s._parameters);
  s._niter = 0;
}

void capture_best_solution(IPOP &s, CMASolutions &best_run)
{
  if (best_run._candidates.empty() || s._solutions.best_candidate().get_fvalue() < best_run.best_candidate().get_fvalue())
    best_run = s._solutions;
}

int optimize(IPOP &s, const EvalFunc &evalf, const AskFunc &askf, const TellFunc &tellf)
{
  CMASolutions best;
  for (int r=0;r<s._parameters._nrestarts;r++)
    {
      s.Base::optimize(evalf,askf,tellf);
      capture_best_solution(s,best);
      lambda_inc(s);
      reset_search_state(s);
      if (s._parameters._max_fevals > 0 && s._nevals >= s._parameters._max_fevals)
	break;
    }
  s._solutions = best;
  return s._solutions._run_status >= 0 ? OPTI_SUCCESS : OPTI_ERR_TERMINATION;
}

// large population regime: twice the last large population, the initial step size
void r1(BIPOP &s)
{
  s._lambda_l = 2 * static_cast<int>(s._lambda_l);
  s._parameters._lambda = s._lambda_l;
  s._parameters.initialize_parameters();
  s._parameters._sigma_init = s._sigma_init;
}

// small population regime
void r2(BIPOP &s)
{
  double u = s._unif(s._gen);
  double us = s._unif(s._gen);
  s._parameters._lambda = ceil(s._lambda_def * pow(0.5*(s._lambda_l/s._lambda_def),u));
  s._parameters._sigma_init = 2.0*pow(10,-2.0*us);
  s._parameters.initialize_parameters();
}

void BIPOPCMAStrategy(BIPOP &s, FitFunc &func, CMAParameters<G> &p)
{
  s._lambda_def = p._lambda;
  s._lambda_l = p._lambda;
  s._sigma_init = p._sigma_init;
  s._max_fevals = p._max_fevals;
}

void BIPOPCMAStrategy(BIPOP &s, FitFunc &func, CMAParameters<G> &p, const CMASolutions &sols)
{
  s._lambda_def = p._lambda;
  s._lambda_l = p._lambda;
  s._sigma_init = p._sigma_init;
  s._max_fevals = p._max_fevals;
}

int optimize(BIPOP &s, const EvalFunc &evalf, const AskFunc &askf, const TellFunc &tellf)
{
  int large = 0, small = 0; // evaluations spent in each regime
  CMASolutions best;
  for (int r=0;r<s._parameters._nrestarts;r++)
    {
      while (large > small)
	{
	  r2(s);
	  s._parameters._max_fevals = 0.5*large;
	  s._solutions = CMASolutions(s._parameters);
	  s._niter = 0;
	  s.Base::optimize(evalf,askf,tellf);
	  small += s._solutions._niter * s._parameters._lambda;
	  capture_best_solution(s,best);
	}
      if (r > 0)
	{
	  r1(s);
	  s._solutions = CMASolutions(s._parameters);
	  s._niter = 0;
	}
      s._parameters._max_fevals = s._max_fevals;
      s.Base::optimize(evalf,askf,tellf);
      large += s._solutions._niter * s._parameters._lambda;
      capture_best_solution(s,best);
    }
  s._solutions = best;
  return s._solutions._run_status >= 0 ? OPTI_SUCCESS : OPTI_ERR_TERMINATION;
}
}
