// The solution object: what is remembered of a run and what is reported.
// Parsed and analysed next to the library, never run: values returned and
// states left by the methods are compared with those given here.
#include <libcmaes/cmastrategy.h>
#include <algorithm>
#include <cmath>
#include <limits>
namespace spec {
using namespace libcmaes;
typedef GenoPheno<NoBoundStrategy> G;
typedef CMAParameters<G> P;
typedef CMASolutions S;

void sort_candidates(S &s)
{
  std::stable_sort(s._candidates.begin(),s._candidates.end(),
		   [](const Candidate &a, const Candidate &b){ return a._fvalue < b._fvalue; });
}

void update_best_candidates(S &s)
{
  s._best_candidates_hist.push_back(s._candidates.at(0));
  s._k_best_candidates_hist.push_back(s._candidates.at(s._kcand));
  if ((int)s._best_candidates_hist.size() > s._max_hist)
    {
      s._best_candidates_hist.erase(s._best_candidates_hist.begin());
      s._k_best_candidates_hist.erase(s._k_best_candidates_hist.begin());
    }
  s._bfvalues.push_back(s._candidates.at(0)._fvalue);
  if (s._bfvalues.size() > 20)
    s._bfvalues.erase(s._bfvalues.begin());
  size_t n = s._candidates.size();
  double median = n % 2 == 0 ? (s._candidates[n/2-1]._fvalue+s._candidates[n/2]._fvalue)/2.0 : s._candidates[n/2]._fvalue;
  s._median_fvalues.push_back(median);
  if (s._median_fvalues.size() > static_cast<size_t>(ceil(0.2*s._niter+120+30*s._xmean.size()/static_cast<double>(n))))
    s._median_fvalues.erase(s._median_fvalues.begin());
  if ((s._niter == 0 && !s._best_seen_candidate._x.size()) || s._candidates.at(0)._fvalue < s._best_seen_candidate._fvalue)
    {
      s._best_seen_candidate = s._candidates.at(0);
      s._best_seen_iter = s._niter;
    }
  if ((s._niter == 0 && !s._worst_seen_candidate._x.size()) || s._candidates.back()._fvalue > s._worst_seen_candidate._fvalue)
    s._worst_seen_candidate = s._candidates.back();
}

void update_eigenv(S &s, const dVec &values, const dMat &vectors)
{
  s._max_eigenv = values.maxCoeff();
  s._min_eigenv = values.minCoeff();
  s._leigenvalues = values;
  s._leigenvectors = vectors;
}

Candidate best_candidate(S &s)
{
  if (s._best_candidates_hist.empty())
    {
      if (s._initial_candidate._x.size())
	return s._initial_candidate;
      return Candidate(std::numeric_limits<double>::quiet_NaN(),s._xmean);
    }
  return s._best_candidates_hist.back();
}

Candidate get_best_seen_candidate(S &s) { return s._best_seen_candidate; }
Candidate get_worst_seen_candidate(S &s) { return s._worst_seen_candidate; }
Candidate get_candidate(S &s, const int &r) { return s._candidates.at(r); }
std::vector<Candidate> candidates(S &s) { return s._candidates; }
int size(S &s) { return s._candidates.size(); }
int dim(S &s) { return s._xmean.size(); }
double edm(S &s) { return s._edm; }
dMat cov(S &s) { return s._cov; }
dMat cov_ref(S &s) { return s._cov; }
dMat sepcov(S &s) { return s._sepcov; }
dMat sepcov_ref(S &s) { return s._sepcov; }
dMat csqinv(S &s) { return s._csqinv; }
dMat sepcsqinv(S &s) { return s._sepcsqinv; }
const double* cov_data(S &s) { return s._cov.data(); }
const double* sepcov_data(S &s) { return s._sepcov.data(); }
double sigma(S &s) { return s._sigma; }
dVec xmean(S &s) { return s._xmean; }
int run_status(S &s) { return s._run_status; }
int elapsed_time(S &s) { return s._elapsed_time; }
int elapsed_last_iter(S &s) { return s._elapsed_last_iter; }
int niter(S &s) { return s._niter; }
int nevals(S &s) { return s._nevals; }
int fevals(S &s) { return s._nevals; }
double min_eigenv(S &s) { return s._min_eigenv; }
double max_eigenv(S &s) { return s._max_eigenv; }
bool updated_eigen(S &s) { return s._updated_eigen; }
dVec eigenvalues(S &s) { return s._leigenvalues; }
dMat eigenvectors(S &s) { return s._leigenvectors; }
void set_sigma(S &s, const double &v) { s._sigma = v; }
void set_xmean(S &s, const dVec &v) { s._xmean = v; }

static dMat vd_cov(S &s)
{
  return s._sepcov.asDiagonal()*(dMat::Identity(s._sepcov.rows(),s._sepcov.rows())+s._v*s._v.transpose())*(s._sepcov.asDiagonal());
}

dMat full_cov(S &s)
{
  if (s._cov.size() > 0)
    return s._cov;
  if (s._v.size())
    return vd_cov(s);
  return s._sepcov.asDiagonal();
}

dVec stds(S &s, const P &p)
{
  dVec sd;
  if (!p._sep && !p._vd)
    sd = s._cov.diagonal().cwiseSqrt();
  else if (p._sep)
    sd = s._sepcov.cwiseSqrt();
  else
    sd = (dVec::Constant(p._dim,1.0)+s._v.cwiseProduct(s._v)).cwiseSqrt().cwiseProduct(s._sepcov);
  return (p._gp.pheno(static_cast<dVec>(s._xmean+sd))-p._gp.pheno(s._xmean)).cwiseAbs();
}

dVec errors(S &s, const P &p) { return std::sqrt(s._sigma)*stds(s,p); }

void reset(S &s)
{
  s._best_candidates_hist.clear();
  s._cov = dMat::Identity(s._csqinv.rows(),s._csqinv.cols());
  s._niter = 0;
  s._nevals = 0;
  s._psigma = dVec::Zero(s._cov.rows());
  s._pc = dVec::Zero(s._cov.rows());
  s._k_best_candidates_hist.clear();
  s._bfvalues.clear();
  s._median_fvalues.clear();
  s._run_status = 0;
  s._elapsed_time = 0;
  s._elapsed_last_iter = 0;
}

// the state a run starts from
void CMASolutions(S &s, Parameters<G> &pp)
{
  P &p = static_cast<P&>(pp);
  s._hsig = 1;
  s._max_eigenv = 0.0;
  s._min_eigenv = 0.0;
  s._niter = 0;
  s._nevals = 0;
  s._eigeniter = 0;
  s._updated_eigen = true;
  s._run_status = 0;
  s._elapsed_time = 0;
  s._elapsed_last_iter = 0;
  s._edm = 0.0;
  s._tpa_s = 0.0;
  s._tpa_p1 = 0;
  s._tpa_p2 = 1;
  s._cov = dMat();
  s._sepcov = dMat();
  if (!p._sep && !p._vd)
    s._cov = dMat::Identity(p._dim,p._dim);
  else s._sepcov = dMat::Constant(p._dim,1,1.0);
  if (p._sigma_init > 0.0)
    s._sigma = p._sigma_init;
  else s._sigma = 1.0/static_cast<double>(p._dim);
  s._psigma = dVec::Zero(p._dim);
  s._pc = dVec::Zero(p._dim);
  s._candidates = std::vector<Candidate>();
  s._candidates.resize(p._lambda);
  s._kcand = std::min(p._lambda-1,static_cast<int>(1.0+ceil(0.1+p._lambda/4.0)));
  s._max_hist = p._max_hist > 0 ? p._max_hist : static_cast<int>(10+ceil(30*p._dim/p._lambda));
}
}
