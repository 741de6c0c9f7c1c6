// What the stopping criteria mean.  Parsed and analysed next to the library,
// never run: the value a criterion returns is compared with the value given here.
#include <libcmaes/cmastrategy.h>
#include <libcmaes/cmastopcriteria.h>
#include <cmath>
#include <limits>
namespace spec {
using namespace libcmaes;
typedef GenoPheno<NoBoundStrategy> G;
typedef CMAParameters<G> P;
typedef CMASolutions S;

int crit_MAXFEVALS(const P &p, const S &s)
{ return (p._max_fevals != -1 && s._nevals >= p._max_fevals) ? MAXFEVALS : CONT; }

int crit_MAXITER(const P &p, const S &s)
{ return (p._max_iter != -1 && s._niter >= p._max_iter) ? MAXITER : CONT; }

int crit_AUTOMAXITER(const P &p, const S &s)
{
  double limit = 100.0 + 50*(p._dim+3)*(p._dim+3)/sqrt(p._lambda);
  if (p._vd && p._dim < 10)
    limit *= 1000.0;
  return s._niter >= limit ? AUTOMAXITER : CONT;
}

int crit_FTARGET(const P &p, const S &s)
{
  if (p._ftarget == -std::numeric_limits<double>::infinity() || p._ftarget == std::numeric_limits<double>::infinity())
    return CONT; // no target
  return s.best_candidate().get_fvalue() <= p._ftarget ? FTARGET : CONT;
}

// range of the best values of the last generations
int crit_TOLHISTFUN(const P &p, const S &s)
{
  int have = static_cast<int>(s._best_candidates_hist.size());
  int need = std::min(s._max_hist,static_cast<int>(10+ceil(30*p._dim/p._lambda)));
  int len = std::min(need,have);
  if (len < need)
    return CONT;
  double lo = std::numeric_limits<double>::max(), hi = -std::numeric_limits<double>::max();
  for (int i=0;i<len;i++)
    {
      lo = std::min(s._best_candidates_hist.at(have-1-i).get_fvalue(),lo);
      hi = std::max(s._best_candidates_hist.at(have-1-i).get_fvalue(),hi);
    }
  return fabs(hi-lo) < std::max(p._ftolerance,1e-12) ? TOLHISTFUN : CONT;
}

// best and k-th best value equal in more than a third of the generations
int crit_EQUALFUNVALS(const P &p, const S &s)
{
  int have = static_cast<int>(s._best_candidates_hist.size());
  int len = std::min(p._dim,have);
  if (len < s._max_hist)
    return CONT;
  int c = 0;
  for (int i=0;i<len;i++)
    if (s._best_candidates_hist.at(have-1-i).get_fvalue() == s._k_best_candidates_hist.at(have-1-i).get_fvalue())
      c++;
  return c > len/3.0 ? EQUALFUNVALS : CONT;
}

// evolution path and standard deviations, relative to the initial step size, below the tolerance
int crit_TOLX(const P &p, const S &s)
{
  double tol = std::max(p._xtol,1e-12);
  double rel = s._sigma / p._sigma_init;
  for (int i=0;i<s._pc.rows();i++)
    if (rel*fabs(s._pc[i]) >= tol)
      return CONT;
  int n = std::max(s._cov.rows(),s._sepcov.rows());
  for (int i=0;i<n;i++)
    if ((!p._sep && !p._vd && rel*sqrt(s._cov(i,i)) >= tol)
	|| ((p._sep || p._vd) && rel*sqrt(s._sepcov(i)) >= tol))
      return CONT;
  return TOLX;
}

int crit_TOLUPSIGMA(const P &p, const S &s)
{ return s._sigma / p._sigma_init > 1e20*sqrt(s._max_eigenv) ? TOLUPSIGMA : CONT; }

static double med(std::vector<double> v)
{
  size_t n = v.size();
  std::sort(v.begin(),v.end());
  if (n % 2 == 0)
    return (v[n/2-1] + v[n/2]) / 2;
  return v[n/2];
}

// median of the recent best values not below the median of the oldest medians
int crit_STAGNATION(const P &p, const S &s)
{
  if (s._bfvalues.size() < 20 || s._median_fvalues.size() < 20)
    return CONT;
  std::vector<double> old(20);
  std::copy_n(s._median_fvalues.begin(),20,old.begin());
  return med(s._bfvalues) >= med(old) ? STAGNATION : CONT;
}

int crit_CONDITIONCOV(const P &p, const S &s)
{ return s._max_eigenv / s._min_eigenv > 1e14 ? CONDITIONCOV : CONT; }

// adding a tenth of a standard deviation along any principal axis changes nothing
int crit_NOEFFECTAXIS(const P &p, const S &s)
{
  for (int i=0;i<p._dim;i++)
    for (int j=0;j<p._dim;j++)
      if ((!p._sep && !p._vd && s._xmean[i] != s._xmean[i] + 0.1*s._sigma*sqrt(s._leigenvalues(i))*s._leigenvectors(i,j))
	  || ((p._sep || p._vd) && s._xmean[i] != s._xmean[i] + 0.1*s._sigma*sqrt(s._leigenvalues(i))))
	return CONT;
  return NOEFFECTAXIS;
}

// adding a fifth of a standard deviation in any coordinate changes nothing
int crit_NOEFFECTCOOR(const P &p, const S &s)
{
  for (int i=0;i<p._dim;i++)
    if ((!p._sep && !p._vd && s._xmean[i] != s._xmean[i] + 0.2*s._sigma*sqrt(s._cov(i,i)))
	|| ((p._sep || p._vd) && s._xmean[i] != s._xmean[i] + 0.2*s._sigma*sqrt(s._sepcov(i))))
      return CONT;
  return NOEFFECTCOOR;
}

// the first active criterion that fires decides
int first_criterion(const CMAStopCriteria<G> &c, const P &p, const S &s)
{
  if (!c._active)
    return CONT;
  for (auto e : c._scriteria)
    {
      if (!e.second._active)
	continue;
      int r = e.second._sfunc(p,s);
      if (r != 0)
	return r;
    }
  return CONT;
}
}
