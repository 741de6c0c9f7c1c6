// Evaluation of a generation: who is evaluated where, elitism, and the handling of
// noisy objectives (re-evaluation, reranking, uncertainty level).
// Parsed and analysed next to the library, never run.
#include <libcmaes/cmastrategy.h>
#include <algorithm>
#include <cmath>
#include <limits>
namespace spec {
using namespace libcmaes;

template <class E> void eval(E &e, const dMat &candidates, const dMat &phenocandidates)
{
  CMASolutions &s = e._solutions;
  int n = candidates.cols();
  for (int r=0;r<n;r++)
    {
      Candidate &c = s._candidates.at(r);
      c._x = candidates.col(r);
      c._id = r;
      if (phenocandidates.size())
	c._fvalue = e._func(phenocandidates.col(r).data(),candidates.rows());
      else c._fvalue = e._func(candidates.col(r).data(),candidates.rows());
    }
  int calls = n;
  if (e._parameters._uh)
    e.perform_uh(candidates,phenocandidates,calls);

  // from the second generation on, the elite replaces the second candidate when
  // fewer than half of the points are better
  bool initial = e._parameters._initial_elitist || e._parameters._initial_elitist_on_restart;
  bool on = e._parameters._elitist || e._parameters._initial_elitist || (e._initial_elitist && e._parameters._initial_elitist_on_restart);
  if (e._niter > 0 && on)
    {
      Candidate elite = initial ? s._initial_candidate : s._best_seen_candidate;
      int better = 0;
      for (int r=0;r<n;r++)
	if (s._candidates.at(r)._fvalue < elite._fvalue)
	  better++;
      if (better < n / 2)
	s._candidates.at(1) = elite;
    }
  e._nevals += calls;
  s._nevals += calls;
}

// number of re-evaluated points: rlambda * lambda in the mean, one at least; they
// are mutated slightly in the search space
template <class E> void select_candidates_uh(E &e, const dMat &candidates, const dMat &phenocandidates, dMat &out)
{
  CMASolutions &s = e._solutions;
  double r = e._parameters._rlambda * e._parameters._lambda;
  int l = std::floor(r);
  s._lambda_reev = l;
  if (e._uhunif(e._uhgen) < r - l)
    s._lambda_reev = l + 1;
  if (s._lambda_reev == 0)
    s._lambda_reev = 1;
  dMat first = candidates.block(0,0,candidates.rows(),s._lambda_reev);
  if (s._sepcov.size())
    e._uhesolver.set_covar(s._sepcov);
  else e._uhesolver.set_covar(s._cov);
  dMat z = e._uhesolver.samples_ind(s._lambda_reev);
  out = first + e._parameters._epsuh * s._sigma * z;
  if (phenocandidates.size())
    out = e._parameters._gp.pheno(out);
}

// the first points get a second value, the others keep theirs
template <class E> void eval_candidates_uh(E &e, const dMat &candidates, const dMat &mutated, std::vector<RankedCandidate> &ranked, int &calls)
{
  CMASolutions &s = e._solutions;
  for (int r=0;r<candidates.cols();r++)
    {
      double f = s._candidates.at(r)._fvalue;
      if (r < s._lambda_reev)
	{
	  f = e._func(mutated.col(r).data(),mutated.rows());
	  calls = calls + 1;
	}
      ranked.emplace_back(f,s._candidates.at(r),r);
    }
}

template <class E> void set_candidates_uh(E &e, const std::vector<RankedCandidate> &ranked) { e._solutions._candidates_uh = ranked; }

template <class E> void uncertainty_handling(E &e)
{
  CMASolutions &s = e._solutions;
  std::vector<RankedCandidate> &u = s._candidates_uh;
  int reev = s._lambda_reev;
  // ranks with the first and with the second value
  std::sort(u.begin(),u.end(),[](const RankedCandidate &a, const RankedCandidate &b){ return a._fvalue < b._fvalue; });
  for (size_t i=0;i<u.size();i++)
    u[i]._r1 = i;
  std::sort(u.begin(),u.end(),[](const RankedCandidate &a, const RankedCandidate &b){ return a._fvalue_mut < b._fvalue_mut; });
  for (size_t i=0;i<u.size();i++)
    u[i]._r2 = i;
  // rank changes
  for (size_t i=0;i<u.size();i++)
    if (u[i]._idx < reev)
      {
	int d = u[i]._r2 - u[i]._r1;
	u[i]._delta = d - (d > 0 ? 1 : d < 0 ? -1 : 0);
      }
  double mean = 0.0;
  for (size_t i=0;i<u.size();i++)
    mean += std::fabs(u[i]._delta);
  mean = mean / reev;
  // uncertainty level against the change expected by chance
  double level = 0.0;
  for (size_t i=0;i<u.size();i++)
    {
      if (u[i]._idx < reev)
	{
	  double a = u[i]._r2 - (u[i]._r2 > u[i]._r1 ? 1 : 0);
	  double b = u[i]._r1 - (u[i]._r1 > u[i]._r2 ? 1 : 0);
	  std::vector<double> da, db;
	  for (int j=1;j<2*e._parameters._lambda;j++)
	    da.push_back(std::fabs(j - a));
	  for (int j=1;j<2*e._parameters._lambda;j++)
	    db.push_back(std::fabs(j - b));
	  std::sort(da.begin(),da.end());
	  std::sort(db.begin(),db.end());
	  double f = e._parameters._thetauh * 0.5;
	  level += 2 * std::fabs(u[i]._delta) - da[int(da.size() * f)] - db[int(db.size() * f)];
	}
    }
  s._suh = level / reev;
  // new order: sum of the ranks, then size of the change, then sum of the values
  std::sort(u.begin(),u.end(),[reev,mean](const RankedCandidate &a, const RankedCandidate &b)
	    {
	      int ra = a._r1 + a._r2, rb = b._r1 + b._r2;
	      if (ra != rb)
		return ra < rb;
	      double da = a._idx < reev ? std::fabs(a._delta) : mean, db = b._idx < reev ? std::fabs(b._delta) : mean;
	      if (da != db)
		return da < db;
	      return a._fvalue + a._fvalue_mut < b._fvalue + b._fvalue_mut;
	    });
  std::vector<Candidate> n;
  for (size_t i=0;i<u.size();i++)
    n.push_back(s._candidates[u[i]._idx]);
  s._candidates = n;
}

typedef GenoPheno<NoBoundStrategy> G0; typedef GenoPheno<pwqBoundStrategy> G1;
typedef GenoPheno<NoBoundStrategy,linScalingStrategy> G2; typedef GenoPheno<pwqBoundStrategy,linScalingStrategy> G3;
#define EO(G) typedef ESOStrategy<CMAParameters<G>,CMASolutions,CMAStopCriteria<G> > E##G; \
  template void eval(E##G&,const dMat&,const dMat&); template void select_candidates_uh(E##G&,const dMat&,const dMat&,dMat&); \
  template void uncertainty_handling(E##G&); template void eval_candidates_uh(E##G&,const dMat&,const dMat&,std::vector<RankedCandidate>&,int&); \
  template void set_candidates_uh(E##G&,const std::vector<RankedCandidate>&);
EO(G0) EO(G1) EO(G2) EO(G3)
}
