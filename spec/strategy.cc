// One generation of the strategy: sampling, evaluation, the order of the update,
// gradients, expected distance to the minimum and two-point step-size adaptation.
// Parsed and analysed next to the library, never run.
#include <libcmaes/cmastrategy.h>
#include <libcmaes/covarianceupdate.h>
#include <libcmaes/acovarianceupdate.h>
#include <libcmaes/vdcmaupdate.h>
#include <cmath>
#include <limits>
namespace spec {
using namespace libcmaes;
typedef Eigen::EigenMultivariateNormal<double> N;

// ---- the sampler
void setMean(N &n, const dVec &mean) { n._mean = mean; }
void set_covar(N &n, const dMat &covar) { n._covar = covar; }
void set_transform(N &n, const dMat &transform) { n._transform = transform; }

// C = T T^t
void setCovar(N &n, const dMat &covar)
{
  n._covar = covar;
  if (n._use_cholesky)
    n._transform = Eigen::LLT<dMat>(covar).matrixL();
  else
    {
      n._eigenSolver = Eigen::SelfAdjointEigenSolver<dMat>(covar);
      n._transform = n._eigenSolver.eigenvectors() * n._eigenSolver.eigenvalues().cwiseMax(0).cwiseSqrt().asDiagonal();
    }
}

// x = m + factor * T z, z standard normal
dMat samples(N &n, int nn, double factor)
{
  dMat z = dMat::NullaryExpr(n._covar.rows(),nn,n.randN);
  dMat x = factor * (n._transform * z);
  for (int i=0;i<nn;i++)
    x.col(i) = n._mean + x.col(i);
  return x;
}

dMat samples_ind(N &n, int nn, double factor)
{
  dMat x = dMat::NullaryExpr(n._covar.rows(),nn,n.randN);
  for (int i=0;i<nn;i++)
    x.col(i) = n._mean + factor * n._transform.cwiseProduct(x.col(i));
  return x;
}

dMat samples_ind(N &n, int nn) { return dMat::NullaryExpr(n._covar.rows(),nn,n.randN); }

// ---- evaluation and counters
template <class E> void inc_iter(E &e) { e._niter = e._niter + 1; e._solutions._niter = e._solutions._niter + 1; }

template <class E> void update_fevals(E &e, const int &evals)
{
  e._nevals = e._nevals + evals;
  e._solutions._nevals = e._solutions._nevals + evals;
}

// forward differences, kept within the bounds; the user's gradient when there is one
template <class E> dVec gradf(E &e, const dVec &x)
{
  int n = e._parameters._dim;
  if (e._gfunc != nullptr)
    {
      dVec g = e._gfunc(x.data(),n);
      if (e._parameters._maximize)
	g = -g;
      return g;
    }
  double fx = e._func(x.data(),n);
  dVec g(n);
  for (int i=0;i<n;i++)
    {
      double eps = 1e-8 * (1.0 + std::fabs(x[i]));
      dVec y = x;
      y[i] = std::min(x[i] + eps,e._parameters._gp.get_boundstrategy_ref().getPhenoUBound(i));
      g[i] = (e._func(y.data(),n) - fx) / eps;
    }
  update_fevals(e,n+1);
  return g;
}

template <class E> dVec gradgp(const E &e, const dVec &x)
{
  int n = e._parameters._dim;
  dVec up(n), down(n), g(n), eps(n);
  for (int i=0;i<n;i++)
    {
      eps[i] = 1e-8 * (1.0 + std::fabs(x[i]));
      up[i] = x[i] + eps[i];
      down[i] = x[i] - eps[i];
    }
  dVec a = e._parameters._gp.pheno(up), b = e._parameters._gp.pheno(down);
  for (int i=0;i<n;i++)
    g[i] = (a[i] - b[i]) / (2.0 * eps[i]);
  return g;
}

template <class E> double edm(E &e)
{
  int n = e._parameters._dim;
  dVec g = gradf(e,e._parameters._gp.pheno(e._solutions._xmean));
  g = g.cwiseProduct(gradgp(e,e._solutions._xmean));
  dVec d;
  if (e._parameters._sep || e._parameters._vd)
    d = e._solutions._sepcov.cwiseSqrt().cwiseProduct(g);
  else d = e._solutions._leigenvectors * e._solutions._leigenvalues.cwiseSqrt().asDiagonal() * g;
  e._solutions._edm = n / (10.0 * (std::sqrt(e._parameters._lambda / 4.0 + 0.5) - 1.0)) * e._solutions._sigma * d.norm();
  return e._solutions._edm;
}

// ---- sampling of a population
template <class U, class G> dMat ask(CMAStrategy<U,G> &c)
{
  CMASolutions &s = c._solutions;
  CMAParameters<G> &p = c._parameters;
  dMat pop;
  // x_i = m + sigma * N(0,C)
  c._esolver._mean = s._xmean;
  if (p._sep)
    {
      c._esolver._covar = s._sepcov;
      c._esolver._transform = s._sepcov.cwiseSqrt();
      pop = samples_ind(c._esolver,p._lambda,s._sigma);
    }
  else if (p._vd)
    {
      c._esolver._covar = s._sepcov;
      dMat z = samples_ind(c._esolver,p._lambda);
      // C = D (I + v v^T) D
      double nv = s._v.squaredNorm();
      dVec vbar = s._v / std::sqrt(nv);
      dMat y = z + (std::sqrt(1 + nv) - 1) * (vbar * (vbar.transpose() * z));
      pop = y;
      for (int i=0;i<y.cols();i++)
	pop.col(i) = s._xmean + s._sigma * s._sepcov.cwiseProduct(y.col(i));
    }
  else
    {
      s._updated_eigen = false;
      if (c._niter == 0 || !p._lazy_update || c._niter - s._eigeniter > p._lazy_value)
	{
	  s._eigeniter = c._niter;
	  c._esolver.setCovar(s._cov);
	  s._updated_eigen = true;
	}
      pop = samples(c._esolver,p._lambda,s._sigma);
    }

  // the gradient step replaces the first candidate
  if (p._with_gradient)
    {
      dVec g = c.gradf(p._gp.pheno(s._xmean));
      g = g.cwiseProduct(c.gradgp(s._xmean));
      if (g != dVec::Zero(p._dim))
	{
	  if (!p._sep && !p._vd)
	    {
	      dMat rootc = c._esolver._eigenSolver.operatorSqrt();
	      dVec q = rootc * g;
	      pop.col(0) = s._xmean - s._sigma * std::sqrt(p._dim / q.squaredNorm()) * (s._cov * g);
	    }
	  else pop.col(0) = s._xmean - s._sigma * (std::sqrt(p._dim) / (s._sepcov.cwiseSqrt().cwiseProduct(g)).norm()) * s._sepcov.cwiseProduct(g);
	}
    }

  // two symmetric points along the last shift of the mean
  if (p._tpa == 2 && c._niter > 0)
    {
      dVec shift = s._xmean - s._xmean_prev;
      double len;
      if (!p._sep && !p._vd)
	{
	  dVec w = c._esolver._eigenSolver.eigenvalues().cwiseSqrt().cwiseInverse();
	  dVec r = c._esolver._eigenSolver.eigenvectors().transpose() * shift;
	  len = w.cwiseProduct(r).norm() / s._sigma;
	}
      else len = s._sepcov.cwiseSqrt().cwiseInverse().cwiseProduct(shift).norm() / s._sigma;
      dMat z = samples_ind(c._esolver,1);
      dVec step = z.norm() * (shift / len);
      s._tpa_x1 = s._xmean + step;
      s._tpa_x2 = s._xmean - step;
      if (p._with_gradient)
	{
	  s._tpa_p1 = 1;
	  s._tpa_p2 = 2;
	}
      pop.col(s._tpa_p1) = s._tpa_x1;
      pop.col(s._tpa_p2) = s._tpa_x2;
    }

  // fixed parameters keep their value
  for (auto &f : p._fixed_p)
    pop.row(f.first) = dVec::Constant(pop.cols(),f.second).transpose();
  return pop;
}

// ---- the update: rank, remember, adapt
template <class U, class G> void tell(CMAStrategy<U,G> &c)
{
  CMASolutions &s = c._solutions;
  CMAParameters<G> &p = c._parameters;
  if (p._uh)
    c.uncertainty_handling();
  else s.sort_candidates();
  if (p._tpa == 2 && c._niter > 0)
    c.tpa_update();
  s.update_best_candidates();
  U::update(p,c._esolver,s);
  if (p._uh && s._suh > 0.0)
    s._sigma = s._sigma * p._alphathuh;
  if (p._sep || p._vd)
    s.update_eigenv(s._sepcov,dMat::Constant(p._dim,1,1.0));
  else s.update_eigenv(c._esolver._eigenSolver.eigenvalues(),c._esolver._eigenSolver.eigenvectors());
}

// change of rank between the two points, averaged over time
template <class E> void tpa_update(E &e)
{
  int r1 = -1, r2 = -1;
  for (size_t i=0;i<e._solutions._candidates.size();i++)
    if (e._solutions._candidates[i]._id == e._solutions._tpa_p1)
      {
	r1 = i;
	break;
      }
  for (size_t i=0;i<e._solutions._candidates.size();i++)
    if (e._solutions._candidates[i]._id == e._solutions._tpa_p2)
      {
	r2 = i;
	break;
      }
  double a = e._parameters._tpa_csigma;
  e._solutions._tpa_s = (1.0 - a) * e._solutions._tpa_s + a * (r2 - r1) / (e._parameters._lambda - 1.0);
}

typedef GenoPheno<NoBoundStrategy> G0; typedef GenoPheno<pwqBoundStrategy> G1;
typedef GenoPheno<NoBoundStrategy,linScalingStrategy> G2; typedef GenoPheno<pwqBoundStrategy,linScalingStrategy> G3;
#define EO(G) typedef ESOStrategy<CMAParameters<G>,CMASolutions,CMAStopCriteria<G> > E##G; \
  template void inc_iter(E##G&); template void update_fevals(E##G&,const int&); template dVec gradf(E##G&,const dVec&); \
  template dVec gradgp(const E##G&,const dVec&); template double edm(E##G&); template void tpa_update(E##G&);
EO(G0) EO(G1) EO(G2) EO(G3)
#define ST(U,G) template dMat ask(CMAStrategy<U,G>&); template void tell(CMAStrategy<U,G>&);
#define ST3(G) ST(CovarianceUpdate,G) ST(ACovarianceUpdate,G) ST(VDCMAUpdate,G)
ST3(G0) ST3(G1) ST3(G2) ST3(G3)
}
