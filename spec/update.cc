// The update equations of the covariance adaptation, as in the papers the
// library implements.  Parsed and analysed next to the library, never run: the
// state an update leaves is compared with the state given here.
#include <libcmaes/cmastrategy.h>
#include <libcmaes/covarianceupdate.h>
#include <libcmaes/acovarianceupdate.h>
#include <libcmaes/vdcmaupdate.h>
#include <cmath>
namespace spec {
using namespace libcmaes;
typedef GenoPheno<NoBoundStrategy> G;
typedef CMAParameters<G> P;
typedef CMASolutions S;
typedef Eigen::EigenMultivariateNormal<double> M;

// threshold of the step-size path length under which the rank-one update is on
static double hsig_limit(const P &p, const S &s)
{
  return sqrt(1.0-pow(1.0-p._csigma,2.0*(s._niter+1)))*(1.4+2.0/(p._dim+1-p._fixed_p.size()))*p._chi;
}

static void step_size(const P &p, S &s, double norm_ps, bool capped)
{
  if (p._tpa < 2)
    {
      double f = exp((p._csigma/p._dsigma)*(norm_ps/p._chi - 1.0));
      s._sigma = s._sigma * (capped ? std::min(p._deltamaxsigma,f) : f);
    }
  else if (s._niter > 0) // two-point adaptation
    s._sigma = s._sigma * exp(s._tpa_s/p._dsigma);
}

// Hansen, The CMA evolution strategy: a tutorial
void update_CovarianceUpdate(const P &p, M &esolver, S &s)
{
  dVec old = s._xmean;
  double sigma = s._sigma;
  dVec m = dVec::Zero(p._dim);
  for (int i=0;i<p._mu;i++)
    m += p._weights[i] * s._candidates.at(i).get_x_dvec();
  dVec d = (m-old) / sigma;
  if (s._updated_eigen && !p._sep)
    s._csqinv = esolver._eigenSolver.operatorInverseSqrt();
  else if (p._sep)
    s._sepcsqinv = s._sepcov.cwiseInverse().cwiseSqrt();
  if (p._sep)
    s._psigma = (1.0-p._csigma)*s._psigma + p._fact_ps * s._sepcsqinv.cwiseProduct(d);
  else s._psigma = (1.0-p._csigma)*s._psigma + p._fact_ps * s._csqinv * d;
  double norm_ps = s._psigma.norm();
  int hsig = norm_ps < hsig_limit(p,s) ? 1 : 0;
  s._hsig = hsig;
  s._pc = (1.0-p._cc)*s._pc + hsig*p._fact_pc*d;
  double keep = 1-p._c1-p._cmu+(1-hsig)*p._c1*p._cc*(2.0-p._cc);
  if (p._sep)
    {
      dMat rank = dMat::Zero(p._dim,1);
      for (int i=0;i<p._mu;i++)
	{
	  dVec y = s._candidates.at(i).get_x_dvec() - old;
	  rank += p._weights[i] * y.cwiseProduct(y);
	}
      s._sepcov = keep*s._sepcov + p._c1*s._pc.cwiseProduct(s._pc) + p._cmu/(sigma*sigma)*rank;
    }
  else
    {
      dMat rank = dMat::Zero(p._dim,p._dim);
      for (int i=0;i<p._mu;i++)
	{
	  dVec y = s._candidates.at(i).get_x_dvec() - old;
	  rank += p._weights[i] * (y*y.transpose());
	}
      s._cov = keep*s._cov + p._c1*(s._pc*s._pc.transpose()) + p._cmu/(sigma*sigma)*rank;
    }
  step_size(p,s,norm_ps,false);
  if (p._tpa)
    s._xmean_prev = old;
  s._xmean = m;
}

// Hansen and Ros, Benchmarking a weighted negative covariance matrix update
void update_ACovarianceUpdate(const P &p, M &esolver, S &s)
{
  dVec old = s._xmean;
  double sigma = s._sigma;
  dVec m = dVec::Zero(p._dim);
  for (int i=0;i<p._mu;i++)
    m += p._weights[i] * (s._candidates.at(i).get_x_dvec() - old);
  m = p._cm*m + old;
  dVec d = (m-old) / (sigma*p._cm);
  if (s._updated_eigen && !p._sep)
    s._csqinv = esolver._eigenSolver.operatorInverseSqrt();
  else if (p._sep)
    s._sepcsqinv = s._sepcov.cwiseInverse().cwiseSqrt();
  if (p._sep)
    s._psigma = (1.0-p._csigma)*s._psigma + p._fact_ps * s._sepcsqinv.cwiseProduct(d);
  else s._psigma = (1.0-p._csigma)*s._psigma + p._fact_ps * s._csqinv * d;
  double norm_ps = s._psigma.norm();
  int hsig = norm_ps < hsig_limit(p,s) ? 1 : 0;
  s._hsig = hsig;
  s._pc = (1.0-p._cc)*s._pc + hsig*p._fact_pc*d;
  double limit = p._alphaminusmin * (1.0-p._cmu) * (1.0-p._lambdamintarget);
  double cdef = (1-p._cmu)*p._alphacov/8.0*(p._muw/(pow(p._dim+2.0,1.5)+2.0*p._muw));
  if (p._sep)
    {
      dMat plus = dMat::Zero(p._dim,1), minus = dMat::Zero(p._dim,1);
      for (int i=0;i<p._mu;i++)
	{
	  dVec y = s._candidates.at(i).get_x_dvec() - old;
	  plus += p._weights[i] * y.cwiseProduct(y);
	}
      for (int i=0;i<p._mu;i++)
	{
	  dVec y = (s._candidates.at(p._lambda-i-1).get_x_dvec() - old) / sigma;
	  minus += p._weights[i] * y.cwiseProduct(y);
	}
      plus *= 1.0/(sigma*sigma);
      dMat white = s._sepcsqinv.cwiseProduct(minus.cwiseProduct(s._sepcsqinv));
      double cminus = std::min(limit / white.maxCoeff(),cdef);
      s._sepcov = (1-p._c1-p._cmu+cminus*p._alphaminusold)*s._sepcov + p._c1*s._pc.cwiseProduct(s._pc) + (p._cmu+cminus*(1.0-p._alphaminusold))*plus - cminus*minus;
    }
  else
    {
      dMat plus = dMat::Zero(p._dim,p._dim), minus = dMat::Zero(p._dim,p._dim);
      for (int i=0;i<p._mu;i++)
	{
	  dVec y = s._candidates.at(i).get_x_dvec() - old;
	  plus += p._weights[i] * (y*y.transpose());
	}
      for (int i=0;i<p._mu;i++)
	{
	  dVec y = (s._candidates.at(p._lambda-i-1).get_x_dvec() - old) / sigma;
	  minus += p._weights[i] * (y*y.transpose());
	}
      plus *= 1.0/(sigma*sigma);
      dMat white = s._csqinv*minus*s._csqinv;
      Eigen::SelfAdjointEigenSolver<dMat> es(white);
      double cminus = std::min(limit / es.eigenvalues().maxCoeff(),cdef);
      s._cov = (1-p._c1-p._cmu+cminus*p._alphaminusold)*s._cov + p._c1*(s._pc*s._pc.transpose()) + (p._cmu+cminus*(1.0-p._alphaminusold))*plus - cminus*minus;
    }
  step_size(p,s,norm_ps,true);
  s._xmean_prev = old;
  s._xmean = m;
}

// Akimoto, Auger and Hansen, Comparison-based natural gradient optimization in high dimension
void update_VDCMAUpdate(const P &p, M &esolver, S &s)
{
  (void)esolver;
  dVec old = s._xmean;
  double sigma = s._sigma;
  dVec m = dVec::Zero(p._dim);
  for (int i=0;i<p._mu;i++)
    m += p._weights[i] * s._candidates.at(i).get_x_dvec();
  dVec d = (m-old) / sigma;
  s._sepcsqinv = s._sepcov.cwiseInverse();
  dVec one = dVec::Constant(p._dim,1.0);
  s._psigma = (1.0-p._csigma)*s._psigma + p._fact_ps * (one + s._v.cwiseProduct(s._v)).cwiseSqrt().cwiseInverse().cwiseProduct(s._sepcsqinv).cwiseProduct(d);
  double norm_ps = s._psigma.norm();
  int hsig = norm_ps < hsig_limit(p,s) ? 1 : 0;
  s._hsig = hsig;
  s._pc = (1.0-p._cc)*s._pc + hsig*p._fact_pc*d;
  double nv2 = s._v.squaredNorm();
  dVec vn = s._v / std::sqrt(nv2), vnn = vn.cwiseProduct(vn);
  if (p._cmu + p._c1*hsig > 0)
    {
      double g = 1.0+nv2;
      double alpha = std::min(1.0,std::sqrt(nv2*nv2+(2-1.0/std::sqrt(g))*g/vnn.maxCoeff())/(2.0+nv2));
      double b = -(1-alpha*alpha)*nv2*nv2/g + 2.0*alpha*alpha;
      dVec ainv = (dVec::Constant(p._dim,2.0) - (b+2*alpha*alpha)*vnn).cwiseInverse();
      dVec ainvbb = ainv.cwiseProduct(vnn);
      dMat y(p._dim,p._mu);
      for (int i=0;i<p._mu;i++)
	y.col(i) = s._sepcsqinv.cwiseProduct(s._candidates.at(i).get_x_dvec() - old) / sigma;
      dMat ym = s._sepcsqinv.cwiseProduct(s._pc);
      dVec yv = vn.transpose() * y;
      dVec pv = (y.cwiseProduct(y) - (nv2/g)*((vn*yv.transpose()).cwiseProduct(y)) - dMat::Constant(p._dim,p._mu,1.0)) * p._weights;
      dMat qv = (y.cwiseProduct(yv.replicate(1,p._dim).transpose()) - 0.5*vn*(yv.cwiseProduct(yv) + dVec::Constant(p._mu,g)).transpose()) * p._weights;
      dVec yv1 = vn.transpose() * ym;
      dVec p1 = ym.cwiseProduct(ym) - (nv2/g)*((vn*yv1.transpose()).cwiseProduct(ym)) - dVec::Constant(p._dim,1.0);
      dVec q1 = ym.cwiseProduct(yv1.replicate(1,p._dim).transpose()) - 0.5*vn*(yv1.cwiseProduct(yv1) + dVec::Constant(1,g));
      if (hsig)
	{
	  pv = p._cmu*pv + p._c1*p1;
	  qv = p._cmu*qv + p._c1*q1;
	}
      else
	{
	  pv = p._cmu*pv;
	  qv = p._cmu*qv;
	}
      double nu = (vn.transpose()*qv)(0);
      dVec rv = pv - (alpha/g)*((2.0+nv2)*(vn.cwiseProduct(qv)) - nv2*nu*vnn);
      double nu1 = ainvbb.transpose()*rv;
      double nu2 = ainvbb.transpose()*vnn;
      dVec sv = rv.cwiseProduct(ainv) - (b*nu1/(1.0+b*nu2))*ainvbb;
      double nu3 = sv.transpose()*vnn;
      dVec gv = (qv - alpha*((2+nv2)*(vn.cwiseProduct(sv)) - nu3*vn))/std::sqrt(nv2);
      s._v = s._v + gv;
      s._sepcov = s._sepcov + s._sepcov.cwiseProduct(sv);
    }
  step_size(p,s,norm_ps,false);
  if (p._tpa)
    s._xmean_prev = old;
  s._xmean = m;
}
}
