// From the space the search works in (genotype) to the space of the objective
// function (phenotype) and back: custom transform, box bounds, linear scaling.
// Parsed and analysed next to the library, never run.
#include <libcmaes/genopheno.h>
#include <libcmaes/pwq_bound_strategy.h>
#include <cmath>
#include <limits>
#include <vector>
namespace spec {
using namespace libcmaes;
typedef pwqBoundStrategy B;
typedef linScalingStrategy L;
typedef NoBoundStrategy NB;
typedef NoScalingStrategy NS;

// ---- box bounds: identity inside, quadratic near the bounds, periodic outside
static void derive(B &b)
{
  int n = b._lbounds.size();
  b._al = dVec(n); b._au = dVec(n); b._xlow = dVec(n); b._xup = dVec(n); b._r = dVec(n);
  for (int i=0;i<n;i++)
    {
      double half = (b._ubounds[i] - b._lbounds[i]) / 2;
      b._al[i] = std::min(half, (1 + std::fabs(b._lbounds[i])) / 20);
      b._au[i] = std::min(half, (1 + std::fabs(b._ubounds[i])) / 20);
      b._xlow[i] = b._lbounds[i] - 2 * b._al[i] - half;
      b._xup[i] = b._ubounds[i] + 2 * b._au[i] + half;
      b._r[i] = 2 * (b._ubounds[i] - b._lbounds[i] + b._al[i] + b._au[i]);
    }
}

void pwqBoundStrategy(B &b, const double *lbounds, const double *ubounds, const int &dim)
{
  b._lbounds = Eigen::Map<dVec>(const_cast<double*>(lbounds),dim);
  b._ubounds = Eigen::Map<dVec>(const_cast<double*>(ubounds),dim);
  b._phenolbounds = b._lbounds;
  b._phenoubounds = b._ubounds;
  b._id = false;
  derive(b);
}

void pwqBoundStrategy(B &b, const double *lbounds, const double *ubounds,
		      const double *plbounds, const double *pubounds, const int &dim)
{
  b._lbounds = Eigen::Map<dVec>(const_cast<double*>(lbounds),dim);
  b._ubounds = Eigen::Map<dVec>(const_cast<double*>(ubounds),dim);
  b._phenolbounds = Eigen::Map<dVec>(const_cast<double*>(plbounds),dim);
  b._phenoubounds = Eigen::Map<dVec>(const_cast<double*>(pubounds),dim);
  b._id = false;
  derive(b);
}

static double shifted(const B &b, double v, int i)
{
  if (v < b._xlow[i])
    v = v + b._r[i] * (1.0 + std::floor((b._xlow[i] - v) / b._r[i]));
  if (v > b._xup[i])
    v = v - b._r[i] * (1.0 + std::floor((v - b._xup[i]) / b._r[i]));
  double lo = b._lbounds[i] - b._al[i];
  double hi = b._ubounds[i] + b._au[i];
  if (v < lo)
    v = 2 * lo - v;
  if (v > hi)
    v = 2 * hi - v;
  return v;
}

static double bounded(const B &b, double v, int i)
{
  if (v < b._lbounds[i] + b._al[i])
    {
      double d = v - (b._lbounds[i] - b._al[i]);
      return b._lbounds[i] + d * d / (4 * b._al[i]);
    }
  if (v > b._ubounds[i] - b._au[i])
    {
      double d = v - (b._ubounds[i] + b._au[i]);
      return b._ubounds[i] - d * d / (4 * b._au[i]);
    }
  return v;
}

void shift_into_feasible(const B &b, const dVec &x, dVec &x_s)
{
  dVec out(x.size());
  for (int i=0;i<x.size();i++)
    out[i] = shifted(b,x[i],i);
  x_s = out;
}

void to_f_representation(const B &b, const dVec &x, dVec &y)
{
  dVec out(x.size());
  for (int i=0;i<x.size();i++)
    out[i] = bounded(b,shifted(b,x[i],i),i);
  y = out;
}

// the right inverse: to_f_representation of the value is y
void to_internal_representation(const B &b, dVec &x, const dVec &y)
{
  dVec out(y.size());
  for (int i=0;i<y.size();i++)
    {
      if (y[i] < b._lbounds[i] + b._al[i])
	out[i] = b._lbounds[i] - b._al[i] + 2.0 * std::sqrt(b._al[i] * std::fabs(y[i] - b._lbounds[i]));
      else if (y[i] > b._ubounds[i] - b._au[i])
	out[i] = b._ubounds[i] + b._au[i] - 2.0 * std::sqrt(b._au[i] * std::fabs(b._ubounds[i] - y[i]));
      else out[i] = y[i];
    }
  x = out;
}

double getLBound(const B &b, const int &k) { return b._lbounds[k]; }
double getUBound(const B &b, const int &k) { return b._ubounds[k]; }
double getPhenoLBound(const B &b, const int &k) { return b._phenolbounds[k]; }
double getPhenoUBound(const B &b, const int &k) { return b._phenoubounds[k]; }
double getAL(const B &b, const int &k) { return b._al[k]; }
double getAU(const B &b, const int &k) { return b._au[k]; }
bool is_id(const B &b) { return b._id; }

// ---- no bounds
void to_f_representation(const NB &b, const dVec &x, dVec &y) {}
double getLBound(const NB &b, const int &k) { return -std::numeric_limits<double>::max(); }
double getUBound(const NB &b, const int &k) { return std::numeric_limits<double>::max(); }
double getPhenoLBound(const NB &b, const int &k) { return -std::numeric_limits<double>::max(); }
double getPhenoUBound(const NB &b, const int &k) { return std::numeric_limits<double>::max(); }
bool is_id(const NB &b) { return b._id; }

// ---- linear scaling: [lbounds,ubounds] onto [0,10]
void linScalingStrategy(L &l)
{
  l._scaling = dVec::Constant(1,1.0);
  l._shift = dVec::Zero(1);
  l._intmin = 0.0;
  l._intmax = 10.0;
  l._id = true;
}

void compute_scaling(L &l, const double *lbounds, const double *ubounds, const int &dim)
{
  dVec lb = Eigen::Map<dVec>(const_cast<double*>(lbounds),dim);
  dVec ub = Eigen::Map<dVec>(const_cast<double*>(ubounds),dim);
  dVec sc(dim), sh(dim);
  for (int i=0;i<dim;i++)
    {
      sc[i] = (l._intmax - l._intmin) / std::min(ub[i] - lb[i],std::numeric_limits<double>::max());
      sh[i] = l._intmax - sc[i] * ub[i];
    }
  l._scaling = sc;
  l._shift = sh;
}

void linScalingStrategy(L &l, const double *lbounds, const double *ubounds, const int &dim)
{
  l._intmin = 0.0;
  l._intmax = 10.0;
  compute_scaling(l,lbounds,ubounds,dim);
  l._id = false;
}

void linScalingStrategy(L &l, const dVec &scaling, const dVec &shift)
{
  l._scaling = scaling;
  l._shift = shift;
  l._intmin = 0.0;
  l._intmax = 10.0;
  l._id = false;
}

void scale_to_internal(const L &l, dVec &x, const dVec &y)
{
  dVec out(y.size());
  for (int i=0;i<y.size();i++)
    out[i] = y[i] * l._scaling[i] + l._shift[i];
  x = out;
}

void scale_to_f(const L &l, const dVec &x, dVec &y)
{
  dVec out(x.size());
  for (int i=0;i<x.size();i++)
    out[i] = (x[i] - l._shift[i]) / l._scaling[i];
  y = out;
}

bool is_id(const L &l) { return l._id; }

void scale_to_internal(const NS &l, dVec &x, const dVec &y) { x = y; }
void scale_to_f(const NS &l, const dVec &x, dVec &y) { y = x; }
bool is_id(const NS &l) { return l._id; }

// ---- the whole transform
static dVec custom(const TransFunc &f, const dVec &x)
{
  dVec out(x.size());
  f(x.data(),out.data(),x.size());
  return out;
}

static dVec inbounds(const B &b, const dVec &x) { dVec y; to_f_representation(b,x,y); return y; }
static dVec inbounds(const NB &b, const dVec &x) { return x; }
static dVec unbound(const B &b, const dVec &y) { dVec x; to_internal_representation(b,x,y); return x; }
static dVec unbound(const NB &b, const dVec &y) { return y; }

template <class TB, class TS> dVec pheno(const GenoPheno<TB,TS> &g, const dVec &candidate)
{
  dVec y = candidate;
  if (!g._id)
    y = custom(g._phenof,y);
  y = inbounds(g._boundstrategy,y);
  if (!g._scalingstrategy._id)
    {
      dVec s;
      scale_to_f(g._scalingstrategy,y,s);
      y = s;
    }
  return y;
}

template <class TB, class TS> dVec geno(const GenoPheno<TB,TS> &g, const dVec &candidate)
{
  dVec x = candidate;
  if (!g._scalingstrategy._id)
    {
      dVec s;
      scale_to_internal(g._scalingstrategy,s,x);
      x = s;
    }
  x = unbound(g._boundstrategy,x);
  if (!g._id)
    x = custom(g._genof,x);
  return x;
}

// every column on its own
template <class TB, class TS> dMat pheno(const GenoPheno<TB,TS> &g, const dMat &candidates)
{
  dMat m(candidates.rows(),candidates.cols());
  for (int j=0;j<candidates.cols();j++)
    {
      dVec x = candidates.col(j);
      m.col(j) = pheno(g,x);
    }
  return m;
}

// set up: bounds of the search space are those of the phenotype, or their images
// under the scaling
static void bound(B &b, const L &l, const double *lbounds, const double *ubounds, const int &dim)
{
  std::vector<double> lb(dim,l._intmin);
  std::vector<double> ub(dim,l._intmax);
  b = B(lb.data(),ub.data(),lbounds,ubounds,dim);
}
static void bound(B &b, const NS &l, const double *lbounds, const double *ubounds, const int &dim)
{
  b = B(lbounds,ubounds,dim);
}
template <class TS> static void bound(NB &b, const TS &l, const double *lbounds, const double *ubounds, const int &dim) {}

template <class TB, class TS> void GenoPheno_(libcmaes::GenoPheno<TB,TS> &g) { g._id = true; }

template <class TB, class TS> void GenoPheno_(libcmaes::GenoPheno<TB,TS> &g, TransFunc &genof, TransFunc &phenof)
{
  g._genof = genof;
  g._phenof = phenof;
  g._id = false;
}

template <class TB, class TS> void GenoPheno_(libcmaes::GenoPheno<TB,TS> &g, const double *lbounds, const double *ubounds, const int &dim)
{
  g._id = true;
  g._scalingstrategy = TS(lbounds,ubounds,dim);
  bound(g._boundstrategy,g._scalingstrategy,lbounds,ubounds,dim);
}

template <class TB, class TS> void GenoPheno_(libcmaes::GenoPheno<TB,TS> &g, TransFunc &genof, TransFunc &phenof,
					      const double *lbounds, const double *ubounds, const int &dim)
{
  g._genof = genof;
  g._phenof = phenof;
  g._id = false;
  g._scalingstrategy = TS(lbounds,ubounds,dim);
  bound(g._boundstrategy,g._scalingstrategy,lbounds,ubounds,dim);
}

static void scaled(NB &b, L &l, const dVec &scaling, const dVec &shift, const double *lbounds, const double *ubounds) { l = L(scaling,shift); }
static void scaled(B &b, L &l, const dVec &scaling, const dVec &shift, const double *lbounds, const double *ubounds)
{
  l = L(scaling,shift);
  b = B();
  if (lbounds == nullptr || ubounds == nullptr)
    return;
  dVec lb = Eigen::Map<dVec>(const_cast<double*>(lbounds),scaling.size());
  dVec ub = Eigen::Map<dVec>(const_cast<double*>(ubounds),scaling.size());
  dVec ilb = lb.cwiseProduct(scaling) + shift;
  dVec iub = ub.cwiseProduct(scaling) + shift;
  b = B(ilb.data(),iub.data(),lbounds,ubounds,scaling.size());
}
template <class TB> static void scaled(TB &b, NS &l, const dVec &scaling, const dVec &shift, const double *lbounds, const double *ubounds) {}

template <class TB, class TS> void GenoPheno_(libcmaes::GenoPheno<TB,TS> &g, const dVec &scaling, const dVec &shift,
					      const double *lbounds, const double *ubounds)
{
  g._id = true;
  scaled(g._boundstrategy,g._scalingstrategy,scaling,shift,lbounds,ubounds);
}

#define CT(G) template void GenoPheno_(G&); template void GenoPheno_(G&, TransFunc&, TransFunc&); template void GenoPheno_(G&, const double*, const double*, const int&); \
  template void GenoPheno_(G&, TransFunc&, TransFunc&, const double*, const double*, const int&); \
  template void GenoPheno_(G&, const dVec&, const dVec&, const double*, const double*);
#define ALL(G) template dVec pheno(const G&, const dVec&); template dVec geno(const G&, const dVec&); template dMat pheno(const G&, const dMat&);
typedef GenoPheno<NB,NS> G0; typedef GenoPheno<B,NS> G1; typedef GenoPheno<NB,L> G2; typedef GenoPheno<B,L> G3;
ALL(G0) ALL(G1) ALL(G2) ALL(G3)
CT(G0) CT(G1) CT(G2) CT(G3)
}
