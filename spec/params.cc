// Strategy parameters: the published default values and what each option
// changes.  Parsed and analysed next to the library, never run: the parameter
// object a constructor or setter leaves is compared with the one given here.
#include <libcmaes/cmastrategy.h>
#include <cmath>
#include <limits>
namespace spec {
using namespace libcmaes;
typedef GenoPheno<NoBoundStrategy> G;
typedef CMAParameters<G> P;

// expected length of a standard normal vector
static double chi(double n) { return sqrt(n)*(1.0-1.0/(4.0*n)+1.0/(21.0*n*n)); }

static double damping(const P &p)
{
  return 1.0+p._csigma+2.0*std::max(0.0,sqrt((p._muw-1.0)/(p._dim+1.0))-1.0);
}

static double rank_mu_rate(const P &p, double scale)
{
  double d = p._dim+2.0;
  return std::min(1.0-p._c1,scale*2.0*(p._muw-2.0+1.0/p._muw)/(d*d+p._muw));
}

static double lazy(const P &p, double n) { return 1.0/(p._c1+p._cmu)/n/10.0; }

static void sep_rates(P &p)
{
  double n = p._dim;
  p._c1 = p._c1*(n+2.0)/3.0;
  p._cmu = std::min(1.0-p._c1,(0.3+p._muw-2.0+1.0/p._muw)/(n+4.0*sqrt(n)+p._muw/2.0));
  p._lazy_value = lazy(p,n);
  p._cc = (1.0+1.0/n+p._muw/n)/(sqrt(n)+1.0/n+2.0*p._muw/n);
}

static void vd_rates(P &p)
{
  double n = p._dim;
  p._csigma = sqrt(p._muw)/(2.0*(sqrt(n)+sqrt(p._muw)));
  p._c1 = p._c1*(n-5.0)/6.0;
  p._cmu = rank_mu_rate(p,(n-5.0)/6.0);
  if (p._tpa == 0)
    p._dsigma = damping(p);
  p._fact_ps = sqrt(p._csigma*(2.0-p._csigma)*p._muw);
}

static void fixed_rates(P &p)
{
  double n = p._dim-(double)p._fixed_p.size();
  p._chi = chi(n);
  p._lazy_value = lazy(p,n);
}

// Hansen, The CMA evolution strategy: a tutorial; then the options in force
void initialize_parameters(P &p)
{
  p._mu = (int)floor(p._lambda/2.0);
  p._weights = dVec::Zero(p._mu);
  double sum = 0.0, sq = 0.0;
  for (int i=0;i<p._mu;i++)
    {
      double w = log(p._mu+1.0)-log(i+1.0);
      p._weights[i] = w;
      sum += w;
      sq += w*w;
    }
  p._weights /= sum;
  p._muw = sum*sum/sq;
  double n = p._dim;
  if (p._dim < 1000)
    p._csigma = (p._muw+2.0)/(n+p._muw+5.0);
  else p._csigma = (sqrt(p._muw)+2.0)/(sqrt(n)+sqrt(p._muw)+3.0);
  p._cc = (4.0+p._muw/n)/(n+4.0+2.0*p._muw/n);
  p._c1 = 2.0/((n+1.3)*(n+1.3)+p._muw);
  p._cmu = rank_mu_rate(p,1.0);
  p._dsigma = damping(p);
  p._fact_ps = sqrt(p._csigma*(2.0-p._csigma)*p._muw);
  p._fact_pc = sqrt(p._cc*(2.0-p._cc)*p._muw);
  p._chi = chi(n);
  p._lazy_value = lazy(p,n);
  p._deltamaxsigma = std::numeric_limits<double>::max();
  p._rlambda = std::max(0.1,2.0/p._lambda);
  p._alphathuh = 1.0+2.0/(n+10.0);
  if (p._sep)
    sep_rates(p);
  if (p._vd && (p._algo == 12 || p._algo == 13 || p._algo == 14))
    vd_rates(p);
  if (p._tpa == 2)
    p._dsigma = 4.0-3.6/sqrt(n);
  if (!p._fixed_p.empty())
    fixed_rates(p);
}

void set_noisy(P &p)
{
  p._lambda = (int)(p._lambda*5.0);
  initialize_parameters(p);
  p._c1 = p._c1*0.2;
  p._cmu = rank_mu_rate(p,0.2);
}

void set_tpa(P &p, const int &b)
{
  p._tpa = b;
  p._dsigma = b == 2 ? 4.0-3.6/sqrt((double)p._dim) : damping(p);
}

void set_tpa_dsigma(P &p, const double &d) { p._dsigma = d; }

void set_sep(P &p) { p._sep = true; sep_rates(p); }

void set_vd(P &p)
{
  if (p._algo != 12 && p._algo != 13 && p._algo != 14)
    return;
  p._vd = true;
  vd_rates(p);
}

void set_fixed_p(P &p, const int &k, const double &v)
{
  p._fixed_p[k] = v;
  fixed_rates(p);
}

void unset_fixed_p(P &p, const int &k)
{
  std::unordered_map<int,double>::iterator it = p._fixed_p.find(k);
  if (it != p._fixed_p.end())
    p._fixed_p.erase(it);
  fixed_rates(p);
}

void set_elitism(P &p, const int &e)
{
  if (e < 0 || e > 3)
    return;
  p._elitist = e == 1;
  p._initial_elitist = e == 2;
  p._initial_elitist_on_restart = e == 3;
}

void set_stopping_criteria(P &p, const int &c, const bool &a) { p._stoppingcrit[c] = a; }

// one option each
void set_restarts(P &p, const int &v) { p._nrestarts = v; }
void set_lazy_update(P &p, const bool &v) { p._lazy_update = v; }
void set_algo(P &p, const int &v) { p._algo = v; }
void set_gradient(P &p, const bool &v) { p._with_gradient = v; }
void set_max_iter(P &p, const int &v) { p._max_iter = v; }
void set_max_fevals(P &p, const int &v) { p._max_fevals = v; }
void set_ftarget(P &p, const double &v) { p._ftarget = v; }
void reset_ftarget(P &p) { p._ftarget = -std::numeric_limits<double>::infinity(); }
void set_ftolerance(P &p, const double &v) { p._ftolerance = v; }
void set_xtolerance(P &p, const double &v) { p._xtol = v; }
void set_quiet(P &p, const bool &v) { p._quiet = v; }
void set_full_fplot(P &p, const bool &v) { p._full_fplot = v; }
void set_edm(P &p, const bool &v) { p._with_edm = v; }
void set_mt_feval(P &p, const bool &v) { p._mt_feval = v; }
void set_max_hist(P &p, const int &v) { p._max_hist = v; }
void set_maximize(P &p, const bool &v) { p._maximize = v; }
void set_initial_fvalue(P &p, const bool &v) { p._initial_fvalue = v; }
void set_uh(P &p, const bool &v) { p._uh = v; }
void set_fplot(P &p, const std::string &v) { p._fplot = v; }
void set_gp(P &p, const G &v) { p._gp = v; }

// starting point
void set_x0(P &p, const double &v) { p._x0min = dVec::Constant(p._dim,v); p._x0max = dVec::Constant(p._dim,v); }
void set_x0(P &p, const dVec &v) { p._x0min = v; p._x0max = v; }
void set_x0(P &p, const double &a, const double &b) { p._x0min = dVec::Constant(p._dim,a); p._x0max = dVec::Constant(p._dim,b); }
void set_x0(P &p, const dVec &a, const dVec &b) { p._x0min = a; p._x0max = b; }
void set_x0(P &p, const double *v)
{
  p._x0min = dVec(p._dim);
  p._x0max = dVec(p._dim);
  for (int i=0;i<p._dim;i++)
    {
      p._x0min[i] = v[i];
      p._x0max[i] = v[i];
    }
}
void set_x0(P &p, const double *a, const double *b)
{
  p._x0min = dVec(p._dim);
  p._x0max = dVec(p._dim);
  for (int i=0;i<p._dim;i++)
    {
      p._x0min[i] = a[i];
      p._x0max[i] = b[i];
    }
}
void set_x0(P &p, const std::vector<double> &a, const std::vector<double> &b) { set_x0(p,&a[0],&b[0]); }

// constructors; the seed is the caller's unless it is 0
static void defaults(P &p)
{
  p._quiet = true;
  p._fplot = "";
  p._full_fplot = false;
  p._max_iter = -1;
  p._max_fevals = -1;
  p._ftarget = -std::numeric_limits<double>::infinity();
  p._ftolerance = 1e-12;
  p._xtol = 1e-12;
  p._algo = 0;
  p._with_gradient = false;
  p._with_edm = false;
  p._mt_feval = false;
  p._max_hist = -1;
  p._maximize = false;
  p._initial_fvalue = false;
  p._uh = false;
  p._epsuh = 1e-7;
  p._thetauh = 0.2;
  p._csuh = 1.0;
  p._tpa = 1;
  p._tpa_csigma = 0.3;
  p._nrestarts = 9;
  p._lazy_update = false;
  p._cm = 1.0;
  p._alphacov = 2.0;
  p._alphaminusold = 0.5;
  p._lambdamintarget = 0.66;
  p._alphaminusmin = 1.0;
  p._sep = false;
  p._vd = false;
  p._elitist = false;
  p._initial_elitist = false;
  p._initial_elitist_on_restart = false;
}

static void start(P &p, int dim, const double *x0, int lambda)
{
  p._dim = dim;
  p._lambda = lambda < 2 ? (int)(4+floor(3.0*log((double)dim))) : lambda;
  set_x0(p,x0);
  defaults(p);
  p._fixed_p = std::unordered_map<int,double>();
  initialize_parameters(p);
}

void CMAParameters(P &p, const int &dim, const double *x0, const double &sigma, const int &lambda, const uint64_t &seed, const G &gp)
{
  start(p,dim,x0,lambda);
  p._sigma_init = sigma;
  p._gp = gp;
}

void CMAParameters(P &p, const std::vector<double> &x0, const double &sigma, const int &lambda, const uint64_t &seed, const G &gp)
{
  start(p,x0.size(),&x0[0],lambda);
  p._sigma_init = sigma;
  p._gp = gp;
}

// what the getters report
double get_sigma_init(P &p) { return p._sigma_init; }
bool is_sep(P &p) { return p._sep; }
bool is_vd(P &p) { return p._vd; }
int get_restarts(P &p) { return p._nrestarts; }
bool get_lazy_update(P &p) { return p._lazy_update; }
dVec get_x0min(P &p) { return p._x0min; }
dVec get_x0max(P &p) { return p._x0max; }
int get_max_iter(P &p) { return p._max_iter; }
int get_max_fevals(P &p) { return p._max_fevals; }
double get_ftarget(P &p) { return p._ftarget; }
int get_seed(P &p) { return p._seed; }
double get_ftolerance(P &p) { return p._ftolerance; }
double get_xtolerance(P &p) { return p._xtol; }
int lambda(P &p) { return p._lambda; }
int dim(P &p) { return p._dim; }
bool quiet(P &p) { return p._quiet; }
int get_algo(P &p) { return p._algo; }
G get_gp(P &p) { return p._gp; }
std::string get_fplot(P &p) { return p._fplot; }
bool get_gradient(P &p) { return p._with_gradient; }
bool get_edm(P &p) { return p._with_edm; }
bool get_mt_feval(P &p) { return p._mt_feval; }
bool get_maximize(P &p) { return p._maximize; }
bool get_uh(P &p) { return p._uh; }
int get_tpa(P &p) { return p._tpa; }
}
