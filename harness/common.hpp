// Shared generators, objective family, runner and recorder for the libcmaes property checks.
// Uses only the public interface of the library.
#ifndef COMMON_HPP
#define COMMON_HPP
#include "pbt.hpp"
#include <libcmaes/cmaes.h>
#include <mutex>
#include <memory>
#include <omp.h>

using namespace libcmaes;
using pbt::Gen;
using pbt::Ctx;
using pbt::Property;
typedef std::vector<double> dv;

inline std::string str(const dv &v)
{
  std::ostringstream o;
  o << std::setprecision(17) << '[';
  for (size_t i=0;i<v.size();i++) o << (i ? "," : "") << v[i];
  o << ']';
  return o.str();
}
inline std::string str(const dVec &v) { return str(dv(v.data(),v.data()+v.size())); }
inline std::string str(double d) { std::ostringstream o; o << std::setprecision(17) << d; return o.str(); }
inline std::string str(int i) { return std::to_string(i); }
inline std::string str(size_t i) { return std::to_string(i); }
inline dv tov(const dVec &v) { return dv(v.data(),v.data()+v.size()); }
inline dVec toe(const dv &v) { dVec r(v.size()); for (size_t i=0;i<v.size();i++) r(i) = v[i]; return r; }
inline bool samebits(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool same(const dv &a, const dv &b)
{
  if (a.size() != b.size()) return false;
  for (size_t i=0;i<a.size();i++) if (!samebits(a[i],b[i])) return false;
  return true;
}
inline bool same(const dVec &a, const dVec &b) { return same(tov(a),tov(b)); }
inline bool same(const dMat &a, const dMat &b)
{
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i=0;i<a.rows();i++) for (int j=0;j<a.cols();j++) if (!samebits(a(i,j),b(i,j))) return false;
  return true;
}
inline bool close(double a, double b, double rel, double abs=0.0)
{
  if (a == b) return true;
  return std::fabs(a-b) <= abs + rel*std::max(std::fabs(a),std::fabs(b));
}

// ---- objective family -------------------------------------------------------------------------------------
enum { O_SPHERE=0, O_ELLI, O_LIN, O_QUART, O_ROSEN, O_RAST, O_ABS, O_MAXABS, O_CIGAR, O_PLATEAU, O_HASH, O_CONST, O_NOBJ };
struct Obj
{
  int kind = 0;
  double scale = 1.0, shift = 0.0;
  double noise = 0.0; // amplitude of a term that depends on every bit of the point
  dv c; // centre
  static uint64_t mix(uint64_t h) { h ^= h>>33; h *= 0xff51afd7ed558ccdULL; h ^= h>>33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h>>33; return h; }
  static double hash(const double *x, int n)
  {
    uint64_t h = 88172645463325252ULL;
    for (int i=0;i<n;i++) { uint64_t b; double v = x[i]; memcpy(&b,&v,8); h = mix(h ^ b) + i; }
    return (double)(h>>11) / 9007199254740992.0;
  }
  double raw(const double *x, int n) const
  {
    double s = 0.0;
    auto z = [&](int i) { return x[i]-(i < (int)c.size() ? c[i] : 0.0); };
    switch (kind)
      {
      case O_SPHERE: for (int i=0;i<n;i++) s += z(i)*z(i); return s;
      case O_ELLI: for (int i=0;i<n;i++) s += std::pow(100.0,n>1 ? i/(n-1.0) : 0.0)*z(i)*z(i); return s;
      case O_LIN: for (int i=0;i<n;i++) s += (i+1.0)*((i%2) ? -1 : 1)*x[i]; return s;
      case O_QUART: for (int i=0;i<n;i++) s += z(i)*z(i)*z(i)*z(i) + z(i)*z(i); return s;
      case O_ROSEN: for (int i=0;i+1<n;i++) { double a = z(i+1)-z(i)*z(i), b = 1-z(i); s += 100*a*a+b*b; } return n > 1 ? s : (1-z(0))*(1-z(0));
      case O_RAST: for (int i=0;i<n;i++) s += z(i)*z(i) - 10*std::cos(2*M_PI*z(i)) + 10; return s;
      case O_ABS: for (int i=0;i<n;i++) s += std::fabs(z(i)); return s;
      case O_MAXABS: for (int i=0;i<n;i++) s = std::max(s,std::fabs(z(i))); return s;
      case O_CIGAR: for (int i=0;i<n;i++) s += (i ? 1e4 : 1.0)*z(i)*z(i); return s;
      case O_PLATEAU: for (int i=0;i<n;i++) s += z(i)*z(i); return std::floor(4.0*s)/4.0;
      case O_HASH: return hash(x,n);
      default: return 1.0;
      }
  }
  double operator()(const double *x, int n) const { return noise == 0.0 ? scale*raw(x,n)+shift : scale*(raw(x,n)+noise*hash(x,n))+shift; }
  bool smooth() const { return kind <= O_QUART; }
  dVec grad(const double *x, int n) const
  {
    dVec g(n);
    for (int i=0;i<n;i++)
      {
	double z = x[i]-(i < (int)c.size() ? c[i] : 0.0);
	switch (kind)
	  {
	  case O_SPHERE: g(i) = 2*z; break;
	  case O_ELLI: g(i) = 2*std::pow(100.0,n>1 ? i/(n-1.0) : 0.0)*z; break;
	  case O_LIN: g(i) = (i+1.0)*((i%2) ? -1 : 1); break;
	  case O_QUART: g(i) = 4*z*z*z+2*z; break;
	  default: g(i) = 0.0;
	  }
      }
    return scale*g;
  }
  std::string describe() const
  {
    static const char *nm[] = {"sphere","elli","linear","quartic","rosenbrock","rastrigin","abs","maxabs","cigar","plateau","hash","constant"};
    return std::string(nm[kind]) + " scale=" + str(scale) + " shift=" + str(shift) + (noise != 0.0 ? " noise=" + str(noise) : "") + " centre=" + str(c);
  }
};

// ---- configuration ----------------------------------------------------------------------------------------
struct Cfg
{
  int n = 2;
  dv x0;
  double sigma = 1.0;
  int lambda = -1;
  uint64_t seed = 1;
  int gpt = 0;       // 0 none, 1 bounds, 2 scaling, 3 bounds and scaling
  bool lin0 = false; // no transform, but of the type with (identity) scaling
  bool scal_ctor = false; // built from scaling and shift vectors instead of bounds (gpt 2, 3)
  bool custom = false;
  int ckind = 0;     // custom transform: 0 affine, 1 odd and non-linear, 2 soft-plus
  dv ca, cb;
  dv lb, ub, scal, shft;
  int algo = 0;
  bool mt = false, uh = false, grad = false, ugrad = false, edm = false, maxi = false, lazy = false, initf = false;
  int threads = 4;
  int tpa = -1, elit = 0;
  bool noisy = false;
  std::map<int,double> fixed;
  int max_iter = 30, max_fev = -1;
  bool has_ft = false;
  double ftarget = 0;
  double ftol = -1, xtol = -1;
  std::vector<std::pair<int,bool>> crit;
  int max_hist = -1;
  int restarts = -1;
  std::string fplot;
  bool fullplot = false, quiet = true;
  Obj obj;

  bool bounded() const { return gpt == 1 || gpt == 3; }
  bool scaled() const { return gpt >= 2; }
  bool sep() const { return algo >= 6 && algo <= 11; }
  bool vd() const { return algo >= 12; }
  bool active() const { return (algo >= 3 && algo <= 5) || (algo >= 9 && algo <= 11); }
  int family() const { return algo % 3; } // 0 plain, 1 ipop, 2 bipop
  std::string describe() const
  {
    static const char *an[] = {"cmaes","ipop","bipop","acmaes","aipop","abipop","sepcmaes","sepipop","sepbipop","sepacmaes","sepaipop","sepabipop","vdcma","vdipop","vdbipop"};
    static const char *gn[] = {"none","bounds","scaling","bounds+scaling"};
    std::ostringstream o;
    o << "dim=" << n << " x0=" << str(x0) << " sigma=" << str(sigma) << " lambda=" << lambda << " seed=" << seed << " algo=" << an[algo] << " transform=" << gn[gpt];
    if (lin0) o << " (identity scaling)";
    if (gpt && !scal_ctor) o << " lb=" << str(lb) << " ub=" << str(ub);
    if (scal_ctor) { o << " scaling=" << str(scal) << " shift=" << str(shft); if (gpt == 3) o << " lb=" << str(lb) << " ub=" << str(ub); }
    if (custom) o << " custom=" << ckind << " a=" << str(ca) << " b=" << str(cb);
    if (mt) o << " mt(" << threads << ")";
    if (uh) o << " uh";
    if (grad) o << (ugrad ? " user-gradient" : " numeric-gradient");
    if (edm) o << " edm";
    if (maxi) o << " maximize";
    if (lazy) o << " lazy";
    if (initf) o << " initial-fvalue";
    if (noisy) o << " noisy";
    if (tpa >= 0) o << " tpa=" << tpa;
    if (elit) o << " elitism=" << elit;
    for (auto &p : fixed) o << " fixed[" << p.first << "]=" << str(p.second);
    o << " max_iter=" << max_iter << " max_fevals=" << max_fev;
    if (has_ft) o << " ftarget=" << str(ftarget);
    if (ftol >= 0) o << " ftol=" << str(ftol);
    if (xtol >= 0) o << " xtol=" << str(xtol);
    for (auto &p : crit) o << " crit[" << p.first << "]=" << p.second;
    if (max_hist >= 0) o << " max_hist=" << max_hist;
    if (restarts >= 0) o << " restarts=" << restarts;
    if (!fplot.empty()) o << " fplot" << (fullplot ? "(full)" : "");
    o << " f=" << obj.describe();
    return o.str();
  }
};

typedef GenoPheno<NoBoundStrategy> GP0;
typedef GenoPheno<pwqBoundStrategy> GP1;
typedef GenoPheno<NoBoundStrategy,linScalingStrategy> GP2;
typedef GenoPheno<pwqBoundStrategy,linScalingStrategy> GP3;
template <class T> struct Tag { typedef T type; };
template <class F> void with_gp(const Cfg &c, F f)
{
  switch (c.gpt)
    {
    case 0: if (c.lin0) f(Tag<GP2>()); else f(Tag<GP0>()); break;
    case 1: f(Tag<GP1>()); break;
    case 2: f(Tag<GP2>()); break;
    default: f(Tag<GP3>()); break;
    }
}

// custom transforms: strictly increasing, coordinate-wise, with an exact inverse.
inline double cust_pheno(const Cfg &c, int i, double x)
{
  double a = c.ca[i], b = c.cb[i];
  switch (c.ckind)
    {
    case 0: return a*x+b;
    case 1: return a*(x+x/(1.0+std::fabs(x)))+b;
    default: return a*(x > 30 ? x : std::log1p(std::exp(x)))+b;
    }
}
inline double cust_geno(const Cfg &c, int i, double y)
{
  double a = c.ca[i], b = c.cb[i];
  switch (c.ckind)
    {
    case 0: return (y-b)/a;
    case 1: { double u = std::fabs((y-b)/a), d = std::sqrt((u-2)*(u-2)+4*u), t = u > 2 ? 0.5*((u-2)+d) : 2*u/((2-u)+d); return (y-b)/a < 0 ? -t : t; }
    default: { double u = (y-b)/a; return u > 30 ? u : std::log(std::expm1(u)); }
    }
}

template <class GP> GP make_gp(const Cfg &c)
{
  TransFunc genof = [c](const double *y, double *x, const int &n) { for (int i=0;i<n;i++) x[i] = cust_geno(c,i,y[i]); };
  TransFunc phenof = [c](const double *x, double *y, const int &n) { for (int i=0;i<n;i++) y[i] = cust_pheno(c,i,x[i]); };
  if (c.gpt == 0)
    return c.custom ? GP(genof,phenof) : GP();
  if (c.scal_ctor)
    {
      if (c.gpt == 3)
	return GP(toe(c.scal),toe(c.shft),&c.lb[0],&c.ub[0]);
      return GP(toe(c.scal),toe(c.shft));
    }
  if (c.custom)
    return GP(genof,phenof,&c.lb[0],&c.ub[0],c.n);
  return GP(&c.lb[0],&c.ub[0],c.n);
}

// options other than the constructor's arguments.
template <class GP> void apply(CMAParameters<GP> &p, const Cfg &c)
{
  p.set_algo(c.algo);
  if (c.noisy) p.set_noisy();
  p.set_max_iter(c.max_iter);
  if (c.max_fev >= 0) p.set_max_fevals(c.max_fev);
  if (c.has_ft) p.set_ftarget(c.ftarget);
  if (c.ftol >= 0) p.set_ftolerance(c.ftol);
  if (c.xtol >= 0) p.set_xtolerance(c.xtol);
  if (c.mt) { omp_set_dynamic(0); omp_set_num_threads(c.threads); p.set_mt_feval(true); }
  if (c.uh) p.set_uh(true);
  if (c.grad) p.set_gradient(true);
  if (c.edm) p.set_edm(true);
  if (c.maxi) p.set_maximize(true);
  if (c.lazy) p.set_lazy_update(true);
  if (c.initf) p.set_initial_fvalue(true);
  if (c.tpa >= 0) p.set_tpa(c.tpa);
  if (c.elit) p.set_elitism(c.elit);
  for (auto &f : c.fixed) p.set_fixed_p(f.first,f.second);
  for (auto &s : c.crit) p.set_stopping_criteria(s.first,s.second);
  if (c.max_hist > 0) p.set_max_hist(c.max_hist);
  if (c.restarts >= 0) p.set_restarts(c.restarts);
  if (!c.fplot.empty()) p.set_fplot(c.fplot);
  if (c.fullplot) p.set_full_fplot(true);
  p.set_quiet(c.quiet);
}

template <class GP> CMAParameters<GP> make_params(const Cfg &c)
{
  CMAParameters<GP> p(c.x0,c.sigma,c.lambda,c.seed,make_gp<GP>(c));
  apply(p,c);
  return p;
}

struct Call { dv x; double f; int thread; };
struct Rec
{
  std::mutex m;
  std::vector<Call> calls;  // objective
  std::vector<dv> gcalls;   // gradient
  size_t limit = 400000;
  bool store = true;
  size_t n = 0;
};

struct Res
{
  CMASolutions sol;
  std::vector<CMASolutions> snaps;   // as passed to the progress function
  std::vector<size_t> ncalls;        // objective calls made by then
  std::vector<int> lambdas;          // population size of the parameters passed with them
  std::shared_ptr<Rec> rec;
  std::vector<Call>& calls() { return rec->calls; }
};

inline FitFunc recfunc(const Cfg &c, std::shared_ptr<Rec> rec, Ctx *ctx)
{
  Obj o = c.obj;
  int dim = c.n;
  return [o,rec,ctx,dim](const double *x, const int &n)
    {
      if (n != dim && ctx)
	ctx->fail("dim","objective called with dimension " + std::to_string(n) + " instead of " + std::to_string(dim));
      double f = o(x,n);
      std::lock_guard<std::mutex> l(rec->m);
      if (++rec->n > rec->limit && ctx)
	ctx->discard();
      if (rec->store)
	rec->calls.push_back(Call{dv(x,x+n),f,omp_get_thread_num()});
      return f;
    };
}

inline GradFunc recgrad(const Cfg &c, std::shared_ptr<Rec> rec)
{
  if (!c.grad || !c.ugrad)
    return nullptr;
  Obj o = c.obj;
  bool maxi = c.maxi;
  return [o,rec,maxi](const double *x, const int &n)
    {
      std::lock_guard<std::mutex> l(rec->m);
      rec->gcalls.push_back(dv(x,x+n));
      dVec g = o.grad(x,n);
      if (maxi) g = -g;
      return g;
    };
}

// runs cmaes<>() on cfg, recording everything.
template <class GP> Res run(const Cfg &c, Ctx *ctx, const std::function<int(const CMAParameters<GP>&,const CMASolutions&)> &extra=nullptr, bool keep=true, const CMASolutions &from=CMASolutions())
{
  Res r;
  r.rec = std::make_shared<Rec>();
  FitFunc f = recfunc(c,r.rec,ctx);
  CMAParameters<GP> p = make_params<GP>(c);
  ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP> &cp, const CMASolutions &s)
    {
      if (keep)
	{
	  r.snaps.push_back(s);
	  r.ncalls.push_back(r.rec->n);
	  r.lambdas.push_back(cp.lambda());
	}
      return extra ? extra(cp,s) : 0;
    };
  r.sol = cmaes<GP>(f,p,pf,recgrad(c,r.rec),from);
  return r;
}

// ---- generators -------------------------------------------------------------------------------------------
struct GOpt
{
  int mindim = 1, maxdim = 7;
  std::vector<int> algos = {0,3,6,9,12};
  std::vector<int> gpts = {0,0,1,2,3};
  bool custom = true, scal_ctor = true, lin0 = true;
  bool mt = true, uh = false, grad = true, edm = true, maxi = true, lazy = true, initf = true, tpa = true, elit = true, noisy = false;
  int maxiter = 40;
  std::vector<int> kinds = {O_SPHERE,O_ELLI,O_LIN,O_QUART,O_ROSEN,O_RAST,O_ABS,O_MAXABS,O_CIGAR,O_PLATEAU,O_HASH};
  bool outside = true; // start points outside the box too
  bool big = true;     // now and then a high dimension, or a population of over a hundred
};

// a bounded interval, of very different widths and offsets.
inline void gen_box(Gen &g, double &lb, double &ub)
{
  double w = g.pick<double>({4.0,1.0,10.0,0.1,0.01,100.0,1e-3,1e4}) * g.uniform(0.5,1.0);
  double o = g.pick<double>({0.0,-2.0,1.0,-10.0,5.0,100.0,-1000.0}) * g.uniform(0.5,1.0);
  switch (g.draw(3))
    {
    case 0: lb = o - 0.5*w; ub = lb + w; break;
    case 1: lb = 0.0; ub = w; break;
    case 2: lb = -w; ub = 0.0; break;
    default: lb = o; ub = o+w; break;
    }
}

inline Obj gen_obj(Gen &g, const std::vector<int> &kinds, int n, const dv *lb=nullptr, const dv *ub=nullptr)
{
  Obj o;
  o.kind = g.pick(kinds);
  if (g.chance(1,4)) o.scale = g.logu(1e-3,1e3);
  if (g.chance(1,4)) o.shift = g.uniform(-100,100);
  if (g.chance(2,3))
    for (int i=0;i<n;i++)
      {
	if (lb)
	  {
	    double w = (*ub)[i]-(*lb)[i];
	    switch (g.draw(3))
	      {
	      case 0: o.c.push_back((*lb)[i]+w*g.unit()); break;
	      case 1: o.c.push_back((*lb)[i]); break;
	      case 2: o.c.push_back((*ub)[i]); break;
	      default: o.c.push_back((*lb)[i]+w*g.uniform(-1,2)); break;
	      }
	  }
	else o.c.push_back(g.uniform(-3,3));
      }
  return o;
}

inline Cfg gen_cfg(Gen &g, const GOpt &o)
{
  Cfg c;
  c.algo = g.pick(o.algos);
  int lo = o.mindim;
  if (c.vd()) lo = std::max(lo,6);
  int hi = std::max(o.maxdim,lo+2);
  bool big = o.big && g.chance(1,14), wide = o.big && !big && g.chance(1,24);
  c.n = big ? g.range(12,42) : g.range(lo,hi);
  c.gpt = g.pick(o.gpts);
  if (c.gpt == 0 && o.lin0) c.lin0 = g.chance(1,10);
  c.seed = 1 + g.draw(1<<20);
  switch (g.draw(5))
    {
    case 0: case 1: c.lambda = -1; break;
    case 2: c.lambda = g.range(4,12); break;
    case 3: c.lambda = g.range(3,5); break;
    case 4: c.lambda = g.range(10,30); break;
    default: c.lambda = g.range(2,40); break;
    }
  if (big) c.lambda = g.flip() ? -1 : g.range(2,8);
  if (wide) c.lambda = g.range(96,140);
  if (c.gpt)
    {
      c.lb.resize(c.n); c.ub.resize(c.n);
      for (int i=0;i<c.n;i++) gen_box(g,c.lb[i],c.ub[i]);
    }
  if (c.scaled() && o.scal_ctor && g.chance(1,3))
    {
      c.scal_ctor = true;
      for (int i=0;i<c.n;i++)
	{
	  c.scal.push_back(g.logu(1e-3,1e3));
	  c.shft.push_back(g.chance(1,2) ? g.uniform(-20,20) : 0.0);
	}
    }
  if (o.custom && !c.scal_ctor && g.chance(1,4))
    {
      c.custom = true;
      c.ckind = c.gpt == 0 ? g.draw(2) : (c.gpt == 2 ? 0 : g.draw(1));
      for (int i=0;i<c.n;i++)
	{
	  c.ca.push_back(c.gpt == 0 ? g.logu(0.1,10.0) : g.uniform(0.5,1.5));
	  c.cb.push_back(c.gpt == 0 ? g.uniform(-5,5) : g.uniform(-0.2,0.2));
	}
    }
  c.x0.resize(c.n);
  double wmin = 1e300, wmax = 0;
  for (int i=0;i<c.n;i++)
    {
      double w = c.gpt ? c.ub[i]-c.lb[i] : 4.0;
      double l = c.gpt ? c.lb[i] : -2.0;
      if (c.gpt && c.bounded() && o.outside && g.chance(1,8))
	c.x0[i] = l + w*g.uniform(-3,4);
      else if (g.chance(1,10))
	c.x0[i] = g.flip() ? l : l+w;
      else c.x0[i] = l + w*g.uniform(0.05,0.95);
      wmin = std::min(wmin,w); wmax = std::max(wmax,w);
    }
  double ref = c.scaled() && !c.scal_ctor ? 10.0 : (c.scaled() ? 1.0 : (c.gpt ? std::sqrt(wmin*wmax) : 4.0));
  c.sigma = ref * g.pick<double>({0.2,0.05,0.5,0.01,1.0,3.0}) * g.uniform(0.7,1.0);
  c.obj = gen_obj(g,o.kinds,c.n,c.gpt ? &c.lb : nullptr,c.gpt ? &c.ub : nullptr);
  c.max_iter = g.range(1,o.maxiter);
  if (o.mt && g.chance(1,6)) { c.mt = true; c.threads = g.range(2,4); }
  if (o.uh && g.chance(1,4)) c.uh = true;
  if (o.grad && g.chance(1,5)) { c.grad = true; c.ugrad = c.obj.smooth() && g.flip(); }
  if (o.edm && g.chance(1,6)) c.edm = true;
  if (o.maxi && g.chance(1,6)) c.maxi = true;
  if (o.lazy && g.chance(big ? 3 : 1,6)) c.lazy = true; // lazy updates skip a decomposition only in high dimension
  if (o.initf && g.chance(1,6)) c.initf = true;
  if (o.tpa && g.chance(1,5)) c.tpa = g.pick<int>({2,1,0});
  if (o.elit && g.chance(1,4)) c.elit = g.range(1,3);
  if (c.elit == 3) c.max_fev = 20000; // elitist restarts go on as long as they improve
  if (o.noisy && g.chance(1,8)) c.noisy = true;
  if (c.tpa == 2 && c.grad && c.lambda > 0 && c.lambda < 4) c.lambda = 4;
  return c;
}

inline void labels(Ctx &ctx, const Cfg &c)
{
  ctx.label("algo=" + std::to_string(c.algo));
  ctx.label("transform=" + std::to_string(c.gpt) + (c.lin0 ? "-identity-scaling" : ""));
  if (c.scal_ctor) ctx.label("scaling-ctor");
  if (c.custom) ctx.label("custom");
  if (c.mt) ctx.label("mt");
  if (c.uh) ctx.label("uh");
  if (c.grad) ctx.label(c.ugrad ? "user-gradient" : "numeric-gradient");
  if (c.edm) ctx.label("edm");
  if (c.maxi) ctx.label("maximize");
  if (c.lazy) ctx.label("lazy");
  if (c.elit) ctx.label("elitism=" + std::to_string(c.elit));
  if (c.tpa >= 0) ctx.label("tpa=" + std::to_string(c.tpa));
  if (!c.fixed.empty()) ctx.label("fixed");
  if (c.n > 10) ctx.label("high-dimension");
  if (c.lambda >= 96) ctx.label("large-population");
}
#endif
