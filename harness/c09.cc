// C09: the search depends only on ranks; maximising f is minimising -f; scaling and shifting the problem scales and shifts the search.
#include "common.hpp"

// a run of c with another objective function.
template <class GP> Res run_with(const Cfg &c, Ctx *ctx, const std::function<double(const double*,int)> &obj, const std::function<dVec(const double*,int)> &grad=nullptr)
{
  Res r;
  r.rec = std::make_shared<Rec>();
  auto rec = r.rec;
  int dim = c.n;
  FitFunc f = [rec,ctx,dim,obj](const double *x, const int &n)
    {
      double v = obj(x,n);
      std::lock_guard<std::mutex> l(rec->m);
      if (++rec->n > rec->limit) ctx->discard();
      rec->calls.push_back(Call{dv(x,x+n),v,0});
      return v;
    };
  CMAParameters<GP> p = make_params<GP>(c);
  ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP> &cp, const CMASolutions &s)
    {
      r.snaps.push_back(s);
      r.ncalls.push_back(rec->n);
      r.lambdas.push_back(cp.lambda());
      return 0;
    };
  GradFunc gf = nullptr;
  if (c.grad && grad)
    gf = [rec,grad](const double *x, const int &n) { rec->gcalls.push_back(dv(x,x+n)); return grad(x,n); };
  r.sol = cmaes<GP>(f,p,pf,gf);
  return r;
}

static void same_state(Ctx &ctx, const CMASolutions &a, const CMASolutions &b, double fac, const std::string &at, double xs=1.0)
{
  ctx.check(a.niter() == b.niter() && a.nevals() == b.nevals(),"counts",[&]{ return at + "iterations " + str(a.niter()) + " and " + str(b.niter()) + ", evaluations " + str(a.nevals()) + " and " + str(b.nevals()); });
  ctx.check(same(dVec(xs*a.xmean()),dVec(b.xmean())),"mean",[&]{ return at + "means differ: " + str(dVec(xs*a.xmean())) + " and " + str(dVec(b.xmean())); });
  ctx.check(samebits(xs*a.sigma(),b.sigma()),"sigma",[&]{ return at + "step-sizes differ: " + str(xs*a.sigma()) + " and " + str(b.sigma()); });
  ctx.check(same(a.cov(),b.cov()) && same(a.sepcov(),b.sepcov()),"covariance",[&]{ return at + "covariances differ"; });
  ctx.check(a.size() == b.size(),"size",[&]{ return at + "population sizes differ"; });
  if (!a.niter()) return;
  for (int k=0;k<a.size();k++)
    {
      ctx.check(same(dVec(xs*a.get_candidate(k).get_x_dvec()),b.get_candidate(k).get_x_dvec()),"population",[&]{ return at + "candidates of rank " + str(k) + " differ: " + str(a.get_candidate(k).get_x_dvec()) + " and " + str(b.get_candidate(k).get_x_dvec()); });
      if (fac == fac)
	ctx.check(samebits(fac*a.get_candidate(k).get_fvalue(),b.get_candidate(k).get_fvalue()),"values",[&]{ return at + "values of rank " + str(k) + ": " + str(a.get_candidate(k).get_fvalue()) + " and " + str(b.get_candidate(k).get_fvalue()); });
    }
  Candidate s = a.get_best_seen_candidate(), t = b.get_best_seen_candidate();
  ctx.check(same(dVec(xs*s.get_x_dvec()),t.get_x_dvec()) && (fac != fac || samebits(fac*s.get_fvalue(),t.get_fvalue())),"best-seen",[&]{ return at + "best seen differs: " + str(s.get_x_dvec()) + " " + str(s.get_fvalue()) + " and " + str(t.get_x_dvec()) + " " + str(t.get_fvalue()); });
}

// compares two recorded runs: same points, values related by fac (nan: not compared), coordinates by xs.
static void compare(Ctx &ctx, Res &a, Res &b, double fac, double cfac, double xs=1.0)
{
  for (size_t i=0;i<std::min(a.calls().size(),b.calls().size());i++)
    {
      dv x = a.calls()[i].x;
      for (double &v : x) v *= xs;
      ctx.check(same(x,b.calls()[i].x),"points",[&]{ return "evaluation " + str(i) + ": points " + str(x) + " and " + str(b.calls()[i].x); });
      if (cfac == cfac)
	ctx.check(samebits(cfac*a.calls()[i].f,b.calls()[i].f),"values",[&]{ return "evaluation " + str(i) + ": values differ"; });
    }
  ctx.check(a.calls().size() == b.calls().size(),"number",[&]{ return str(a.calls().size()) + " and " + str(b.calls().size()) + " evaluations"; });
  ctx.check(a.snaps.size() == b.snaps.size(),"iterations",[&]{ return str(a.snaps.size()) + " and " + str(b.snaps.size()) + " progress calls"; });
  for (size_t i=0;i<a.snaps.size();i++)
    same_state(ctx,a.snaps[i],b.snaps[i],fac,"progress call " + str(i) + ": ",xs);
  same_state(ctx,a.sol,b.sol,fac,"result: ",xs);
  ctx.check(a.sol.run_status() == b.sol.run_status(),"status",[&]{ return "status " + str(a.sol.run_status()) + " and " + str(b.sol.run_status()); });
}

static void prop(Gen &g, Ctx &ctx)
{
  int mode = g.pick<int>({0,1,2,3,0,1});
  static const char *mn[] = {"increasing","maximise","scale","shift"};
  GOpt o;
  o.algos = {0,3,6,9,12,0,3,6,9,12,1,2,4,5,7,8,10,11,13,14};
  o.noisy = true; o.mt = false; o.edm = false; o.maxi = mode != 1;
  o.maxiter = g.size() > 1 ? 200 : 40;
  if (mode == 2) { o.gpts = {0,0,2}; o.custom = o.scal_ctor = false; o.algos = {0,3,6,9,12,1,4,7,10,13}; } // the step-sizes of the small runs of BIPOP are absolute
  if (mode == 3) { o.gpts = {0}; o.custom = false; o.kinds = {O_SPHERE,O_ELLI,O_QUART,O_ROSEN,O_RAST,O_ABS,O_CIGAR}; o.elit = false; o.maxiter = 15; o.algos = {6,9,12,0,3,7,10,13}; }
  Cfg c = gen_cfg(g,o);
  if (c.grad && !c.ugrad) { if (c.obj.smooth()) c.ugrad = true; else c.grad = false; } // a numerical gradient depends on the values
  if (mode >= 2) c.grad = c.ugrad = false; // the derivative of the transform is a finite difference
  if (c.family()) { c.restarts = g.range(1,4); c.max_iter = std::min(c.max_iter,12); if (c.lambda > 12) c.lambda = 12; }
  if (c.n > 1 && c.gpt == 0 && mode != 3 && g.chance(1,6)) { int k = g.draw(c.n-1); c.fixed[k] = 0.3; }
  if (mode == 0 || mode == 1)
    {
      if (mode == 1 && g.chance(1,3)) { c.uh = true; }
      if (c.n > 1 && c.gpt && g.chance(1,6)) { int k = g.draw(c.n-1); c.fixed[k] = 0.5*(c.lb[k]+c.ub[k]); }
      if (g.chance(1,6)) { c.mt = false; }
    }
  if (mode == 0 || mode == 3)
    for (int k : {TOLHISTFUN,EQUALFUNVALS,STAGNATION,FTARGET}) c.crit.push_back({k,false}); // those look at values (the last two at ties and medians)
  labels(ctx,c);
  ctx.label(mn[mode]);
  Obj ob = c.obj;
  std::ostringstream ds;
  ds << mn[mode] << ": " << c.describe();
  double nan = std::nan("");
  with_gp(c,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      auto plain = [ob](const double *x, int n) { return ob(x,n); };
      double gs = c.maxi ? -1.0 : 1.0;
      auto pg = [ob,gs](const double *x, int n) { return dVec(gs*ob.grad(x,n)); };
      if (mode == 0)
	{
	  Res a = run_with<GP>(c,&ctx,plain,pg);
	  // any strictly increasing function on the values met: steps of very different sizes.
	  std::map<double,double> tab;
	  for (auto &k : a.calls()) tab[k.f] = 0;
	  int kind = g.draw(4);
	  double v = kind == 0 ? 0 : g.uniform(-1e3,1e3);
	  uint64_t h = g.draw(1<<30);
	  for (auto &e : tab)
	    {
	      h = Obj::mix(h+0x9e3779b97f4a7c15ULL);
	      double u = (h>>11)/9007199254740992.0;
	      switch (kind)
		{
		case 0: v += 1; break;                              // the rank itself
		case 1: v += 1e-3+u; break;
		case 2: v = std::max(std::nextafter(v,1e300),v+std::pow(10.0,-12+20*u)); break; // wild steps
		case 3: v = std::nextafter(v,1e300); break;         // neighbouring doubles
		default: v += (u < 0.9 ? 1e-6 : 1e6); break;
		}
	      e.second = v;
	    }
	  ctx.sample("map kind " + std::to_string(kind) + " " + ds.str());
	  ctx.label("map=" + std::to_string(kind));
	  Res b = run_with<GP>(c,&ctx,[&](const double *x, int n)
	    {
	      double f = ob(x,n);
	      auto it = tab.find(f);
	      if (it == tab.end())
		{
		  // the run has left the points of the first.
		  size_t i = 0;
		  ctx.fail("new-point","evaluates " + str(dv(x,x+n)) + ", which the run on the original values does not (" + str(i) + ")");
		}
	      return it->second;
	    },pg);
	  compare(ctx,a,b,nan,nan);
	  ctx.nontrivial(a.sol.niter() >= 3 && tab.size() > 10);
	}
      else if (mode == 1)
	{
	  ctx.sample(ds.str());
	  Cfg m = c; m.maxi = true;
	  c.maxi = false;
	  auto neg = [ob](const double *x, int n) { return -ob(x,n); };
	  auto ng = [ob](const double *x, int n) { return dVec(-ob.grad(x,n)); };
	  Res a = run_with<GP>(c,&ctx,neg,ng), b = run_with<GP>(m,&ctx,plain,ng);
	  compare(ctx,a,b,1.0,-1.0);
	  ctx.nontrivial(a.sol.niter() >= 3);
	}
      else if (mode == 2)
	{
	  int e = g.range(1,12);
	  if (g.flip()) e = -e;
	  double s = std::ldexp(1.0,e);
	  Cfg d = c;
	  for (double &x : d.x0) x *= s;
	  if (c.gpt == 0) { d.sigma *= s; for (auto &q : d.fixed) q.second *= s; }
	  else for (int i=0;i<c.n;i++) { d.lb[i] *= s; d.ub[i] *= s; }
	  ctx.sample("factor 2^" + std::to_string(e) + " " + ds.str());
	  auto sc = [ob,s](const double *x, int n) { dv y(x,x+n); for (double &v : y) v /= s; return ob(&y[0],n); };
	  auto sg = [ob,s,gs](const double *x, int n) { dv y(x,x+n); for (double &v : y) v /= s; return dVec(gs*ob.grad(&y[0],n)/s); };
	  Res a = run_with<GP>(c,&ctx,plain,pg), b = run_with<GP>(d,&ctx,sc,sg);
	  for (auto &q : a.snaps)
	    if (!(q.sigma() > 1e-100 && q.sigma() < 1e100)) return; // scaling is exact only away from the ends of the range of doubles
	  if (c.gpt == 0) compare(ctx,a,b,1.0,1.0,s);
	  else
	    {
	      // linear scaling: the internal search is the same, up to the rounding of the scaling.
	      for (size_t i=0;i<std::min(a.calls().size(),b.calls().size());i++)
		for (int k=0;k<c.n;k++)
		  ctx.check(samebits(s*a.calls()[i].x[k],b.calls()[i].x[k]),"points",[&]{ return "evaluation " + str(i) + ": " + str(s*a.calls()[i].x[k]) + " and " + str(b.calls()[i].x[k]); });
	      ctx.check(a.calls().size() == b.calls().size(),"number",[&]{ return str(a.calls().size()) + " and " + str(b.calls().size()) + " evaluations"; });
	      same_state(ctx,a.sol,b.sol,1.0,"result: ");
	    }
	  ctx.nontrivial(a.sol.niter() >= 3);
	}
      else
	{
	  dv t(c.n);
	  for (double &x : t) x = g.uniform(-1,1)*g.pick<double>({1.0,10.0,100.0,0.1});
	  Cfg d = c;
	  for (int i=0;i<c.n;i++) d.x0[i] += t[i];
	  ctx.sample("shift " + str(t) + " " + ds.str());
	  auto sh = [ob,t](const double *x, int n) { dv y(x,x+n); for (int i=0;i<n;i++) y[i] -= t[i]; return ob(&y[0],n); };
	  Res a = run_with<GP>(c,&ctx,plain), b = run_with<GP>(d,&ctx,sh);
	  size_t n = std::min(a.snaps.size(),b.snaps.size());
	  int done = 0;
	  double tol = 1e-9;
	  for (size_t i=1;i<n;i++)
	    {
	      CMASolutions &s = a.snaps[i], &q = b.snaps[i];
	      if (s.niter() == 0) break; // restarts: compared up to the first
	      std::string at = "iteration " + str(s.niter()) + ": ";
	      // near ties may be ranked differently after rounding.
	      double gap = 1e300, mg = 0;
	      for (int k=1;k<s.size();k++)
		{
		  gap = std::min(gap,s.get_candidate(k).get_fvalue()-s.get_candidate(k-1).get_fvalue());
		  mg = std::max(mg,std::fabs(s.get_candidate(k).get_fvalue()));
		}
	      if (!(gap > 1e-8*mg)) break;
	      for (size_t k=a.ncalls[i-1];k<a.ncalls[i];k++)
		for (int j=0;j<c.n;j++)
		  {
		    double u = a.calls()[k].x[j]+t[j], v = b.calls()[k].x[j];
		    ctx.check(std::fabs(u-v) <= tol*(std::fabs(t[j])+std::fabs(u)+s.sigma()),"points",[&]{ return at + "evaluation " + str(k) + " coordinate " + str(j) + ": " + str(u) + " and " + str(v); });
		  }
	      ctx.check(close(s.sigma(),q.sigma(),1e-6),"sigma",[&]{ return at + "step-sizes " + str(s.sigma()) + " and " + str(q.sigma()); });
	      dMat ca = s.full_cov(), cb = q.full_cov();
	      ctx.check((ca-cb).cwiseAbs().maxCoeff() <= 1e-6*ca.cwiseAbs().maxCoeff(),"covariance",[&]{ return at + "covariances differ"; });
	      ++done;
	      tol *= 2;
	      // eigenvectors of nearly equal eigenvalues depend on rounding, and the draws with them.
	      if (!c.sep() && !c.vd()) { done += 2; break; }
	    }
	  ctx.nontrivial(done >= 3);
	}
    });
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C09","A case is a pair of recorded runs of one of the 15 algorithms with generated settings: on an objective and on a strictly increasing map of the values it takes (ranks, wild steps, neighbouring doubles); maximising f and minimising -f; a problem and its copy scaled by a power of two; a problem and its shifted copy. The evaluated points and all states must correspond, exactly for the first three. Non-trivial: at least 3 iterations were compared (and more than 10 different values met).",prop,40000,100000000});
}
