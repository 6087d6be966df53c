// C03: same seed and settings give the same run.  Differential: two runs of one configuration, the second after
// unrelated library use in the same process and with output / progress / plotting / parallel evaluation toggled.
#include "common.hpp"

static void compare(Ctx &ctx, Res &a, Res &b, bool mt, const std::string &what)
{
  ctx.check(a.calls().size() == b.calls().size(),what+"-count",[&]{ return what + ": " + str(a.calls().size()) + " objective calls against " + str(b.calls().size()); });
  if (!mt)
    {
      for (size_t i=0;i<a.calls().size();i++)
	ctx.check(same(a.calls()[i].x,b.calls()[i].x),what+"-points",[&]{ return what + ": call " + str(i) + " at " + str(a.calls()[i].x) + " against " + str(b.calls()[i].x); });
    }
  else
    {
      ctx.check(a.ncalls == b.ncalls,what+"-iterations",[&]{ return what + ": calls per iteration differ"; });
      auto part = [](Res &r, size_t f, size_t t)
	{
	  std::vector<dv> v;
	  for (size_t i=f;i<t;i++) v.push_back(r.calls()[i].x);
	  std::sort(v.begin(),v.end());
	  return v;
	};
      size_t f = 0;
      for (size_t k=0;k<=a.ncalls.size();k++)
	{
	  size_t t = k < a.ncalls.size() ? a.ncalls[k] : a.calls().size();
	  ctx.check(part(a,f,t) == part(b,f,t),what+"-points",[&]{ return what + ": points evaluated before progress call " + str(k) + " differ"; });
	  f = t;
	}
    }
  const CMASolutions &s = a.sol, &t = b.sol;
  ctx.check(s.niter() == t.niter() && s.fevals() == t.fevals() && s.run_status() == t.run_status(),what+"-status",[&]{ return what + ": iterations, evaluations or status differ"; });
  ctx.check(same(s.xmean(),t.xmean()) && samebits(s.sigma(),t.sigma()) && same(s.cov(),t.cov()) && same(s.sepcov(),t.sepcov()),what+"-state",[&]{ return what + ": final mean " + str(s.xmean()) + " against " + str(t.xmean()); });
  ctx.check(samebits(s.best_candidate().get_fvalue(),t.best_candidate().get_fvalue()) && same(s.best_candidate().get_x(),t.best_candidate().get_x()),what+"-best",[&]{ return what + ": best candidates differ"; });
  ctx.check(samebits(s.get_best_seen_candidate().get_fvalue(),t.get_best_seen_candidate().get_fvalue()) && same(s.get_best_seen_candidate().get_x(),t.get_best_seen_candidate().get_x())
	    && samebits(s.get_worst_seen_candidate().get_fvalue(),t.get_worst_seen_candidate().get_fvalue()),what+"-seen",[&]{ return what + ": best or worst seen differ"; });
  ctx.check(samebits(s.edm(),t.edm()),what+"-edm",[&]{ return what + ": edm differ"; });
}

static void prop(Gen &g, Ctx &ctx)
{
  GOpt o;
  o.algos = {0,3,6,9,12,0,1,2,4,5,7,8,10,11,13,14};
  o.uh = true; o.noisy = true; o.mt = false;
  o.maxiter = g.size() > 1 ? 80 : 25;
  Cfg c = gen_cfg(g,o);
  if (c.family()) { c.restarts = g.range(1,3); c.max_iter = std::min(c.max_iter,12); if (c.lambda > 16) c.lambda = 16; }
  if (g.chance(1,5)) c.fixed[g.draw(c.n-1)] = c.x0[0];
  if ((int)c.fixed.size() >= c.n) c.fixed.clear();
  if (c.gpt && !c.fixed.empty()) { int k = c.fixed.begin()->first; c.fixed[k] = 0.5*(c.lb[k]+c.ub[k]); }
  if (g.chance(1,4)) c.max_fev = g.range(10,200);
  labels(ctx,c);
  ctx.sample(c.describe());
  // what the second run changes.
  int mode = g.draw(5);
  bool other = g.flip();
  Cfg d = c, e;
  if (other)
    {
      GOpt oo; oo.mt = false; oo.maxiter = 6; oo.uh = true;
      e = gen_cfg(g,oo);
    }
  char plot[256];
  snprintf(plot,sizeof(plot),"%s/c03.%d.dat",getenv("VERIF_TMP") ? getenv("VERIF_TMP") : "/tmp",(int)getpid());
  bool mt = false, noprogress = false;
  switch (mode)
    {
    case 0: ctx.label("again"); break;
    case 1: d.quiet = false; ctx.label("verbose"); break;
    case 2: d.fplot = plot; d.fullplot = g.flip(); ctx.label("plotting"); break;
    case 3: d.mt = true; d.threads = g.range(2,6); mt = true; ctx.label("parallel"); break;
    case 4: noprogress = true; ctx.label("default-progress"); break;
    default: ctx.label("new-seed"); d.seed = c.seed + 1 + g.draw(5); break;
    }
  if (other) ctx.label("after-other-run");
  with_gp(c,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      Res a = run<GP>(c,&ctx);
      if (other)
	with_gp(e,[&](auto t2) { typedef typename decltype(t2)::type GP2_; run<GP2_>(e,nullptr); });
      Res b;
      if (noprogress)
	{
	  b.rec = std::make_shared<Rec>();
	  FitFunc f = recfunc(d,b.rec,&ctx);
	  auto p = make_params<GP>(d);
	  b.sol = cmaes<GP>(f,p,CMAStrategy<CovarianceUpdate,GP>::_defaultPFunc,recgrad(d,b.rec));
	}
      else b = run<GP>(d,&ctx);
      if (!d.fplot.empty()) unlink(plot);
      if (mode == 5)
	{
	  // candidates of the first iteration differ.
	  bool diff = false;
	  size_t m = std::min(a.snaps.size() > 1 ? a.ncalls[1] : a.calls().size(),std::min(a.calls().size(),b.calls().size()));
	  for (size_t i=0;i<m;i++) if (!same(a.calls()[i].x,b.calls()[i].x)) diff = true;
	  ctx.check(diff,"seed-ignored",[&]{ return "seeds " + std::to_string(c.seed) + " and " + std::to_string(d.seed) + " evaluate the same points"; });
	}
      else compare(ctx,a,b,mt,mode == 3 ? "parallel" : (mode == 1 ? "verbose" : (mode == 2 ? "plotting" : "repeat")));
      ctx.nontrivial(a.sol.niter() >= 2 && a.calls().size() > 10);
    });
}

int main(int argc, char **argv)
{
  Property p;
  p.id = "C03";
  p.rule = "A case runs one of the 15 algorithms with generated settings twice with the same seed, the second time after unrelated use of the library in the same process and with output, progress, plotting and parallel evaluation toggled at random; all evaluated points, iterations and the returned solution must be identical, and a third run with another seed must differ. Non-trivial: the run lasted at least 2 iterations and evaluated more than 10 points.";
  p.f = prop;
  p.quick_cases = 24000;
  p.thorough_cases = 100000000;
  return pbt::pbt_main(argc,argv,p);
}
