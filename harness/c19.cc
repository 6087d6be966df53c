// C19: a search started from a previous solution.
#include "updates.hpp"

static void prop(Gen &g, Ctx &ctx)
{
  GOpt o;
  o.algos = {0,3,6,9,12,0,3,6,9,12,1,2,4,5,7,8,10,11,13,14};
  o.noisy = true; o.uh = true; o.mt = false;
  o.maxiter = 25;
  Cfg a = gen_cfg(g,o);
  a.max_iter = g.chance(1,8) ? 1 : a.max_iter;
  if (a.family()) { a.restarts = g.range(1,3); a.max_iter = std::min(a.max_iter,10); }
  auto fix = [&](Cfg &c) { if (c.n > 1 && g.chance(1,6)) { int k = g.draw(c.n-1); c.fixed[k] = c.gpt ? 0.5*(c.lb[k]+c.ub[k]) : 0.3; } };
  fix(a);
  // the following searches: same dimension and transform, any other setting.
  int chain = g.chance(1,5) ? 2 : 1;
  std::vector<Cfg> cs;
  for (int k=0;k<chain;k++)
    {
      Cfg b = gen_cfg(g,o);
      Cfg c = a;
      c.algo = b.algo;
      if (c.vd() && c.n < 6) c.algo -= 12;
      c.lambda = b.lambda; c.seed = b.seed; c.sigma = b.sigma; c.max_iter = b.max_iter;
      c.uh = b.uh; c.grad = b.grad; c.ugrad = b.ugrad && c.obj.smooth(); c.edm = b.edm; c.lazy = b.lazy; c.initf = b.initf; c.noisy = b.noisy;
      c.tpa = b.tpa; c.elit = b.elit; c.max_fev = b.max_fev; c.restarts = -1;
      if (c.family()) { c.restarts = g.range(1,3); c.max_iter = std::min(c.max_iter,10); if (c.elit == 3) c.elit = 0; if (c.lambda > 20) c.lambda = 20; }
      c.fixed.clear();
      fix(c);
      if (c.elit) c.fixed = (cs.empty() ? a : cs.back()).fixed; // the best seen, injected, has the values fixed before
      if (g.chance(1,6)) c.max_fev = g.range(1,200);
      if (g.chance(1,6)) { c.has_ft = true; c.ftarget = c.obj.shift+(c.maxi ? -1 : 1)*g.logu(1e-6,10); }
      if (g.chance(1,6)) c.ftol = g.logu(1e-12,1.0);
      if (g.chance(1,6)) c.xtol = g.logu(1e-12,1.0);
      if (g.chance(1,4)) for (int i=0;i<=14;i++) if (g.chance(1,4) && i != MAXITER && i != MAXFEVALS) c.crit.push_back({i,false});
      if (c.tpa == 2 && c.grad && c.lambda > 0 && c.lambda < 4) c.lambda = 4;
      if (c.tpa == 2 && c.elit && c.lambda > 0 && c.lambda < 4) c.lambda = 4;
      cs.push_back(c);
    }
  labels(ctx,cs[0]);
  ctx.label("previous-algo=" + std::to_string(a.algo));
  std::string d = "first: " + a.describe();
  for (auto &c : cs) d += " THEN " + c.describe();
  ctx.sample(d);
  int compared = 0, checked = 0;
  with_gp(a,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      bool stop0 = g.chance(1,20); // the first search ended before its first iteration
      CMASolutions prev = run<GP>(a,&ctx,[&](const CMAParameters<GP>&,const CMASolutions&) { return stop0 ? 1 : 0; },false).sol;
      for (size_t k=0;k<cs.size();k++)
	{
	  Cfg c = cs[k];
	  dVec m0 = prev.xmean();
	  double s0 = prev.sigma();
	  bool finite = m0.allFinite() && s0 > 0 && std::isfinite(s0);
	  if (!finite) { ctx.label("degenerate"); return; }
	  if (g.flip()) c.sigma = s0; // stopping rules relative to the initial step-size are then those of a fresh search
	  CMASolutions kept = prev;
	  Res r = run<GP>(c,&ctx,nullptr,true,prev);
	  ctx.check(same(kept.xmean(),prev.xmean()) && kept.sigma() == prev.sigma() && kept.niter() == prev.niter() && kept.fevals() == prev.fevals(),"modified",[&]{ return "the previous solution was modified"; });
	  ctx.check(!r.snaps.empty() && r.snaps[0].niter() == 0,"start",[&]{ return "the search does not start at iteration 0"; });
	  CMASolutions &st = r.snaps[0];
	  int la = r.lambdas[0], want = (c.lambda > 0 ? c.lambda : 4+(int)std::floor(3*std::log((double)c.n)));
	  if (c.noisy) want *= 5;
	  ctx.check(la == want && st.size() == want,"lambda",[&]{ return "population " + str(la) + "/" + str(st.size()) + " instead of " + str(want); });
	  for (int i=0;i<c.n;i++)
	    if (!c.fixed.count(i))
	      ctx.check(st.xmean()(i) == m0(i),"mean",[&]{ return "mean " + str(st.xmean()) + " instead of the previous " + str(m0); });
	  ctx.check(st.sigma() == s0,"sigma",[&]{ return "step-size " + str(st.sigma()) + " instead of the previous " + str(s0); });
	  if (c.sep() || c.vd()) ctx.check(st.sepcov().rows() == c.n && st.sepcov().isOnes(0),"covariance",[&]{ return "covariance is not the identity"; });
	  else ctx.check(st.cov().rows() == c.n && st.cov().isIdentity(0),"covariance",[&]{ return "covariance is not the identity"; });
	  ctx.check(st.fevals() == (int)r.ncalls[0] && st.fevals() <= 1,"fevals",[&]{ return "evaluations start at " + str(st.fevals()) + ", " + str(r.ncalls[0]) + " made"; });
	  if (!c.family() && c.elit != 3)
	    {
	      ctx.check(r.sol.fevals() == (int)r.rec->n || c.edm || c.grad,"fevals-end",[&]{ return str(r.sol.fevals()) + " evaluations reported, " + str(r.rec->n) + " made"; });
	      for (size_t i=0;i<r.snaps.size();i++)
		ctx.check(r.snaps[i].niter() == (int)i,"niter",[&]{ return "iteration " + str(r.snaps[i].niter()) + " reported at iteration " + str(i); });
	    }
	  // best seen: never worse than the previous one, and the better of both searches.
	  double pb = prev.get_best_seen_candidate().get_x_size() ? prev.get_best_seen_candidate().get_fvalue() : 1e300;
	  if (!c.family())
	    {
	      double best = pb;
	      size_t done = 0;
	      for (size_t i=0;i<r.snaps.size();i++)
		{
		  if (c.uh || c.elit == 3 || (c.grad && !c.ugrad)) break;
		  for (;done<r.ncalls[i];done++) best = std::min(best,(c.maxi ? -1 : 1)*r.calls()[done].f);
		  const Candidate &bs = r.snaps[i].get_best_seen_candidate();
		  if (best < 1e300)
		    ctx.check(bs.get_x_size() && bs.get_fvalue() == best,"best-seen",[&]{ return "best seen " + str(bs.get_fvalue()) + " at iteration " + str(i) + ", best of both searches is " + str(best) + " (previous " + str(pb) + ")"; });
		}
	      if (pb < 1e300)
		for (auto &s : r.snaps)
		  ctx.check(s.get_best_seen_candidate().get_fvalue() <= pb || (s.niter() == 0 && &s != &r.snaps[0]) || c.elit == 3,"best-seen-worse",[&]{ return "best seen " + str(s.get_best_seen_candidate().get_fvalue()) + " worse than the previous " + str(pb); });
	    }
	  // every iteration follows the rules.
	  if (!c.uh) checked += check_updates<GP>(ctx,c,r);
	  // the same as a fresh search with that start, up to the end of its first run.
	  if (c.elit != 1 && c.elit != 3 && !c.scaled())
	    {
	      Cfg f = c;
	      f.x0 = tov(m0);
	      f.sigma = s0;
	      Res q = run<GP>(f,&ctx);
	      size_t n1 = 1;
	      while (n1 < r.snaps.size() && r.snaps[n1].niter() > 0) n1++;
	      size_t n2 = 1;
	      while (n2 < q.snaps.size() && q.snaps[n2].niter() > 0) n2++;
	      for (size_t i=0;i<std::min(n1,n2);i++)
		{
		  CMASolutions &x = r.snaps[i], &y = q.snaps[i];
		  std::string at = " at iteration " + str(i);
		  ctx.check(r.ncalls[i] == q.ncalls[i],"calls",[&]{ return str(r.ncalls[i]) + " evaluations instead of " + str(q.ncalls[i]) + " of a fresh search" + at; });
		  for (size_t j=i ? r.ncalls[i-1] : 0;j<r.ncalls[i];j++)
		    ctx.check(same(r.calls()[j].x,q.calls()[j].x),"point",[&]{ return "point " + str(r.calls()[j].x) + " evaluated instead of " + str(q.calls()[j].x) + " of a fresh search" + at; });
		  ctx.check(same(x.xmean(),y.xmean()) && samebits(x.sigma(),y.sigma()) && same(x.sepcov(),y.sepcov()) && same(x.cov(),y.cov()) && x.niter() == y.niter() && x.fevals() == y.fevals(),"state",[&]{ return "state differs from that of a fresh search" + at; });
		  if (i) ctx.check(samebits(x.best_candidate().get_fvalue(),y.best_candidate().get_fvalue()),"value",[&]{ return "value " + str(x.best_candidate().get_fvalue()) + " instead of " + str(y.best_candidate().get_fvalue()) + at; });
		  compared++;
		}
	      bool rel = c.sigma != s0 && (c.family() || r.sol.run_status() == TOLX || r.sol.run_status() == TOLUPSIGMA || q.sol.run_status() == TOLX || q.sol.run_status() == TOLUPSIGMA);
	      if (!rel) ctx.check(n1 == n2,"end",[&]{ return "first run ends after " + str(n1) + " iterations instead of " + str(n2) + " of a fresh search"; });
	      if (!c.family() && !rel)
		{
		  ctx.check(r.sol.run_status() == q.sol.run_status(),"status",[&]{ return "status " + str(r.sol.run_status()) + " instead of " + str(q.sol.run_status()) + " of a fresh search"; });
		  if (c.edm) ctx.check(samebits(r.sol.edm(),q.sol.edm()),"edm",[&]{ return "expected distance " + str(r.sol.edm()) + " instead of " + str(q.sol.edm()); });
		}
	    }
	  prev = r.sol;
	}
    });
  ctx.nontrivial(compared > 3 || checked > 3);
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C19","A case runs a search, then one or two more, each from the solution of the one before, with the same transform and otherwise newly generated settings; start state, counters, best seen, every update (reference model) and, where its start can be given exactly, every point and state of a fresh search with the same start are compared. Non-trivial: more than three iterations compared.",prop,40000,100000000});
}
