// C17: schedule and result of the restarting algorithms.
#include "updates.hpp"

struct Run
{
  size_t first, last; // snapshots
  int lambda;
  size_t calls;       // made by its end
};

static void prop(Gen &g, Ctx &ctx)
{
  GOpt o;
  o.maxdim = 5;
  o.algos = {1,2,4,5,7,8,10,11,13,14,1,2};
  o.mt = false; o.edm = false; o.uh = true; o.big = false;
  o.maxiter = 14;
  o.kinds = {O_SPHERE,O_ELLI,O_LIN,O_QUART,O_ROSEN,O_RAST,O_ABS,O_MAXABS,O_PLATEAU,O_HASH,O_HASH,O_HASH};
  Cfg c = gen_cfg(g,o);
  if (c.elit == 3) c.elit = 0; // restarts from the best point seen are those of C13
  c.max_fev = -1;
  if (c.lambda > 20) c.lambda = 20;
  c.restarts = g.range(1,c.family() == 1 ? 5 : 4);
  int lam0 = c.lambda > 0 ? c.lambda : 4+(int)std::floor(3*std::log((double)c.n));
  if (g.chance(1,3)) c.max_fev = g.range(1,lam0*(c.max_iter+2)*6);
  if (g.chance(1,8)) { c.has_ft = true; c.ftarget = c.maxi ? 1e300 : -1e300; if (g.flip()) c.ftarget = c.obj.shift; }
  // the progress function ends some of the runs, at some iteration, the first included.
  std::vector<std::pair<int,int>> aborts;
  bool all = false;
  if (g.chance(1,4))
    {
      int k = g.range(1,3);
      for (int i=0;i<k;i++) aborts.push_back({g.draw(5),g.draw(std::min(3,c.max_iter))});
      all = g.chance(1,4); // from a run on, all of them
    }
  labels(ctx,c);
  std::string d = c.describe();
  for (auto &a : aborts) d += " abort(run " + std::to_string(a.first) + (all ? "+" : "") + ", iteration " + std::to_string(a.second) + ")";
  ctx.sample(d);
  with_gp(c,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      int run_i = -1;
      size_t calls = 0;
      Res r = run<GP>(c,&ctx,[&](const CMAParameters<GP>&, const CMASolutions &s)
	{
	  if (s.niter() == 0) run_i++;
	  if (run_i > 2000) { ctx.fail("endless","more than 2000 runs"); return 1; }
	  for (auto &a : aborts)
	    if ((all ? run_i >= a.first : run_i == a.first) && s.niter() >= a.second) return 1;
	  return 0;
	});
      (void)calls;
      std::vector<Run> runs;
      auto &sn = r.snaps;
      for (size_t i=0;i<sn.size();i++)
	{
	  if (sn[i].niter() == 0) runs.push_back(Run{i,i,r.lambdas[i],0});
	  else ctx.check(!runs.empty() && sn[i].niter() == sn[i-1].niter()+1 && r.lambdas[i] == runs.back().lambda,"within",[&]{ return "iteration " + str(sn[i].niter()) + " with population " + str(r.lambdas[i]) + " follows iteration " + str(sn[i-1].niter()) + " with " + str(r.lambdas[i-1]); });
	  runs.back().last = i;
	  runs.back().calls = r.ncalls[i];
	}
      ctx.check(!runs.empty(),"none",[&]{ return "no run"; });
      int N = c.restarts, lam = lam0;
      ctx.check(runs[0].lambda == lam0,"lambda0",[&]{ return "first population " + str(runs[0].lambda) + " instead of " + str(lam0); });
      auto st = [&](size_t k) -> const CMASolutions& { return sn[runs[k].first]; };
      auto fresh = [&](size_t k, bool small)
	{
	  const CMASolutions &a = st(k), &b = st(0);
	  std::string at = " at the start of run " + str(k);
	  ctx.check(same(a.xmean(),b.xmean()),"start-mean",[&]{ return "mean " + str(a.xmean()) + " instead of " + str(b.xmean()) + at; });
	  if (!small) ctx.check(a.sigma() == b.sigma(),"start-sigma",[&]{ return "step-size " + str(a.sigma()) + " instead of " + str(b.sigma()) + at; });
	  else ctx.check(a.sigma() >= 0.02*(1-1e-12) && a.sigma() <= 2*(1+1e-12),"start-sigma-small",[&]{ return "step-size " + str(a.sigma()) + at; });
	  if (c.sep() || c.vd()) ctx.check(same(a.sepcov(),b.sepcov()) && a.sepcov().isOnes(0),"start-cov",[&]{ return "covariance is not the identity" + at; });
	  else ctx.check(a.cov().isIdentity(0),"start-cov",[&]{ return "covariance is not the identity" + at; });
	  CMASolutions ac = a;
	  ctx.check((int)ac.candidates().size() == runs[k].lambda,"start-pop",[&]{ return "population of " + str(ac.candidates().size()) + " instead of " + str(runs[k].lambda) + at; });
	  ctx.check(a.best_candidate().get_x_size() == (unsigned)c.n,"start-best",[&]{ return "best candidate" + at; });
	};
      // schedule
      size_t k = 0;
      if (c.family() == 1)
	{
	  for (int i=0;i<N;i++)
	    {
	      ctx.check(k < runs.size(),"missing",[&]{ return str(runs.size()) + " runs instead of " + str(N) + ", " + str(runs.back().calls) + " evaluations made"; });
	      ctx.check(runs[k].lambda == lam,"lambda",[&]{ return "population " + str(runs[k].lambda) + " of run " + str(k) + " instead of " + str(lam); });
	      fresh(k,false);
	      k++;
	      lam *= 2;
	      if (c.max_fev > 0 && (int)runs[k-1].calls >= c.max_fev) { ctx.label("budget-reached"); break; }
	    }
	}
      else
	{
	  int b0 = 0, b1 = 0;
	  for (int i=0;i<N;i++)
	    {
	      int q = lam/lam0;
	      while (b0 > b1)
		{
		  ctx.check(k < runs.size(),"missing",[&]{ return "no small run after run " + str(k-1); });
		  double e1 = lam0, e2 = std::ceil(lam0*0.5*q);
		  ctx.check(runs[k].lambda >= std::min(e1,e2) && runs[k].lambda <= std::max(e1,e2),"lambda-small",[&]{ return "population " + str(runs[k].lambda) + " of the small run " + str(k) + " is not within " + str(e1) + " and " + str(e2); });
		  fresh(k,true);
		  const CMASolutions &z = sn[runs[k].last];
		  int cap = std::max(1,(int)(0.5*b0));
		  // at most the iteration that reaches half the budget; re-evaluations and gradients included.
		  if (!c.uh && !c.grad)
		    ctx.check(z.fevals() < cap+runs[k].lambda+2,"small-budget",[&]{ return "small run " + str(k) + " makes " + str(z.fevals()) + " evaluations, half the budget of the large ones is " + str(0.5*b0); });
		  b1 += z.niter()*runs[k].lambda;
		  ctx.label("small-run");
		  k++;
		  if (z.niter() == 0) { ctx.label("small-run-ended-at-once"); break; }
		}
	      ctx.check(k < runs.size(),"missing",[&]{ return str(runs.size()) + " runs, large run " + str(i) + " is missing"; });
	      if (i > 0) lam *= 2;
	      ctx.check(runs[k].lambda == lam,"lambda",[&]{ return "population " + str(runs[k].lambda) + " of the large run " + str(k) + " instead of " + str(lam); });
	      fresh(k,false);
	      b0 += sn[runs[k].last].niter()*lam;
	      k++;
	    }
	}
      ctx.check(k == runs.size(),"extra",[&]{ return str(runs.size()) + " runs instead of " + str(k); });
      // each run recombines with the weights of its own population.
      int cmp = 0;
      for (auto &u : runs)
	for (size_t i=u.first+1;i<=u.last;i++)
	  {
	    RefPar p(c.n,u.lambda,c,c.fixed.size());
	    CMASolutions s = sn[i];
	    dVec m = dVec::Zero(c.n), mag = dVec::Zero(c.n);
	    double ws = 0;
	    for (size_t j=0;j<p.w.size() && (int)j<p.mu;j++) { m += p.w[j]*s.candidates().at(j).get_x_dvec(); mag += (p.w[j]*s.candidates().at(j).get_x_dvec()).cwiseAbs(); ws += p.w[j]; }
	    double dist = (m-s.xmean()).cwiseAbs().maxCoeff();
	    ctx.check(dist <= 1e-9*(mag.maxCoeff()+1e-300),"mean",[&]{ return "mean after iteration " + str(s.niter()) + " with population " + str(u.lambda) + " is not the weighted mean of its best half"; });
	    cmp++;
	  }
      // and updates step-size and covariance with its constants.
      if (!c.uh && c.tpa != 2 && g.chance(1,2)) { ctx.label("updates-compared"); check_updates<GP>(ctx,c,r); }
      // the solution is that of the best run.
      size_t best = 0;
      bool have = false;
      for (size_t i=0;i<runs.size();i++)
	{
	  double v = sn[runs[i].last].best_candidate().get_fvalue();
	  if (std::isnan(v)) continue;
	  if (!have || v < sn[runs[best].last].best_candidate().get_fvalue()) { best = i; have = true; }
	}
      if (have)
	{
	  const CMASolutions &z = sn[runs[best].last];
	  double v = z.best_candidate().get_fvalue(), w = r.sol.best_candidate().get_fvalue();
	  ctx.check(samebits(v,w),"best-value",[&]{ return "best value " + str(w) + " returned, run " + str(best) + " of " + str(runs.size()) + " ended with " + str(v); });
	  int same_as = -1;
	  for (size_t i=0;i<runs.size();i++)
	    {
	      const CMASolutions &y = sn[runs[i].last];
	      if (samebits(y.best_candidate().get_fvalue(),v) && same(y.xmean(),r.sol.xmean()) && y.sigma() == r.sol.sigma() && y.niter() == r.sol.niter() && y.fevals() == r.sol.fevals() && same(y.best_candidate().get_x_dvec(),r.sol.best_candidate().get_x_dvec()) && samebits(y.get_best_seen_candidate().get_fvalue(),r.sol.get_best_seen_candidate().get_fvalue()))
		same_as = i;
	    }
	  ctx.check(same_as >= 0,"best-state",[&]{ return "the solution returned is not the final state of a run with the best value"; });
	  if (best+1 < runs.size()) ctx.label("best-run-not-last");
	  if (best > 0) ctx.label("best-run-not-first");
	}
      ctx.label("runs=" + std::to_string(std::min<size_t>(runs.size(),9)));
      ctx.nontrivial(runs.size() > 1 && cmp > 3);
    });
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C17","A case is a recorded run of a restarting algorithm (incremental or two-regime, all families) with generated problem, population size, number of restarts, budget and with runs ended by the progress function at any iteration; the sequence of runs (population sizes, start state, budgets) is compared with a model of the schedule, every mean with the weights of its run's population, the returned solution with the final states of all runs. Non-trivial: more than one run and more than 3 iterations compared.",prop,60000,100000000});
}
