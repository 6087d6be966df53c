// C04: evaluation and iteration counts are exact and budgets are respected.
#include "common.hpp"

static void prop(Gen &g, Ctx &ctx)
{
  GOpt o;
  o.algos = {0,3,6,9,12,0,1,2,4,5,7,8,10,11,13,14};
  o.uh = true; o.noisy = true;
  o.maxiter = g.size() > 1 ? 120 : 40;
  Cfg c = gen_cfg(g,o);
  if (c.family()) { c.restarts = g.range(1,4); c.max_iter = std::min(c.max_iter,15); if (c.lambda > 12) c.lambda = 12; }
  if (c.n > 1 && g.chance(1,6)) { int k = g.draw(c.n-1); c.fixed[k] = c.gpt ? 0.5*(c.lb[k]+c.ub[k]) : 0.3; }
  if (g.chance(1,2)) c.max_fev = g.chance(1,6) ? g.range(1,10) : g.range(10,400);
  if (g.chance(1,8)) c.max_iter = -1;
  if (c.max_iter < 0 && c.max_fev < 0) c.max_fev = g.range(10,400);
  if (c.max_iter < 0 && c.family() == 2) c.max_iter = 15;
  if (g.chance(1,8)) { c.has_ft = true; c.ftarget = g.uniform(-1,5); }
  labels(ctx,c);
  ctx.label("family=" + std::to_string(c.family()));
  ctx.sample(c.describe());
  bool viter = false;
  with_gp(c,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      Res r = run<GP>(c,&ctx);
      int edm = c.edm && !(c.grad && c.ugrad) ? c.n+1 : 0;
      int init = c.elit == 1 || c.elit == 2 || c.initf ? 1 : 0; // mode 3 only evaluates the point it restarts from
      long base = 0, lastrun = 0;          // calls before the current run
      std::vector<long> runs;              // evaluations of each finished run
      for (size_t i=0;i<r.snaps.size();i++)
	{
	  const CMASolutions &s = r.snaps[i];
	  long nc = r.ncalls[i];
	  ctx.check(s.fevals() == s.nevals(),"accessors",[&]{ return "fevals() " + str(s.fevals()) + " nevals() " + str(s.nevals()); });
	  if (i == 0)
	    ctx.check(s.niter() == 0 && s.fevals() == init && nc == init,"start",[&]{ return "at the start: iteration " + str(s.niter()) + ", reported evaluations " + str(s.fevals()) + ", calls " + str((int)nc); });
	  else if (s.niter() == r.snaps[i-1].niter()+1)
	    {
	      const CMASolutions &p = r.snaps[i-1];
	      if (c.max_iter > 0)
		ctx.check(s.niter() <= c.max_iter,"max-iter",[&]{ return "iteration " + str(s.niter()) + " with at most " + str(c.max_iter); });
	      if (c.max_fev >= 0 && c.family() < 2 && p.niter() > 0)
		ctx.check(p.fevals() < c.max_fev,"max-fevals",[&]{ return "iteration started after " + str(p.fevals()) + " evaluations with at most " + str(c.max_fev); });
	    }
	  else
	    {
	      // a restart.
	      ctx.check(s.niter() == 0,"iterations",[&]{ return "iteration " + str(r.snaps[i-1].niter()) + " followed by " + str(s.niter()); });
	      long end = lastrun + edm; // evaluations of the previous run, with those of edm
	      bool cont = s.fevals() != init || (long)nc - init != base + end;
	      if (c.elit == 3 && cont && s.fevals() == nc-base)
		{
		  // elitist restart, same run: its own initial value is counted.
		  ctx.label("elitist-restart");
		  init = 1; // stays on
		  ctx.check(s.fevals() == end+1,"elitist-restart",[&]{ return "elitist restart at " + str(s.fevals()) + " evaluations, after " + str((int)end); });
		}
	      else
		{
		  ctx.check(c.family() > 0,"unexpected-restart",[&]{ return "iteration counter went back to 0"; });
		  ctx.label("restart");
		  runs.push_back(end);
		  base += end;
		  ctx.check(nc == base + init && s.fevals() == init,"restart",[&]{ return "run starts at " + str(s.fevals()) + " reported evaluations, " + str((int)nc) + " calls in total, " + str((int)base) + " calls in earlier runs by their counts"; });
		  if (c.max_fev > 0 && c.family() == 1)
		    ctx.check(base < c.max_fev,"restart-budget",[&]{ return "run started after " + str((int)base) + " evaluations in total with at most " + str(c.max_fev); });
		}
	    }
	  ctx.check(s.fevals() == nc-base,"count",[&]{ return "iteration " + str(s.niter()) + ": " + str(s.fevals()) + " evaluations reported, " + str((int)(nc-base)) + " calls made"; });
	  lastrun = s.fevals();
	  if (s.niter() > 2) viter = true;
	}
      runs.push_back(lastrun+edm);
      long total = 0;
      for (long v : runs) total += v;
      ctx.check(total == (long)r.calls().size(),"total",[&]{ return "the runs report " + str((int)total) + " evaluations, " + str(r.calls().size()) + " calls made"; });
      bool found = false;
      for (long v : runs) if (r.sol.fevals() == v) found = true;
      ctx.check(found,"final",[&]{ return "final solution reports " + str(r.sol.fevals()) + " evaluations, " + str(r.calls().size()) + " calls made"; });
      if (c.family() == 0)
	ctx.check(r.sol.niter() == r.snaps.back().niter(),"final-iter",[&]{ return "final solution reports " + str(r.sol.niter()) + " iterations after " + str(r.snaps.back().niter()); });
      if (c.max_iter > 0 && c.family() == 1 && c.max_fev < 0)
	ctx.check((int)runs.size() <= std::max(c.restarts,1),"runs",[&]{ return str(runs.size()) + " runs with at most " + str(c.restarts); });
      ctx.nontrivial(viter);
    });
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C04","A case is a recorded run of one of the 15 algorithms with generated settings and budgets; the objective's own call counter is compared with the reported count at every progress call, at every restart and at the end. Non-trivial: a run of it reached its third iteration.",prop,60000,100000000});
}
