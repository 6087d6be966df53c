// C05: every reported candidate is an evaluated point paired with its true value, and the extremes are extremes.
#include "common.hpp"

static void prop(Gen &g, Ctx &ctx)
{
  GOpt o;
  o.algos = {0,3,6,9,12,0,1,2,4,5,7,8,10,11,13,14};
  o.uh = true; o.noisy = true;
  o.maxiter = g.size() > 1 ? 120 : 30;
  Cfg c = gen_cfg(g,o);
  if (c.family()) { c.restarts = g.range(1,4); c.max_iter = std::min(c.max_iter,12); if (c.lambda > 12) c.lambda = 12; }
  if (c.n > 1 && g.chance(1,6)) { int k = g.draw(c.n-1); c.fixed[k] = c.gpt ? 0.5*(c.lb[k]+c.ub[k]) : 0.3; }
  if (g.chance(1,6)) c.max_fev = g.range(10,400);
  labels(ctx,c);
  ctx.sample(c.describe());
  with_gp(c,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      Res r = run<GP>(c,&ctx);
      CMAParameters<GP> p = make_params<GP>(c);
      const GP &gp = p.get_gp();
      double sg = c.maxi ? -1.0 : 1.0;
      auto &calls = r.calls();
      std::map<dv,double> seen;      // points evaluated so far in the run
      size_t pos = 0;
      double best = std::numeric_limits<double>::infinity(), worst = -best;
      bool hist = false;
      auto real = [&](const Candidate &cd, const std::string &what)
	{
	  dVec ph = gp.pheno(cd.get_x_dvec());
	  auto it = seen.find(tov(ph));
	  ctx.check(it != seen.end(),"not-evaluated",[&]{ return what + ": point " + str(ph) + " was never evaluated"; });
	  ctx.check(samebits(cd.get_fvalue(),it->second),"value",[&]{ return what + ": value " + str(cd.get_fvalue()) + " reported, " + str(it->second) + " obtained at " + str(ph); });
	};
      for (size_t i=0;i<r.snaps.size();i++)
	{
	  CMASolutions &s = r.snaps[i];
	  std::string at = "iteration " + str(s.niter()) + " ";
	  if (s.niter() == 0 && i > 0)
	    {
	      // new run: its only call so far is the one of its starting value, if any.
	      bool init = s.best_candidate().get_x_size() && s.get_best_seen_candidate().get_x_size();
	      pos = r.ncalls[i] - (init ? 1 : 0);
	      seen.clear();
	      best = std::numeric_limits<double>::infinity(); worst = -best;
	    }
	  size_t from = pos;
	  std::vector<double> now;
	  for (;pos<r.ncalls[i];pos++)
	    seen[calls[pos].x] = sg*calls[pos].f;
	  if (s.niter() == 0)
	    {
	      if (s.get_best_seen_candidate().get_x_size())
		{
		  real(s.get_best_seen_candidate(),at + "best seen");
		  real(s.best_candidate(),at + "best");
		  best = s.get_best_seen_candidate().get_fvalue();
		}
	      continue;
	    }
	  int lambda = s.size();
	  ctx.check(lambda == r.lambdas[i],"size",[&]{ return at + "population of " + str(lambda) + " with lambda " + str(r.lambdas[i]); });
	  for (int k=0;k<lambda;k++) real(s.get_candidate(k),at + "candidate " + str(k));
	  real(s.best_candidate(),at + "best");
	  real(s.get_best_seen_candidate(),at + "best seen");
	  real(s.get_worst_seen_candidate(),at + "worst seen");
	  ctx.check(same(s.best_candidate().get_x(),s.get_candidate(0).get_x()) && samebits(s.best_candidate().get_fvalue(),s.get_candidate(0).get_fvalue()),"best-is-first",[&]{ return at + "best candidate is not the first of the population"; });
	  if (c.uh) continue;
	  // candidates are evaluated last in an iteration (a numerical gradient comes before).
	  ctx.check(pos-from >= (size_t)lambda,"too-few",[&]{ return at + "fewer evaluations than candidates"; });
	  std::vector<dv> ev, pop;
	  double ib = std::numeric_limits<double>::infinity(), iw = -ib;
	  for (size_t k=pos-lambda;k<pos;k++)
	    {
	      ev.push_back(calls[k].x);
	      ib = std::min(ib,sg*calls[k].f);
	      iw = std::max(iw,sg*calls[k].f);
	    }
	  best = std::min(best,ib);
	  worst = std::max(worst,iw);
	  for (int k=0;k<lambda;k++)
	    {
	      pop.push_back(tov(gp.pheno(s.get_candidate(k).get_x_dvec())));
	      if (k)
		ctx.check(!(s.get_candidate(k).get_fvalue() < s.get_candidate(k-1).get_fvalue()),"order",[&]{ return at + "candidate " + str(k) + " with value " + str(s.get_candidate(k).get_fvalue()) + " after one with " + str(s.get_candidate(k-1).get_fvalue()); });
	    }
	  double bf = s.best_candidate().get_fvalue();
	  ctx.check(c.elit ? bf <= ib : bf == ib,"best-of-iteration",[&]{ return at + "best value " + str(bf) + ", best evaluated " + str(ib); });
	  if (!c.elit)
	    {
	      std::sort(ev.begin(),ev.end());
	      std::sort(pop.begin(),pop.end());
	      ctx.check(ev == pop,"population",[&]{ return at + "the population is not the set of points evaluated in this iteration"; });
	      ctx.check(s.get_worst_seen_candidate().get_fvalue() == worst,"worst-seen",[&]{ return at + "worst seen " + str(s.get_worst_seen_candidate().get_fvalue()) + ", worst evaluated " + str(worst); });
	    }
	  ctx.check(s.get_best_seen_candidate().get_fvalue() == best,"best-seen",[&]{ return at + "best seen " + str(s.get_best_seen_candidate().get_fvalue()) + ", best evaluated " + str(best); });
	  if (s.niter() >= 2 && ib > best) hist = true;
	}
      // final solution: of the last run for plain algorithms, of some run otherwise.
      if (c.family() == 0)
	{
	  CMASolutions &l = r.snaps.back();
	  ctx.check(samebits(l.best_candidate().get_fvalue(),r.sol.best_candidate().get_fvalue()) && same(l.best_candidate().get_x(),r.sol.best_candidate().get_x())
		    && samebits(l.get_best_seen_candidate().get_fvalue(),r.sol.get_best_seen_candidate().get_fvalue()) && same(l.get_best_seen_candidate().get_x(),r.sol.get_best_seen_candidate().get_x()),
		    "final",[&]{ return "the final solution's candidates are not those of the last iteration"; });
	}
      else if (r.sol.niter() > 0)
	{
	  seen.clear();
	  for (auto &k : calls) seen[k.x] = sg*k.f;
	  real(r.sol.best_candidate(),"final best");
	  real(r.sol.get_best_seen_candidate(),"final best seen");
	  for (int k=0;k<r.sol.size();k++) real(r.sol.get_candidate(k),"final candidate");
	}
      ctx.nontrivial(hist || (c.uh && r.snaps.back().niter() > 2));
    });
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C05","A case is a recorded run of one of the 15 algorithms with generated settings; at every progress call each population member, the best, the best seen and the worst seen are looked up among the recorded objective calls of the run, and the extremes recomputed from them. Non-trivial: in some iteration after the first the best of the population was not the best seen (or uncertainty handling was on for more than two iterations).",prop,40000,100000000});
}
