// C13: elitism re-injects the reference point and never loses it.
#include "common.hpp"

struct Member
{
  dv x; double f;
  bool operator<(const Member &o) const { return f < o.f || (f == o.f && x < o.x); }
  bool operator==(const Member &o) const { return samebits(f,o.f) && same(x,o.x); }
};

static void prop(Gen &g, Ctx &ctx)
{
  GOpt o;
  o.algos = {0,3,6,9,12,0,3,6,9,12,1,2,4,5,7,8,10,11,13,14};
  o.noisy = true; o.elit = false;
  o.maxiter = g.size() > 1 ? 150 : 40;
  Cfg c = gen_cfg(g,o);
  c.elit = g.pick<int>({1,2,3,1,2,3,0});
  if (c.family() && c.elit == 3) c.algo -= c.family(); // the restarts of mode 3 are followed for single runs
  if (c.family()) { c.restarts = g.range(1,4); c.max_iter = std::min(c.max_iter,12); if (c.lambda > 12) c.lambda = 12; }
  if (c.elit == 3) c.max_fev = 3000;
  if (g.chance(1,3)) c.obj.kind = g.pick<int>({O_HASH,O_RAST,O_PLATEAU,O_CONST}); // the best seen gets lost
  if (c.elit == 3 && g.flip()) { c.obj.kind = O_HASH; c.max_iter = g.range(4,15); }
  if (c.ugrad && !c.obj.smooth()) c.grad = c.ugrad = false;
  if (c.n > 1 && g.chance(1,8)) { int k = g.draw(c.n-1); c.fixed[k] = c.gpt ? 0.5*(c.lb[k]+c.ub[k]) : 0.3; c.x0[k] = c.fixed[k]; }
  // the last of several calls of the setter counts.
  std::vector<int> before;
  if (g.chance(1,3)) for (int i=0,m=g.range(1,3);i<m;i++) before.push_back(g.range(0,3));
  labels(ctx,c);
  ctx.sample(c.describe());
  bool again = false, kept = false, restarted = false;
  with_gp(c,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      Res r;
      r.rec = std::make_shared<Rec>();
      FitFunc f = recfunc(c,r.rec,&ctx);
      CMAParameters<GP> p(c.x0,c.sigma,c.lambda,c.seed,make_gp<GP>(c));
      for (int e : before) p.set_elitism(e);
      apply(p,c);
      if (!before.empty()) p.set_elitism(c.elit);
      ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP> &cp, const CMASolutions &s)
	{
	  r.snaps.push_back(s); r.ncalls.push_back(r.rec->n); r.lambdas.push_back(cp.lambda());
	  return 0;
	};
      r.sol = cmaes<GP>(f,p,pf,recgrad(c,r.rec));
      const GP &gp = p.get_gp();
      double sg = c.maxi ? -1.0 : 1.0;
      auto &calls = r.calls();
      bool after_restart = false; // mode 3, once restarted
      dVec init;                  // start point of the run
      double finit = 0;
      bool has_init = false;
      int best_iter = 0;
      double run_best = 0;
      bool any = false;
      size_t ng = c.grad && !c.ugrad ? c.n+1 : 0;
      for (size_t i=0;i<r.snaps.size();i++)
	{
	  CMASolutions &s = r.snaps[i];
	  std::string at = "iteration " + str(s.niter()) + ": ";
	  if (s.niter() == 0)
	    {
	      has_init = c.elit == 1 || c.elit == 2 || c.initf || after_restart;
	      best_iter = 0;
	      if (has_init)
		{
		  init = s.xmean();
		  ctx.check(r.ncalls[i] > (i ? r.ncalls[i-1] : 0),"start-value",[&]{ return "the start point is not evaluated"; });
		  dVec ph = gp.pheno(init);
		  const Call &k = calls[r.ncalls[i]-1];
		  ctx.check(same(k.x,tov(ph)),"start-value",[&]{ return "evaluated " + str(k.x) + " instead of the start point " + str(ph); });
		  finit = sg*k.f;
		}
	      continue;
	    }
	  CMASolutions &q = r.snaps[i-1];
	  int lambda = s.size();
	  size_t from = r.ncalls[i-1]+ng;
	  std::vector<Member> ev, pop;
	  ctx.check(r.ncalls[i] == from+lambda,"calls",[&]{ return at + "unexpected number of evaluations"; });
	  for (size_t k=from;k<from+lambda;k++) ev.push_back(Member{calls[k].x,sg*calls[k].f});
	  for (int k=0;k<lambda;k++) pop.push_back(Member{tov(gp.pheno(s.get_candidate(k).get_x_dvec())),s.get_candidate(k).get_fvalue()});
	  std::sort(ev.begin(),ev.end());
	  std::sort(pop.begin(),pop.end());
	  Member ref;
	  bool on = false;
	  if (q.niter() > 0)
	    {
	      if (c.elit == 1) { ref = Member{tov(gp.pheno(q.get_best_seen_candidate().get_x_dvec())),q.get_best_seen_candidate().get_fvalue()}; on = true; }
	      else if (c.elit == 2 || (c.elit == 3 && after_restart)) { ref = Member{tov(gp.pheno(init)),finit}; on = true; }
	    }
	  int count = 0;
	  if (on) for (auto &m : ev) count += m.f < ref.f;
	  if (on && count < lambda/2)
	    {
	      again = true;
	      ctx.check(std::find(pop.begin(),pop.end(),ref) != pop.end(),"not-reinjected",[&]{ return at + "only " + str(count) + " of " + str(lambda) + " candidates are better than the reference point " + str(ref.x) + " of value " + str(ref.f) + ", which is not in the population"; });
	      // all the better candidates are kept, and at most one of the others has gone.
	      std::vector<Member> rest = ev, missing;
	      std::vector<Member> have = pop;
	      for (auto &m : rest)
		{
		  auto it = std::find(have.begin(),have.end(),m);
		  if (it != have.end()) have.erase(it);
		  else missing.push_back(m);
		}
	      for (auto &m : missing)
		ctx.check(!(m.f < ref.f),"dropped-better",[&]{ return at + "candidate of value " + str(m.f) + " was dropped for the reference point of value " + str(ref.f); });
	      ctx.check(missing.size() <= 1,"dropped-more",[&]{ return at + str(missing.size()) + " candidates were dropped"; });
	      for (auto &m : have)
		ctx.check(m == ref,"other-point",[&]{ return at + "the population has a point that was neither evaluated in this iteration nor is the reference: " + str(m.x); });
	    }
	  else
	    {
	      if (on) kept = true;
	      ctx.check(ev == pop,"population",[&]{ return at + "the population is not the set of evaluated candidates although nothing is to be re-injected"; });
	    }
	  double bs = s.get_best_seen_candidate().get_fvalue();
	  if (has_init)
	    ctx.check(bs <= finit,"worse-than-start",[&]{ return at + "best seen " + str(bs) + " is worse than the start point's " + str(finit); });
	  if (s.niter() > 1)
	    ctx.check(bs <= q.get_best_seen_candidate().get_fvalue(),"lost",[&]{ return at + "best seen went from " + str(q.get_best_seen_candidate().get_fvalue()) + " to " + str(bs); });
	  if (s.niter() == 1 || bs < q.get_best_seen_candidate().get_fvalue())
	    {
	      bool improved = s.niter() == 1 ? (!has_init || bs < finit) : true;
	      if (improved) best_iter = s.niter()-1;
	    }
	  if (c.elit == 3)
	    {
	      bool last = i+1 == r.snaps.size();
	      bool ended = last || r.snaps[i+1].niter() == 0;
	      if (ended)
		{
		  bool want = bs < s.best_candidate().get_fvalue() && s.niter()-best_iter >= 3;
		  ctx.check(want == !last,want ? "no-restart" : "restart",[&]{ return at + "the run ended with best value " + str(s.best_candidate().get_fvalue()) + ", best seen " + str(bs) + " at iteration " + str(best_iter) + (last ? ", no restart" : ", restart"); });
		  if (!last)
		    {
		      restarted = true;
		      after_restart = true;
		      CMASolutions &t = r.snaps[i+1];
		      dVec bx = s.get_best_seen_candidate().get_x_dvec();
		      for (int k=0;k<c.n;k++)
			if (!c.fixed.count(k))
			  ctx.check(close(t.xmean()(k),bx(k),1e-9,1e-9*(c.scaled() ? (c.scal_ctor ? std::fabs(c.shft[k])+1 : 10+10*std::fabs(c.ub[k])/(c.ub[k]-c.lb[k])) : 0)),"restart-point",[&]{ return "restarts from " + str(dVec(t.xmean())) + " instead of the best seen " + str(bx); });
		      ctx.check(samebits(t.sigma(),r.snaps[0].sigma()) && same(t.full_cov().diagonal().eval(),r.snaps[0].full_cov().diagonal().eval()),"restart-state",[&]{ return "the restart does not begin with the initial step-size and covariance"; });
		    }
		}
	      run_best = any ? std::min(run_best,bs) : bs;
	      any = true;
	    }
	}
      if (c.elit == 3 && restarted && !c.scaled())
	ctx.check(r.sol.get_best_seen_candidate().get_fvalue() <= run_best || c.scaled(),"lost",[&]{ return "best seen returned " + str(r.sol.get_best_seen_candidate().get_fvalue()) + ", but " + str(run_best) + " was seen"; });
      ctx.nontrivial(c.elit == 3 ? restarted : c.elit == 0 ? r.snaps.size() > 3 : again);
      if (again) ctx.label("reinjected");
      if (kept) ctx.label("not-needed");
      if (restarted) ctx.label("elitist-restart");
      if (!before.empty()) ctx.label("set-several-times");
    });
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C13","A case is a recorded run of one of the 15 algorithms with an elitism mode (0 to 3, set once or several times) and generated settings; for each iteration the multiset of evaluated candidates is compared with the population, which must hold the reference point exactly when fewer than half improve on it, with nothing better dropped; start values, best seen and the restarts of mode 3 are followed. Non-trivial: a re-injection was due (modes 1, 2), an elitist restart took place (mode 3), or more than two iterations were made with elitism off.",prop,40000,100000000});
}
