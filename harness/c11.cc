// C11: a manual ask/evaluate/tell loop, or custom functions that delegate, are the same search as optimize().
#include "common.hpp"

static void same_solution(Ctx &ctx, const CMASolutions &a, const CMASolutions &b, const std::string &at)
{
  ctx.check(a.niter() == b.niter(),"niter",[&]{ return at + "iterations " + str(a.niter()) + " and " + str(b.niter()); });
  ctx.check(a.nevals() == b.nevals() && a.fevals() == b.fevals(),"nevals",[&]{ return at + "evaluations " + str(a.nevals()) + " and " + str(b.nevals()); });
  ctx.check(a.run_status() == b.run_status(),"status",[&]{ return at + "status " + str(a.run_status()) + " and " + str(b.run_status()); });
  ctx.check(same(dVec(a.xmean()),dVec(b.xmean())),"mean",[&]{ return at + "means " + str(dVec(a.xmean())) + " and " + str(dVec(b.xmean())); });
  ctx.check(samebits(a.sigma(),b.sigma()),"sigma",[&]{ return at + "step-sizes " + str(a.sigma()) + " and " + str(b.sigma()); });
  ctx.check(same(a.full_cov(),b.full_cov()),"covariance",[&]{ return at + "covariances differ"; });
  ctx.check(same(dMat(a.eigenvalues()),dMat(b.eigenvalues())),"eigenvalues",[&]{ return at + "eigenvalues differ"; });
  ctx.check(samebits(a.edm(),b.edm()),"edm",[&]{ return at + "expected distances differ"; });
  ctx.check(a.size() == b.size(),"size",[&]{ return at + "population sizes differ"; });
  for (int k=0;k<a.size();k++)
    ctx.check(same(a.get_candidate(k).get_x_dvec(),b.get_candidate(k).get_x_dvec()) && samebits(a.get_candidate(k).get_fvalue(),b.get_candidate(k).get_fvalue()),"population",[&]{ return at + "candidates of rank " + str(k) + " differ"; });
  if (a.niter())
    {
      ctx.check(samebits(a.get_best_seen_candidate().get_fvalue(),b.get_best_seen_candidate().get_fvalue()) && same(a.get_best_seen_candidate().get_x_dvec(),b.get_best_seen_candidate().get_x_dvec()),"best-seen",[&]{ return at + "best seen differs"; });
      ctx.check(samebits(a.get_worst_seen_candidate().get_fvalue(),b.get_worst_seen_candidate().get_fvalue()),"worst-seen",[&]{ return at + "worst seen differs"; });
    }
}

template <class Strat, class GP> void body(Gen &g, Ctx &ctx, const Cfg &c, int mode, bool own)
{
  // the run to completion.
  Res a = run<GP>(c,&ctx);
  // the hand-driven one.
  Res b;
  b.rec = std::make_shared<Rec>();
  FitFunc f = recfunc(c,b.rec,&ctx);
  CMAParameters<GP> p = make_params<GP>(c);
  if (c.sep()) p.set_sep();
  if (c.vd()) p.set_vd();
  ESOptimizer<Strat,CMAParameters<GP>,CMASolutions> opt(f,p);
  GradFunc gf = recgrad(c,b.rec);
  if (gf) opt.set_gradient_func(gf);
  ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP> &cp, const CMASolutions &s)
    {
      b.snaps.push_back(s); b.ncalls.push_back(b.rec->n); b.lambdas.push_back(cp.lambda());
      return 0;
    };
  opt.set_progress_func(pf);
  GP gp = p.get_gp();
  int nask = 0, neval = 0, ntell = 0;
  double sg = c.maxi ? -1.0 : 1.0;
  auto myeval = [&](const dMat &x, const dMat &ph)
    {
      ++neval;
      if (!own) { opt.eval(x,ph); return; }
      // evaluated by the caller.
      for (int r=0;r<x.cols();r++)
	{
	  dVec pr = ph.col(r);
	  Candidate &cd = opt.get_solutions().get_candidate(r);
	  cd.set_x(x.col(r));
	  cd.set_id(r);
	  cd.set_fvalue(sg*f(pr.data(),pr.size()));
	}
      opt.update_fevals(x.cols());
    };
  int twice = mode == 0 && g.chance(1,4) ? (int)g.draw(10) : -1;
  if (mode == 0)
    {
      int it = 0;
      while (!opt.stop())
	{
	  ++nask;
	  dMat x = opt.ask();
	  myeval(x,gp.pheno(x));
	  ++ntell;
	  opt.tell();
	  opt.inc_iter();
	  ++it;
	}
    }
  else
    {
      EvalFunc ef = myeval;
      AskFunc af = [&]() { ++nask; return opt.ask(); };
      TellFunc tf = [&]() { ++ntell; opt.tell(); };
      opt.Strat::optimize(ef,af,tf);
    }
  size_t n = std::min(a.calls().size(),b.calls().size());
  for (size_t i=0;i<n;i++)
    ctx.check(same(a.calls()[i].x,b.calls()[i].x),"points",[&]{ return "evaluation " + str(i) + ": points " + str(a.calls()[i].x) + " and " + str(b.calls()[i].x); });
  ctx.check(a.calls().size() == b.calls().size(),"number",[&]{ return str(a.calls().size()) + " evaluations and " + str(b.calls().size()) + " by hand"; });
  ctx.check(a.snaps.size() == b.snaps.size(),"iterations",[&]{ return str(a.snaps.size()) + " progress calls and " + str(b.snaps.size()) + " by hand"; });
  int iters = 0;
  for (size_t i=0;i<a.snaps.size();i++)
    {
      if (a.snaps[i].niter()) ++iters;
      same_solution(ctx,a.snaps[i],b.snaps[i],"progress call " + str(i) + ": ");
    }
  same_solution(ctx,a.sol,opt.get_solutions(),"result: ");
  ctx.check(nask == iters && neval == iters && ntell == iters,"delegated",[&]{ return str(iters) + " iterations, but ask was called " + str(nask) + ", eval " + str(neval) + ", tell " + str(ntell) + " times"; });
  ctx.nontrivial(iters >= 3);
  if (mode == 0 && twice >= 0)
    {
      // asking again, any number of times, does not move the distribution.
      CMASolutions s0 = opt.get_solutions();
      for (int k=0;k<=twice;k++)
	{
	  dMat x = opt.ask();
	  ctx.check(x.rows() == c.n && x.cols() == p.lambda(),"shape",[&]{ return "ask gives " + str((int)x.rows()) + " x " + str((int)x.cols()); });
	}
      const CMASolutions &s1 = opt.get_solutions();
      ctx.check(same(dVec(s0.xmean()),dVec(s1.xmean())) && samebits(s0.sigma(),s1.sigma()) && same(s0.full_cov(),s1.full_cov()) && s0.niter() == s1.niter(),"ask-moves",[&]{ return "asking moved the distribution"; });
      ctx.label("asked-again");
    }
}

template <class Upd, class GP> void family(Gen &g, Ctx &ctx, const Cfg &c, int mode, bool own)
{
  switch (c.family())
    {
    case 0: body<CMAStrategy<Upd,GP>,GP>(g,ctx,c,mode,own); break;
    case 1: body<IPOPCMAStrategy<Upd,GP>,GP>(g,ctx,c,mode,own); break;
    default: body<BIPOPCMAStrategy<Upd,GP>,GP>(g,ctx,c,mode,own); break;
    }
}

static void prop(Gen &g, Ctx &ctx)
{
  int mode = g.draw(1); // 0 manual loop, 1 custom functions
  GOpt o;
  if (mode == 0) { o.edm = false; o.initf = false; o.elit = false; } // done by optimize() itself
  else o.algos = {0,3,6,9,12,1,2,4,5,7,8,10,11,13,14};
  o.noisy = true; o.uh = true;
  o.maxiter = g.size() > 1 ? 150 : 40;
  Cfg c = gen_cfg(g,o);
  if (c.family()) { c.restarts = g.range(1,4); c.max_iter = std::min(c.max_iter,12); if (c.lambda > 12) c.lambda = 12; }
  if (c.n > 1 && g.chance(1,6)) { int k = g.draw(c.n-1); c.fixed[k] = c.gpt ? 0.5*(c.lb[k]+c.ub[k]) : 0.3; }
  if (g.chance(1,4)) c.max_fev = g.range(10,600);
  if (g.chance(1,6)) { c.has_ft = true; c.ftarget = g.logu(1e-3,10.0); }
  bool own = !c.elit && !c.uh && g.chance(1,3);
  c.mt = false;
  labels(ctx,c);
  ctx.label(mode ? "custom-functions" : "manual-loop");
  if (own) ctx.label("own-evaluation");
  ctx.sample(std::string(mode ? "custom functions" : "manual loop") + (own ? " own evaluation " : " ") + c.describe());
  with_gp(c,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      if (c.vd()) family<VDCMAUpdate,GP>(g,ctx,c,mode,own);
      else if (c.active()) family<ACovarianceUpdate,GP>(g,ctx,c,mode,own);
      else family<CovarianceUpdate,GP>(g,ctx,c,mode,own);
    });
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C11","A case runs one of the 15 algorithms with generated settings twice: by cmaes(), and by a manual stop/ask/evaluate/tell/increment loop or through custom ask, evaluate and tell functions (delegating, or evaluating by themselves); all evaluated points and the state at every iteration and at the end must be identical, the custom functions called once per iteration, and asking again must leave the distribution unchanged. Non-trivial: at least 3 iterations.",prop,40000,100000000});
}
