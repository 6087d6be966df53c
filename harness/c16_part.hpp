#include "c16.hpp"

template <template <template <class,class> class,class,class> class TSurr, template <class,class> class TStrat, class TCov, class GP>
void drive(Gen &g, Ctx &ctx, const Cfg &c, const Setup &su, bool acm, bool restarts, std::vector<Call> *out)
{
  auto rec = std::make_shared<Rec>();
  FitFunc f = recfunc(c,rec,&ctx);
  CMAParameters<GP> p = make_params<GP>(c);
  if (c.sep()) p.set_sep();
  if (c.vd()) p.set_vd();
  ESOptimizer<TSurr<TStrat,TCov,GP>,CMAParameters<GP>> opt(f,p);
  GP gp = p.get_gp();
  int n = c.n;
  opt.set_exploit(su.exploit);
  if (su.l > 0) opt.set_l(su.l);
  opt.set_nsteps(su.nsteps);
  int lp = -1, pl = -1;
  if constexpr (std::is_base_of<ACMSurrogateStrategy<TStrat,TCov,GP>,TSurr<TStrat,TCov,GP>>::value)
    {
      if (su.lp > 0) opt.set_lambdaprime(su.lp);
      if (su.pl > 0) opt.set_prelambda(su.pl);
      lp = opt.get_lambdaprime();
      pl = opt.get_prelambda();
    }
  int l = opt.get_l();
  double sgn = c.maxi ? -1 : 1;
  std::vector<Train> trains;
  std::vector<Pred> preds;
  auto covok = [&](const dMat &cov, const char *what)
    {
      CMASolutions s = opt.get_solutions();
      dMat e = (c.sep() || c.vd()) ? s.sepcsqinv() : s.csqinv();
      ctx.check(cov.rows() == n && cov.cols() == ((c.sep() || c.vd()) ? 1 : n),"cov-size",[&]{ return std::string(what) + " got a matrix of " + str((int)cov.rows()) + "x" + str((int)cov.cols()); });
      ctx.check(same(cov,e),"cov",[&]{ return std::string(what) + " got another matrix than the inverse square root of the covariance"; });
    };
  size_t base = 0; // first evaluation of the current run
  opt.set_ftrain([&](const Cands &cs, const dMat &cov)
    {
      covok(cov,"training");
      ctx.check((int)cs.size() <= l,"train-size",[&]{ return "training on " + str(cs.size()) + " points, set size " + str(l); });
      Train t;
      t.calls = rec->calls.size();
      for (auto &x : cs) t.set.push_back(Pt{upheno(gp,x.get_x_dvec()),x.get_fvalue()});
      // the last evaluations, with their values.
      std::vector<Pt> e;
      for (size_t i = base;i<rec->calls.size();i++) e.push_back(Pt{rec->calls[i].x,sgn*rec->calls[i].f});
      if ((int)e.size() > l) e.erase(e.begin(),e.end()-l);
      bool ok = e.size() == t.set.size();
      for (size_t i=0;ok && i<e.size();i++) ok = samebits(e[i].f,t.set[i].f) && same(e[i].x,t.set[i].x);
      ctx.check(ok,"train-set",[&]{ return "training set is not made of the last " + str(l) + " evaluated points and their values"; });
      trains.push_back(t);
      return 0;
    });
  opt.set_fpredict([&](Cands &cs, const dMat &cov)
    {
      covok(cov,"prediction");
      Pred q;
      q.calls = rec->calls.size();
      for (auto &x : cs)
	{
	  ctx.check((int)x.get_x_size() == n && x.get_x_dvec().allFinite(),"predict-point",[&]{ return "prediction asked for a malformed point"; });
	  q.g.push_back(tov(x.get_x_dvec()));
	}
      for (auto &x : cs) x.set_fvalue(model(c,su.mk,upheno(gp,x.get_x_dvec())));
      preds.push_back(q);
      return 0;
    });
  size_t callsb = 0, trainb = 0, predb = 0;
  int nstepsb = opt.get_nsteps();
  double smooth = 0.5;
  int exploited = 0, real = 0, tested = 0;
  size_t tset = 0; // points in the training set
  bool first = true;
  ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP> &cp, const CMASolutions &s)
    {
      auto &calls = rec->calls;
      if (!restarts)
	ctx.check(s.fevals() == (int)calls.size(),"fevals",[&]{ return str(s.fevals()) + " evaluations reported, " + str(calls.size()) + " made"; });
      double te = opt.get_test_error(), tr = opt.get_train_error();
      ctx.check(te >= 0 && te <= 1 && tr >= 0 && tr <= 1,"error-range",[&]{ return "train error " + str(tr) + ", test error " + str(te) + " after " + str(s.niter()) + " iterations"; });
      if (s.niter() == 0)
	{
	  if (!first) ctx.label("restarted");
	  first = false;
	  callsb = calls.size(); trainb = trains.size(); predb = preds.size();
	  if (acm) { base = calls.size(); tset = 0; smooth = 0.5; }
	  nstepsb = opt.get_nsteps();
	  if constexpr (std::is_base_of<ACMSurrogateStrategy<TStrat,TCov,GP>,TSurr<TStrat,TCov,GP>>::value)
	    if (restarts && base > 0) { pl = 50*cp.lambda(); }
	  return 0;
	}
      int it = s.niter()-1, lam = cp.lambda();
      bool full = (int)tset >= l, useful = acm ? (su.exploit && full) : (su.exploit && full && it % nstepsb != 0);
      CMASolutions sc = s;
      Cands pop = sc.candidates();
      std::string at = " (iteration " + str(it) + ")";
      ctx.check((int)pop.size() == lam,"pop-size",[&]{ return "population of " + str(pop.size()) + " instead of " + str(lam) + at; });
      for (size_t i=1;i<pop.size();i++)
	ctx.check(!(pop[i].get_fvalue() < pop[i-1].get_fvalue()),"pop-order",[&]{ return "population is not sorted" + at; });
      size_t ne = calls.size()-callsb, np = preds.size()-predb;
      auto truly = [&](const Candidate &x, size_t from)
	{
	  dv y = upheno(gp,x.get_x_dvec());
	  for (size_t i=from;i<calls.size();i++)
	    if (same(calls[i].x,y) && samebits(sgn*calls[i].f,x.get_fvalue())) return true;
	  return false;
	};
      if (!useful)
	{
	  real++;
	  ctx.check((int)ne == lam,"true-evals",[&]{ return str(ne) + " evaluations instead of " + str(lam) + at; });
	  for (auto &x : pop) ctx.check(truly(x,callsb),"true-pop",[&]{ return "population holds a value that is not that of its point" + at; });
	  tset = std::min<size_t>(l,tset+lam);
	}
      else if (!acm)
	{
	  exploited++;
	  ctx.check(ne == 0,"exploit-evals",[&]{ return str(ne) + " evaluations while the model is used" + at; });
	  ctx.check(np > 0,"exploit-predict",[&]{ return "no prediction" + at; });
	  for (auto &x : pop)
	    {
	      double m = model(c,su.mk,upheno(gp,x.get_x_dvec()));
	      ctx.check(samebits(m,x.get_fvalue()),"exploit-value",[&]{ return "value " + str(x.get_fvalue()) + " where the model says " + str(m) + at; });
	    }
	  for (size_t k=predb;k<preds.size();k++)
	    for (auto &x : pop)
	      ctx.check(preds[k].g.size() == pop.size() && std::any_of(preds[k].g.begin(),preds[k].g.end(),[&](const dv &y) { return same(y,tov(x.get_x_dvec())); }),"exploit-asked",[&]{ return "the points predicted are not those of the population" + at; });
	}
      else
	{
	  exploited++;
	  int k = std::max(1,lp);
	  ctx.check((int)ne == k,"preselect-evals",[&]{ return str(ne) + " evaluations instead of " + str(k) + at; });
	  ctx.check(np > 0 && (int)preds[predb].g.size() == pl && preds[predb].calls == callsb,"preselect-predict",[&]{ return "prediction of " + (np ? str(preds[predb].g.size()) : "no") + " points instead of " + str(pl) + at; });
	  auto &q = preds[predb];
	  std::set<dv> asked(q.g.begin(),q.g.end()), seen;
	  double bm = INFINITY, last = -INFINITY;
	  for (auto &x : q.g) bm = std::min(bm,model(c,su.mk,upheno(gp,toe(x))));
	  ctx.check(model(c,su.mk,calls[callsb].x) == bm,"preselect-first",[&]{ return "the point that the model ranks first is not evaluated first" + at; });
	  for (int i=0;i<lam;i++)
	    {
	      dv x = tov(pop[i].get_x_dvec());
	      ctx.check(asked.count(x) > 0,"preselect-pop",[&]{ return "population holds a point that was not pre-screened" + at; });
	      ctx.check(asked.size() < q.g.size() || seen.insert(x).second,"preselect-dup",[&]{ return "population holds a point twice" + at; });
	      if (i < k)
		ctx.check(truly(pop[i],callsb),"preselect-true",[&]{ return "candidate " + str(i) + " does not have its true value" + at; });
	      else
		{
		  double m = model(c,su.mk,upheno(gp,pop[i].get_x_dvec()));
		  ctx.check(m >= last,"preselect-rank",[&]{ return "points not evaluated are not in the order of the model" + at; });
		  last = m;
		}
	    }
	  tset = std::min<size_t>(l,tset+k);
	}
      if (acm)
	ctx.check(truly(s.best_candidate(),base),"best",[&]{ return "best candidate is not an evaluated point with its value" + at; });
      // test error: of the model, on the points evaluated in this iteration.
      if (ne > 0 && full && (it > 0 || useful))
	{
	  std::vector<double> t, m;
	  for (size_t i=callsb;i<calls.size();i++) { t.push_back(sgn*calls[i].f); m.push_back(model(c,su.mk,calls[i].x)); }
	  double e;
	  if (rank_error(t,m,e))
	    {
	      tested++;
	      ctx.check(close(te,e,1e-9,1e-12),"test-error",[&]{ return "test error " + str(te) + " instead of " + str(e) + at; });
	    }
	  smooth = 0.8*smooth+0.2*te;
	  if (!acm && su.nsteps < 0)
	    {
	      int want = std::max(1,(int)std::floor((0.45-smooth)/0.45*20))+1;
	      double fr = (0.45-smooth)/0.45*20;
	      if (std::fabs(fr-std::round(fr)) > 1e-9)
		ctx.check(opt.get_nsteps() == want,"lifelength",[&]{ return "lifelength " + str(opt.get_nsteps()) + " instead of " + str(want) + at; });
	    }
	}
      // training
      bool mustrain = (int)tset >= l && (acm || !su.exploit || it % opt.get_nsteps() == 0);
      ctx.check((trains.size() > trainb) == mustrain,"trained",[&]{ return std::string(mustrain ? "not trained" : "trained") + at; });
      if (mustrain)
	{
	  ctx.check(trains.size() == trainb+1 && trains.back().calls == calls.size(),"trained-once",[&]{ return "trained " + str(trains.size()-trainb) + " times" + at; });
	  if (acm)
	    {
	      std::vector<double> t, m;
	      for (auto &x : trains.back().set) { t.push_back(x.f); m.push_back(model(c,su.mk,x.x)); }
	      double e;
	      if (rank_error(t,m,e)) ctx.check(close(tr,e,1e-9,1e-12),"train-error",[&]{ return "train error " + str(tr) + " instead of " + str(e) + at; });
	    }
	}
      callsb = calls.size(); trainb = trains.size(); predb = preds.size();
      nstepsb = opt.get_nsteps();
      return 0;
    };
  opt.set_progress_func(pf);
  opt.optimize();
  if (!restarts)
    ctx.check(opt.get_solutions().fevals() == (int)rec->calls.size(),"fevals",[&]{ return str(opt.get_solutions().fevals()) + " evaluations reported, " + str(rec->calls.size()) + " made"; });
  if (tested) ctx.label("test-error-exact");
  if (exploited) ctx.label("exploited");
  ctx.nontrivial(su.exploit ? exploited > 0 : trains.size() > 0);
  if (out) *out = rec->calls;
}

template <template <template <class,class> class,class,class> class TSurr, class GP>
void pick(Gen &g, Ctx &ctx, const Cfg &c, const Setup &su, bool acm, std::vector<Call> *out)
{
  int fam = c.family();
  if (c.vd())
    { if (fam == 0) drive<TSurr,CMAStrategy,VDCMAUpdate,GP>(g,ctx,c,su,acm,false,out); else if (fam == 1) drive<TSurr,IPOPCMAStrategy,VDCMAUpdate,GP>(g,ctx,c,su,acm,true,out); else drive<TSurr,BIPOPCMAStrategy,VDCMAUpdate,GP>(g,ctx,c,su,acm,true,out); }
  else if (c.active())
    { if (fam == 0) drive<TSurr,CMAStrategy,ACovarianceUpdate,GP>(g,ctx,c,su,acm,false,out); else if (fam == 1) drive<TSurr,IPOPCMAStrategy,ACovarianceUpdate,GP>(g,ctx,c,su,acm,true,out); else drive<TSurr,BIPOPCMAStrategy,ACovarianceUpdate,GP>(g,ctx,c,su,acm,true,out); }
  else
    { if (fam == 0) drive<TSurr,CMAStrategy,CovarianceUpdate,GP>(g,ctx,c,su,acm,false,out); else if (fam == 1) drive<TSurr,IPOPCMAStrategy,CovarianceUpdate,GP>(g,ctx,c,su,acm,true,out); else drive<TSurr,BIPOPCMAStrategy,CovarianceUpdate,GP>(g,ctx,c,su,acm,true,out); }
}

// with exploitation off, the search is the plain one, with all options.
template <template <template <class,class> class,class,class> class TSurr, class TCov, class GP> std::vector<Call> off(Ctx &ctx, const Cfg &c, CMASolutions &sol)
{
  auto rec = std::make_shared<Rec>();
  FitFunc f = recfunc(c,rec,&ctx);
  CMAParameters<GP> p = make_params<GP>(c);
  if (c.sep()) p.set_sep();
  if (c.vd()) p.set_vd();
  ESOptimizer<TSurr<CMAStrategy,TCov,GP>,CMAParameters<GP>> opt(f,p);
  GradFunc gf = recgrad(c,rec);
  if (gf) opt.set_gradient_func(gf);
  opt.set_exploit(false);
  opt.set_l(2*c.n+3);
  opt.set_ftrain([](const Cands &, const dMat &) { return 0; });
  GP gp = p.get_gp();
  opt.set_fpredict([&](Cands &cs, const dMat &) { for (auto &x : cs) x.set_fvalue(model(c,1,upheno(gp,x.get_x_dvec()))); return 0; });
  ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [](const CMAParameters<GP>&, const CMASolutions&) { return 0; };
  opt.set_progress_func(pf);
  opt.optimize();
  sol = opt.get_solutions();
  return rec->calls;
}


template <class GP> void SCRIPTED(Gen &g, Ctx &ctx, const Cfg &c, const Setup &su, std::vector<Call> *out) { pick<STRATEGY,GP>(g,ctx,c,su,ACM,out); }
template <class GP> std::vector<Call> OFF(Ctx &ctx, const Cfg &c, CMASolutions &sol)
{
  if (c.vd()) return off<STRATEGY,VDCMAUpdate,GP>(ctx,c,sol);
  if (c.active()) return off<STRATEGY,ACovarianceUpdate,GP>(ctx,c,sol);
  return off<STRATEGY,CovarianceUpdate,GP>(ctx,c,sol);
}
template void SCRIPTED<GPT>(Gen &g, Ctx &ctx, const Cfg &c, const Setup &su, std::vector<Call> *out);
template std::vector<Call> OFF<GPT>(Ctx &ctx, const Cfg &c, CMASolutions &sol);
