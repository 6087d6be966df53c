#include "c16.hpp"

static void scripted(Gen &g, Ctx &ctx)
{
  GOpt o; o.lin0 = false;
  o.mindim = 1; o.maxdim = 6; o.custom = false; o.mt = false; o.uh = false; o.grad = false; o.edm = false; o.elit = false; o.tpa = false; o.lazy = true; o.initf = false;
  o.maxiter = 45;
  o.algos = {0,0,3,6,9,12,1,2,4,7};
  o.kinds = {O_SPHERE,O_ELLI,O_LIN,O_QUART,O_ROSEN,O_RAST,O_ABS,O_HASH};
  Cfg c = gen_cfg(g,o);
  if (c.family()) { c.restarts = g.range(1,3); if (c.max_iter > 12) c.max_iter = 12; if (c.max_fev < 0 || c.max_fev > 2000) c.max_fev = 2000; }
  if (c.lambda > 40) c.lambda = 40;
  Setup su;
  su.mk = g.pick<int>({0,1,2,2,3});
  int lam = c.lambda > 0 ? std::max(c.lambda,2) : 4+(int)std::floor(3*std::log((double)c.n));
  su.l = g.pick<int>({lam,2*lam,3*lam+1,lam-1,5*lam,g.range(2,6*lam)});
  if (su.l < 2) su.l = 2;
  su.nsteps = g.pick<int>({1,2,3,5,-1,g.range(1,12)});
  su.exploit = !g.chance(1,5);
  bool acm = g.flip();
  if (acm)
    {
      su.lp = g.pick<int>({0,1,2,lam/2,g.range(1,lam)});
      if (su.lp > lam) su.lp = lam;
      su.pl = g.pick<int>({0,8*lam,g.range(6*lam,20*lam)});
      if (c.family()) su.lp = std::min(su.lp,2);
    }
  ctx.label(acm ? "pre-selection" : "lifelength");
  if (!su.exploit) ctx.label("exploitation-off");
  static const char *mn[] = {"perfect","reversed","random","constant"};
  ctx.label(std::string("model-") + mn[su.mk]);
  labels(ctx,c);
  ctx.sample(std::string(acm ? "pre-selection" : "lifelength") + " model=" + mn[su.mk] + " l=" + std::to_string(su.l) + " nsteps=" + std::to_string(su.nsteps) + (su.exploit ? "" : " no-exploit") + (acm ? " lambdaprime=" + std::to_string(su.lp) + " prelambda=" + std::to_string(su.pl) : "") + " " + c.describe());
  bool again = su.exploit ? g.chance(1,3) : false, plain = !su.exploit && c.family() == 0 && !c.lazy;
  with_gp(c,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      std::vector<Call> a, b;
      auto go = [&](std::vector<Call> *out) { if (acm) scripted_acm<GP>(g,ctx,c,su,out); else scripted_simple<GP>(g,ctx,c,su,out); };
      go(&a);
      if (again)
	{
	  ctx.label("repeated");
	  go(&b);
	  ctx.check(a.size() == b.size(),"repeat",[&]{ return "two runs with the same seed make " + str(a.size()) + " and " + str(b.size()) + " evaluations"; });
	  for (size_t i=0;i<a.size();i++)
	    ctx.check(same(a[i].x,b[i].x),"repeat",[&]{ return "two runs with the same seed differ at evaluation " + str(i); });
	}
    });
}

static void exploit_off(Gen &g, Ctx &ctx)
{
  GOpt o; o.lin0 = false;
  o.maxdim = 6; o.mt = false; o.uh = true; o.edm = false; o.maxiter = 30;
  Cfg c = gen_cfg(g,o);
  c.elit = 0;
  c.crit.push_back({-14,false}); // replaced below
  c.crit.clear();
  bool acm = g.flip();
  if (g.chance(1,6)) { c.crit.push_back({FTARGET,false}); c.has_ft = true; c.ftarget = c.obj.shift; }
  if (c.has_ft) ctx.label("target");
  ctx.label(acm ? "off-pre-selection" : "off-lifelength");
  labels(ctx,c);
  ctx.sample(std::string("exploitation off, all options, ") + (acm ? "pre-selection " : "lifelength ") + c.describe());
  with_gp(c,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      CMASolutions sol;
      std::vector<Call> a;
      a = acm ? off_acm<GP>(ctx,c,sol) : off_simple<GP>(ctx,c,sol);
      Cfg pc = c;
      pc.crit.push_back({STAGNATION,false});
      if (!acm) pc.crit.push_back({AUTOMAXITER,false});
      Res r = run<GP>(pc,&ctx,nullptr,false);
      auto &b = r.calls();
      ctx.check(a.size() == b.size() && sol.run_status() == r.sol.run_status(),"off-count",[&]{ return "with exploitation off " + str(a.size()) + " evaluations (status " + str(sol.run_status()) + "), " + str(b.size()) + " in the plain search (status " + str(r.sol.run_status()) + ")"; });
      for (size_t i=0;i<a.size();i++)
	ctx.check(same(a[i].x,b[i].x),"off",[&]{ return "with exploitation off evaluation " + str(i) + " differs from that of the plain search"; });
      ctx.check(samebits(sol.best_candidate().get_fvalue(),r.sol.best_candidate().get_fvalue()),"off-best",[&]{ return "best values differ"; });
      ctx.nontrivial(b.size() > (size_t)2*c.n+3);
    });
}

// ---- ranking SVM --------------------------------------------------------------------------------------------
template <class K> void svm(Gen &g, Ctx &ctx, const char *kn, bool linear)
{
  int n = g.range(1,5), N = g.range(3,25);
  dVec w(n);
  for (int i=0;i<n;i++) w(i) = g.uniform(-1,1)+(g.flip() ? 1.5 : -1.5);
  std::vector<std::pair<double,dVec>> pts;
  double sc = g.pick<double>({1.0,1.0,10.0,0.1});
  for (int k=0;k<N;k++)
    {
      dVec x(n);
      if (linear) // spread along w
	{
	  for (int i=0;i<n;i++) x(i) = g.uniform(-1,1);
	  x += w*((k*0.2-x.dot(w))/w.squaredNorm());
	}
      else for (int i=0;i<n;i++) x(i) = g.uniform(-3,3);
      x *= sc;
      double f = linear ? w.dot(x) : (x-w).squaredNorm();
      pts.push_back({f,x});
    }
  std::sort(pts.begin(),pts.end(),[](auto &a, auto &b) { return a.first > b.first; }); // worst first
  double gap = INFINITY;
  for (int i=0;i<N;i++) for (int j=0;j<i;j++) gap = std::min(gap,(pts[i].second-pts[j].second).norm());
  dMat x(n,N);
  dVec f(N);
  for (int i=0;i<N;i++) { x.col(i) = pts[i].second; f(i) = pts[i].first; }
  ctx.label(std::string("svm-") + kn);
  ctx.sample(std::string("ranking SVM ") + kn + " points=" + std::to_string(N) + " dim=" + std::to_string(n));
  int niter = N*g.range(8000,20000);
  bool enc = g.chance(1,3), sep = g.flip();
  dVec mean(n);
  dMat cov = sep ? dMat::Zero(n,1) : dMat::Zero(n,n);
  for (int i=0;i<n;i++) { mean(i) = g.uniform(-1,1)*sc; cov(i,sep ? 0 : i) = g.uniform(0.5,2); }
  auto encode = [&](dVec y) { if (!enc) return y; y -= mean; if (sep) y = cov.col(0).cwiseProduct(y).eval(); else y = (cov*y).eval(); return y; };
  RankingSVM<K> un;
  { dMat a = x, b = x; ctx.check(un.error(a,b,f,cov,mean) == 1.0,"svm-untrained",[&]{ return "error of a model not yet trained"; }); }
  omp_set_dynamic(0);
  auto train = [&](int threads)
    {
      omp_set_num_threads(threads);
      RankingSVM<K> m;
      m._encode = enc;
      dMat a = x;
      m.train(a,niter,cov,mean);
      return m;
    };
  RankingSVM<K> m = train(1), m2 = train(4);
  omp_set_num_threads(1);
  ctx.check(same(m._alpha,m2._alpha),"svm-threads",[&]{ return "training depends on the number of threads: " + str(m._alpha) + " / " + str(m2._alpha); });
  ctx.check(m._alpha.size() == N-1 && m._alpha.allFinite(),"svm-alpha",[&]{ return "parameters " + str(m._alpha); });
  for (int i=0;i<N-1;i++)
    ctx.check(m._alpha(i) >= 0 && m._alpha(i) <= m._C(i)*(1+1e-12) && m._C(i) == m._Cval*std::pow(i+1.0,2),"svm-box",[&]{ return "parameter " + str(i) + " is " + str((double)m._alpha(i)) + ", limit " + str((double)m._C(i)); });
  dVec fit;
  dMat a = x, b = x;
  m.predict(fit,a,b,cov,mean);
  ctx.check(fit.size() == N,"svm-fit",[&]{ return "prediction of " + str((int)fit.size()) + " values"; });
  K kern;
  { dMat e(n,N); for (int i=0;i<N;i++) e.col(i) = encode(x.col(i)); kern.init(e); }
  double big = 0;
  for (int i=0;i<N;i++)
    {
      double e = 0, mag = 0;
      for (int j=0;j<N-1;j++) { double t = m._alpha(j)*(kern.K(encode(x.col(i)),encode(x.col(j)))-kern.K(encode(x.col(i)),encode(x.col(j+1)))); e += t; mag += m._alpha(j); }
      big = std::max(big,std::fabs(e));
      ctx.check(close(fit(i),e,1e-9,1e-9*mag),"svm-predict",[&]{ return "prediction " + str((double)fit(i)) + " instead of " + str(e); });
    }
  // error: 0 for the model's own order, 1 for the reverse of it, the share of discordant pairs in between.
  bool ties = false;
  for (int i=0;i<N;i++) for (int j=0;j<i;j++) if (fit(i) == fit(j)) ties = true;
  auto err = [&](const dVec &ref) { dMat a2 = x, b2 = x; return m.error(a2,b2,ref,cov,mean); };
  dVec rev = -fit;
  if (!ties)
    {
      ctx.check(err(fit) == 0,"svm-error0",[&]{ return "error " + str(err(fit)) + " for the order of the model"; });
      ctx.check(close(err(rev),1.0,1e-12),"svm-error1",[&]{ return "error " + str(err(rev)) + " for the reverse of the order of the model"; });
      double disc = 0;
      for (int i=0;i<N;i++) for (int j=0;j<i;j++) if ((fit(i)-fit(j))*(f(i)-f(j)) < 0) disc++;
      ctx.check(close(err(f),disc/(0.5*N*(N-1)),1e-12),"svm-error",[&]{ return "error " + str(err(f)) + " instead of " + str(disc/(0.5*N*(N-1))); });
    }
  double e = err(f);
  ctx.check(e >= 0 && e <= 1,"svm-range",[&]{ return "error " + str(e); });
  if (gap > 0.1*sc)
    {
      ctx.label("svm-separable");
      double lim = 0.1;
      ctx.check(e <= lim,"svm-rank",[&]{ return "error " + str(e) + " on separable training data, points=" + str(N) + " dim=" + str(n) + " iterations " + str(niter) + (enc ? " encoded" : ""); });
    }
  ctx.nontrivial(N > 4);
}

// the ranking SVM within a search: predictions are those of a model trained on the training set.
template <class S> struct Probe : public S
{
  template <class P> Probe(FitFunc &f, P &p) : S(f,p) {}
  CSurrFunc &tr() { return this->_train; }
  SurrFunc &pr() { return this->_predict; }
  std::vector<Candidate> &ts() { return this->_tset; }
};

template <class TCov> void rsvm(Gen &g, Ctx &ctx, const Cfg &c)
{
  std::vector<Call> first;
  int l = g.range(4,30), iter = g.range(100,3000), lam;
  bool exploit = !g.chance(1,5);
  ctx.sample("ranking SVM search l=" + std::to_string(l) + " iterations=" + std::to_string(iter) + (exploit ? "" : " no-exploit") + " " + c.describe());
  for (int rep=0;rep<2;rep++)
    {
      auto rec = std::make_shared<Rec>();
      FitFunc f = recfunc(c,rec,&ctx);
      CMAParameters<GP0> p = make_params<GP0>(c);
      if (c.sep()) p.set_sep();
      if (c.vd()) p.set_vd();
      lam = p.lambda();
      ESOptimizer<Probe<RSVMSurrogateStrategy<CMAStrategy,TCov,GP0>>,CMAParameters<GP0>> opt(f,p);
      opt.set_l(l);
      opt._rsvm_iter = iter;
      opt.set_exploit(exploit);
      CSurrFunc tr = opt.tr();
      SurrFunc pr = opt.pr();
      RankingSVM<RBFKernel> ref;
      dMat xt, rcov;
      bool trained = false;
      int npred = 0;
      opt.set_ftrain([&](const Cands &cs, const dMat &cov)
	{
	  Cands cp = cs;
	  dVec fv;
	  to_mat_vec(cp,xt,fv,true);
	  for (int i=1;i<fv.size();i++) ctx.check(fv(i) <= fv(i-1),"rsvm-order",[&]{ return "training data are not ordered"; });
	  dMat a = xt;
	  ref = RankingSVM<RBFKernel>();
	  ref._encode = true;
	  ref.train(a,iter,cov,opt.get_solutions().xmean());
	  rcov = cov;
	  trained = true;
	  return tr(cs,cov);
	});
      opt.set_fpredict([&](Cands &cs, const dMat &cov)
	{
	  Cands cp = cs;
	  int r = pr(cs,cov);
	  if (!trained) return r;
	  dMat a(c.n,cp.size()), b = xt;
	  for (size_t i=0;i<cp.size();i++) a.col(i) = cp[i].get_x_dvec();
	  dVec fit;
	  ref.predict(fit,a,b,cov,opt.get_solutions().xmean());
	  double mag = ref._alpha.sum();
	  for (size_t i=0;i<cp.size();i++)
	    ctx.check(close(fit(i),cs[i].get_fvalue(),1e-9,1e-9*mag) || !std::isfinite(fit(i)),"rsvm-predict",[&]{ return "prediction " + str(cs[i].get_fvalue()) + " instead of " + str((double)fit(i)) + " of the model as trained"; });
	  npred++;
	  return r;
	});
      ProgressFunc<CMAParameters<GP0>,CMASolutions> pf = [&](const CMAParameters<GP0>&, const CMASolutions &s)
	{
	  ctx.check(s.fevals() == (int)rec->calls.size(),"rsvm-fevals",[&]{ return "wrong number of evaluations"; });
	  double te = opt.get_test_error(), tre = opt.get_train_error();
	  ctx.check(te >= 0 && te <= 1 && tre >= 0 && tre <= 1,"rsvm-error",[&]{ return "errors " + str(tre) + " " + str(te); });
	  if (s.niter())
	    {
	      dv y = tov(s.best_candidate().get_x_dvec());
	      bool ok = false;
	      for (auto &k : rec->calls) if (same(k.x,y) && samebits((c.maxi ? -1 : 1)*k.f,s.best_candidate().get_fvalue())) ok = true;
	      ctx.check(ok,"rsvm-best",[&]{ return "best candidate is not an evaluated point with its value"; });
	    }
	  return 0;
	};
      opt.set_progress_func(pf);
      opt.optimize();
      if (rep == 0) first = rec->calls;
      else
	{
	  ctx.check(first.size() == rec->calls.size(),"rsvm-repeat",[&]{ return "two runs with the same seed differ"; });
	  for (size_t i=0;i<first.size();i++) ctx.check(same(first[i].x,rec->calls[i].x),"rsvm-repeat",[&]{ return "two runs with the same seed differ at evaluation " + str(i); });
	}
      ctx.nontrivial(npred > 1);
    }
}

static void prop(Gen &g, Ctx &ctx)
{
  int k = g.draw(9);
  if (k <= 4) scripted(g,ctx);
  else if (k <= 6) exploit_off(g,ctx);
  else if (k == 7) { if (g.flip()) svm<LinearKernel>(g,ctx,"linear",true); else svm<RBFKernel>(g,ctx,"rbf",g.flip()); }
  else
    {
      GOpt o; o.lin0 = false;
      o.gpts = {0}; o.algos = {0,3,6,9,12}; o.mindim = 2; o.maxdim = 5; o.custom = false; o.mt = false; o.grad = false; o.edm = false; o.elit = false; o.tpa = false; o.initf = false; o.maxiter = 12; o.big = false;
      o.kinds = {O_SPHERE,O_ELLI,O_LIN,O_ROSEN};
      Cfg c = gen_cfg(g,o);
      if (c.lambda > 14) c.lambda = 14;
      ctx.label("svm-search");
      labels(ctx,c);
      if (c.vd()) rsvm<VDCMAUpdate>(g,ctx,c); else if (c.active()) rsvm<ACovarianceUpdate>(g,ctx,c); else rsvm<CovarianceUpdate>(g,ctx,c);
    }
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C16","A case is one of: a search with either surrogate strategy (all algorithm families, restarts, bounds, scaling) and a scripted model (perfect, reversed, random, constant) recording each training set, prediction request, error and evaluation, compared each iteration with the schedule, the true values of the evaluated points and exact ranking errors; the same search with exploitation off and any option against the plain search; the ranking SVM on generated separable data against its defining formulas; a search with the ranking SVM against a reference model trained on the same data. Non-trivial: the model was used (or trained, when exploitation is off).",prop,4000,100000000,120});
}
