// C20: random programs of API calls, under the address and undefined-behaviour sanitizers and Eigen's assertions, with
// fresh heap and stack memory filled with a poison (heap doubles are NaN, bools invalid): what uninitialised memory decides shows.
#include "common.hpp"
#include <libcmaes/errstats.h>
#include <sys/stat.h>
#include <dirent.h>

extern "C" const char *__asan_default_options()
{
  return "max_malloc_fill_size=1000000000:malloc_fill_byte=255:detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=0:abort_on_error=0:exitcode=77";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1"; }

template <class GP> struct Slot { Cfg c; CMAParameters<GP> p; CMASolutions s; }; // with the parameters it was found with

template <class GP> struct Prog
{
  Gen &g; Ctx &ctx;
  std::string tmp;
  int n, gpt;
  Cfg base;
  std::vector<Cfg> cs;
  std::vector<CMAParameters<GP>> ps;
  std::vector<Slot<GP>> ss;
  std::string log;
  int runs = 0, ops = 0, iters = 0;
  bool thr; // objective that is infinite in a part of the space

  void note(const std::string &s) { log += " " + s; ctx.sample("dim=" + std::to_string(n) + " transform=" + std::to_string(gpt) + (thr ? " partly-infinite:" : ":") + log); }

  FitFunc func(const Cfg &c, bool fin=true)
  {
    Obj o = c.obj;
    int dim = n;
    bool t = thr, nog = thr && c.grad; // infinite differences have no gradient
    Ctx *cx = &ctx;
    return [o,dim,t,cx,fin,nog](const double *x, const int &k)
      {
	if (k != dim) cx->fail("dim","objective called with dimension " + std::to_string(k));
	for (int i=0;i<k && fin && !nog;i++) if (std::isnan(x[i])) cx->fail("nan","objective called with NaN");
	if (t && x[0] > 1.7) return std::numeric_limits<double>::infinity();
	return o(x,k);
      };
  }
  GradFunc grad(const Cfg &c)
  {
    Obj o = c.obj;
    bool mx = c.maxi;
    return [o,mx](const double *x, const int &k) { dVec v = o.grad(x,k); if (mx) v = -v; return v; };
  }
  // within the domain of the parameters.
  void valid(Cfg &c, CMAParameters<GP> &p)
  {
    if (c.max_iter < 1 || c.max_iter > 25) { c.max_iter = 12; p.set_max_iter(12); }
    if (c.family()) { c.restarts = std::min(std::max(c.restarts,1),3); p.set_restarts(c.restarts); }
    if (c.elit == 3) { if (c.family()) { c.elit = 0; p.set_elitism(0); } else { c.max_fev = 600; p.set_max_fevals(600); } }
    if (c.grad && c.tpa == 2 && p.lambda() < 4) { c.grad = false; p.set_gradient(false); }
    if (c.elit && c.tpa == 2 && p.lambda() < 4) { c.elit = 0; p.set_elitism(0); }
    omp_set_dynamic(0); omp_set_num_threads(c.mt ? 3 : 1);
  }
  Cfg newcfg()
  {
    GOpt o;
    o.algos = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14};
    o.uh = true; o.noisy = true; o.maxiter = 12; o.gpts = {gpt}; o.big = false;
    Cfg c = gen_cfg(g,o);
    Cfg b = base;
    b.algo = c.algo; if (b.vd() && n < 6) b.algo = 3;
    b.lambda = c.lambda; b.seed = c.seed; b.mt = c.mt; b.threads = 3; b.uh = c.uh; b.edm = c.edm; b.maxi = c.maxi; b.lazy = c.lazy; b.initf = c.initf; b.tpa = c.tpa; b.elit = c.elit; b.noisy = c.noisy;
    b.grad = c.grad; b.ugrad = c.grad && b.obj.smooth() && g.flip();
    b.max_iter = c.max_iter; b.max_fev = c.max_fev;
    if (b.lambda > 30) b.lambda = 30;
    b.restarts = g.range(1,3);
    if (!c.family() && b.lambda > 12) b.noisy = false;
    return b;
  }
  void add_params()
  {
    Cfg c = newcfg();
    if (g.chance(1,12)) c.lambda = g.pick<int>({0,1,-5});
    switch (g.draw(3))
      {
      case 0: { CMAParameters<GP> p(c.x0,c.sigma,c.lambda,c.seed,make_gp<GP>(c)); apply(p,c); ps.push_back(p); note("new"); break; }
      case 1: { CMAParameters<GP> p(c.n,&c.x0[0],c.sigma,c.lambda,c.seed,make_gp<GP>(c)); apply(p,c); ps.push_back(p); note("new(pointer)"); break; }
      case 2:
	{
	  if (gpt == 2) // per-parameter step-sizes are for the scaling without bounds
	    {
	      dv sg(c.n);
	      for (double &v : sg) v = g.uniform(0.2,2.0);
	      dv lo(c.n,0.0), hi(c.n,0.0);
	      for (int i=0;i<c.n;i++) { lo[i] = c.lb[i]; hi[i] = c.ub[i]; }
	      CMAParameters<GP> p(c.x0,sg,c.lambda,lo,hi,c.seed);
	      apply(p,c); ps.push_back(p); note("new(sigmas)"); break;
	    }
	}
	// fall through
      default: { CMAParameters<GP> p(c.x0,-1.0,c.lambda,c.seed,make_gp<GP>(c)); apply(p,c); ps.push_back(p); note("new(default sigma)"); break; }
      }
    cs.push_back(c);
    note("{" + std::string(1,'a'+c.algo) + " l=" + std::to_string(c.lambda) + (c.mt ? " mt" : "") + (c.uh ? " uh" : "") + (c.grad ? " grad" : "") + (c.edm ? " edm" : "") + (c.maxi ? " max" : "") + (c.lazy ? " lazy" : "") + " tpa=" + std::to_string(c.tpa) + " elit=" + std::to_string(c.elit) + (c.noisy ? " noisy" : "") + " iter=" + std::to_string(c.max_iter) + "}");
  }
  int pick() { return g.draw(ps.size()-1); }
  void setter()
  {
    int k = pick();
    CMAParameters<GP> &p = ps[k];
    Cfg &c = cs[k];
    switch (g.draw(19))
      {
      case 0: { int a = g.draw(14); if (a >= 12 && n < 6) a = 9; c.algo = a; p.set_algo(a); note("algo(" + std::to_string(a) + ")"); break; }
      case 1: c.mt = g.flip(); p.set_mt_feval(c.mt); note("mt"); break;
      case 2: c.uh = g.flip(); p.set_uh(c.uh); note("uh"); break;
      case 3: c.grad = g.flip(); p.set_gradient(c.grad); note("gradient"); break;
      case 4: c.edm = g.flip(); p.set_edm(c.edm); note("edm"); break;
      case 5: c.maxi = g.flip(); p.set_maximize(c.maxi); note("maximize"); break;
      case 6: c.tpa = g.draw(2); p.set_tpa(c.tpa); note("tpa(" + std::to_string(c.tpa) + ")"); break;
      case 7: c.elit = g.draw(3); p.set_elitism(c.elit); note("elitism(" + std::to_string(c.elit) + ")"); break;
      case 8: if (p.lambda() <= 12) { c.noisy = true; p.set_noisy(); note("noisy"); } break;
      case 9:
	if ((int)c.fixed.size() < n-1) { int i = g.draw(n-1); double v = gpt ? c.lb[i]+(c.ub[i]-c.lb[i])*g.uniform(0.3,0.7) : g.uniform(-1,1); c.fixed[i] = v; p.set_fixed_p(i,v); note("fix(" + std::to_string(i) + ")"); }
	break;
      case 10: { int i = g.draw(n-1); c.fixed.erase(i); p.unset_fixed_p(i); note("unfix(" + std::to_string(i) + ")"); break; }
      case 11: p.set_stopping_criteria(g.draw(14),g.flip()); note("criterion"); break;
      case 12: p.set_max_hist(g.range(1,40)); note("hist"); break;
      case 13: c.initf = g.flip(); p.set_initial_fvalue(c.initf); note("initial-value"); break;
      case 14: c.restarts = g.range(1,3); p.set_restarts(c.restarts); note("restarts"); break;
      case 15: c.lazy = g.flip(); p.set_lazy_update(c.lazy); note("lazy"); break;
      case 16: p.set_seed(g.draw(3)); note("seed"); break;
      case 17:
	{
	  dv a(n), b(n);
	  for (int i=0;i<n;i++) { double l = gpt ? c.lb[i] : -1, u = gpt ? c.ub[i] : 1; a[i] = l+(u-l)*g.uniform(0.1,0.5); b[i] = a[i]+(u-l)*g.uniform(0,0.4); }
	  switch (g.draw(4))
	    {
	    case 0: p.set_x0(a[0]); break;
	    case 1: p.set_x0(&a[0]); break;
	    case 2: p.set_x0(toe(a),toe(b)); break;
	    case 3: p.set_x0(a,b); break;
	    default: p.set_x0(&a[0],&b[0]); break;
	    }
	  note("x0");
	  break;
	}
      case 18: { c.max_fev = g.range(1,400); p.set_max_fevals(c.max_fev); note("fevals"); break; }
      default: { std::string f = tmp + "/p" + std::to_string(g.draw(1)); if (g.flip()) f = ""; p.set_fplot(f); p.set_full_fplot(g.flip()); note("fplot"); break; }
      }
  }
  void store(int k, const CMAParameters<GP> &p, const CMASolutions &s)
  {
    iters += s.niter();
    if (ss.size() < 4) ss.push_back(Slot<GP>{cs[k],p,s});
    else ss[g.draw(3)] = Slot<GP>{cs[k],p,s};
  }
  void run_it()
  {
    int k = pick();
    valid(cs[k],ps[k]);
    FitFunc f = func(cs[k]);
    int stop_at = g.chance(1,4) ? (int)g.draw(3) : -1;
    ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP>&, const CMASolutions &s) { return s.niter() == stop_at ? 1 : 0; };
    PlotFunc<CMAParameters<GP>,CMASolutions> pl = [](const CMAParameters<GP>&, const CMASolutions &s, std::ofstream &o) { o << s.niter() << "\n"; return 0; };
    bool own = g.chance(1,4);
    note("run(" + std::to_string(k) + (stop_at >= 0 ? " stop@" + std::to_string(stop_at) : "") + ")");
    GradFunc gf = cs[k].ugrad ? grad(cs[k]) : nullptr;
    CMASolutions from;
    if (!ss.empty() && g.chance(1,3)) { from = ss[g.draw(ss.size()-1)].s; note("from"); if (!from.xmean().allFinite() || !std::isfinite(from.sigma()) || !(from.sigma() > 0)) from = CMASolutions(); }
    CMASolutions s = cmaes<GP>(f,ps[k],stop_at >= 0 || g.flip() ? pf : CMAStrategy<CovarianceUpdate,GP>::_defaultPFunc,gf,from,own ? pl : CMAStrategy<CovarianceUpdate,GP>::_defaultFPFunc);
    store(k,ps[k],s);
    runs++;
  }
  template <class Upd> void manual_t(int k)
  {
    CMAParameters<GP> p = ps[k];
    if (cs[k].sep()) p.set_sep();
    if (cs[k].vd()) p.set_vd();
    FitFunc f = func(cs[k]);
    typedef ESOptimizer<CMAStrategy<Upd,GP>,CMAParameters<GP>,CMASolutions> Opt;
    std::unique_ptr<Opt> opt(new Opt(f,p));
    if (cs[k].ugrad) { GradFunc gf = grad(cs[k]); opt->set_gradient_func(gf); }
    int it = g.range(0,8);
    for (int i=0;i<it && !opt->stop();i++)
      {
	dMat x = opt->ask();
	if (g.chance(1,5)) x = opt->ask();
	if (g.chance(1,3))
	  {
	    dMat ph = p.get_gp().pheno(x);
	    for (int r=0;r<x.cols();r++)
	      {
		dVec pc = ph.col(r);
		double v = f(pc.data(),n);
		if (cs[k].maxi) v = -v;
		opt->get_solutions().get_candidate(r).set_x(x.col(r));
		opt->get_solutions().get_candidate(r).set_fvalue(v);
	      }
	    opt->update_fevals(x.cols());
	    if (cs[k].uh) opt->eval(x,ph);
	  }
	else opt->eval(x,p.get_gp().pheno(x));
	opt->tell();
	opt->inc_iter();
	if (g.chance(1,4)) query(opt->get_solutions(),p);
      }
    if (g.chance(1,4)) opt->edm();
    CMASolutions s = opt->get_solutions();
    opt.reset();
    store(k,p,s);
    runs++;
  }
  void manual()
  {
    int k = pick();
    valid(cs[k],ps[k]);
    if (cs[k].elit) return; // needs the initial value that optimize() sets up
    note("manual(" + std::to_string(k) + ")");
    if (cs[k].vd()) manual_t<VDCMAUpdate>(k);
    else if (cs[k].active()) manual_t<ACovarianceUpdate>(k);
    else manual_t<CovarianceUpdate>(k);
  }
  double sink = 0;
  void query(const CMASolutions &s, const CMAParameters<GP> &p)
  {
    sink += s.best_candidate().get_fvalue()+s.get_best_seen_candidate().get_fvalue()+s.get_worst_seen_candidate().get_fvalue();
    for (int i=0;i<s.size();i++) sink += s.get_candidate(i).get_fvalue();
    sink += s.cov().sum()+s.full_cov().sum()+s.sepcov().sum()+s.csqinv().sum()+s.sepcsqinv().sum()+s.corr().sum();
    sink += s.stds(p).sum()+s.errors(p).sum()+s.sigma()+s.xmean().sum()+s.edm()+s.min_eigenv()+s.max_eigenv()+s.eigenvalues().sum()+s.eigenvectors().sum();
    for (int i=0;i<n;i++) for (int j=0;j<n;j++) sink += s.corr(i,j);
    sink += s.run_status()+s.elapsed_time()+s.elapsed_last_iter()+s.niter()+s.nevals()+s.fevals()+s.dim()+(s.updated_eigen() ? 1 : 0);
    if (s.cov().size()) sink += s.cov_data()[0]+s.cov_ref()(0,0);
    if (s.sepcov().size()) sink += s.sepcov_data()[0]+s.sepcov_ref()(0,0);
    std::ostringstream o;
    o << s << s.status_msg();
    s.print(o,g.flip(),p.get_gp());
    sink += o.str().size();
    CMASolutions t(s);
    t.candidates();
    CMASolutions u;
    u = t;
    t.sort_candidates();
    sink += u.sigma();
  }
  void query_it()
  {
    if (ss.empty()) return;
    int k = g.draw(ss.size()-1);
    note("query(" + std::to_string(k) + ")");
    query(ss[k].s,ss[k].p);
  }
  void profile()
  {
    if (ss.empty()) return;
    int k = g.draw(ss.size()-1);
    Cfg c = ss[k].c;
    CMASolutions &s = ss[k].s;
    // a converged solution is not needed, but a sane one.
    if (s.niter() < 1 || !s.xmean().allFinite() || !(s.sigma() > 1e-6 && s.sigma() < 1e3) || s.dim() != n || thr || c.vd()) return;
    if (!(s.full_cov().diagonal().minCoeff() > 1e-6)) return;
    CMAParameters<GP> p = ss[k].p;
    p.set_elitism(0); p.set_uh(false); p.set_max_iter(6); p.set_restarts(1); p.set_mt_feval(false); p.set_fplot("");
    FitFunc f = func(c,false); // around a point that is no minimum the levels need not exist
    int d = g.draw(n-1);
    int ss0 = g.range(1,4);
    double fup = g.uniform(0.05,1.0);
    note("profile(" + std::to_string(d) + ")");
    pli l = errstats<GP>::profile_likelihood(f,p,s,d,g.flip(),ss0,fup,0.1,12);
    std::ostringstream o;
    sink += l.get_min()+l.get_max();
    for (auto &e : { l.get_fvaluem() }) sink += e.sum();
    pli got;
    if (s.get_pli(d,got)) sink += got.get_min();
    if (n > 1 && g.chance(1,2))
      {
	int e = (d+1+g.draw(n-2)) % n;
	note("contour(" + std::to_string(d) + "," + std::to_string(e) + ")");
	contour ct = errstats<GP>::contour_points(f,d,e,g.range(4,6),fup,p,s,0.1,12);
	o << ct;
      }
    o << s;
    sink += o.str().size();
  }
  void gp()
  {
    int k = pick();
    GP q = ps[k].get_gp();
    GP r(q);
    q = r;
    dVec x = toe(cs[k].x0);
    dMat m(n,3);
    for (int j=0;j<3;j++) m.col(j) = x*(1.0+0.01*j);
    sink += r.pheno(x).sum()+r.geno(x).sum()+r.pheno(m).sum();
    ps[k].set_gp(r);
    note("transform");
  }
  void go()
  {
    add_params();
    int k = g.range(2,g.size() > 1 ? 25 : 14);
    for (int i=0;i<k;i++,ops++)
      switch (g.draw(11))
	{
	case 0: case 1: case 2: run_it(); break;
	case 3: case 4: setter(); setter(); break;
	case 5: setter(); break;
	case 6: manual(); break;
	case 7: query_it(); break;
	case 8: profile(); break;
	case 9: if (ps.size() < 4) add_params(); break;
	case 10: { int a = pick(), b = pick(); CMAParameters<GP> q(ps[a]); ps[b] = q; cs[b] = cs[a]; note("copy"); break; }
	default: gp(); break;
	}
    run_it();
    query_it();
    volatile double v = sink; (void)v;
  }
};

static void prop(Gen &g, Ctx &ctx)
{
  const char *t = getenv("VERIF_TMP");
  std::string tmp = std::string(t ? t : "/tmp") + "/c20." + std::to_string(getpid());
  if (mkdir(tmp.c_str(),0700)) ctx.discard();
  GOpt o;
  o.algos = {0}; o.gpts = {0,1,2,3}; o.big = false; o.maxdim = 5;
  if (g.chance(1,3)) { o.mindim = 6; o.maxdim = 8; }
  Cfg base = gen_cfg(g,o);
  base.grad = base.edm = base.maxi = base.mt = base.lazy = base.initf = false; base.tpa = -1; base.elit = 0; base.max_fev = -1;
  bool thr = g.chance(1,10);
  ctx.label("transform=" + std::to_string(base.gpt));
  with_gp(base,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      Prog<GP> p{g,ctx,tmp,base.n,base.gpt,base,{},{},{},"",0,0,0,thr};
      p.go();
      ctx.nontrivial(p.runs >= 2 && p.iters >= 4);
      ctx.label("runs=" + std::to_string(std::min(p.runs,8)));
      for (const char *w : {"profile(","contour(","manual(","from","fplot","noisy","fix(","query(","copy"}) if (p.log.find(w) != std::string::npos) ctx.label(w);
    });
  unlink((tmp + "/p0").c_str());
  unlink((tmp + "/p1").c_str());
  rmdir(tmp.c_str());
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C20","A case is a random program of API calls: parameter objects built by every constructor, copied and changed by every setter, searches by the 15 algorithms (also from previous solutions, ended by the progress function, writing output files), manual loops, queries of every accessor, printing, profile likelihoods and contours, under the address and undefined-behaviour sanitizers, Eigen's assertions and memory poisoning. Non-trivial: at least two searches with at least four iterations in all.",prop,3000,100000000,120});
}
