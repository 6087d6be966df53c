// C14: settings take effect as written: last write wins, no setting disturbs another, names match codes.
#include "common.hpp"
#include <sys/stat.h>

static const char *names[] = {"cmaes","ipop","bipop","acmaes","aipop","abipop","sepcmaes","sepipop","sepbipop","sepacmaes","sepaipop","sepabipop","vdcma","vdipopcma","vdbipopcma"};

struct Model : Cfg
{
  double tpads = -1;
  int hist = -1;
  bool fp = false;
  std::string plot;
  bool sigauto = false;
  dv xmin, xmax;
};

template <class GP> void getters(Ctx &ctx, CMAParameters<GP> &p, const Model &m, const std::string &at)
{
  auto ck = [&](bool b, const char *what, const std::string &got, const std::string &want)
    {
      ctx.check(b,std::string("get-") + what,[&]{ return at + what + " is " + got + " instead of " + want; });
    };
  ck(p.dim() == m.n,"dim",str(p.dim()),str(m.n));
  int l = m.lambda >= 2 ? m.lambda : 4+(int)std::floor(3*std::log((double)m.n));
  if (m.noisy) l *= 5;
  ck(p.lambda() == l,"lambda",str(p.lambda()),str(l));
  if (m.seed) ck(p.get_seed() == (int)m.seed,"seed",str(p.get_seed()),std::to_string(m.seed));
  else ck(p.get_seed() != 0,"seed",str(p.get_seed()),"a fresh one");
  ck(samebits(p.get_sigma_init(),m.sigma),"sigma",str(p.get_sigma_init()),str(m.sigma));
  ck(p.get_algo() == m.algo,"algo",str(p.get_algo()),str(m.algo));
  if (p.is_sep()) ck(m.sep(),"sep","on","off");
  if (p.is_vd()) ck(m.vd(),"vd","on","off");
  ck(p.get_max_iter() == m.max_iter,"max-iter",str(p.get_max_iter()),str(m.max_iter));
  ck(p.get_max_fevals() == m.max_fev,"max-fevals",str(p.get_max_fevals()),str(m.max_fev));
  double ft = m.has_ft ? m.ftarget : -std::numeric_limits<double>::infinity();
  ck(p.get_ftarget() == ft,"ftarget",str(p.get_ftarget()),str(ft));
  ck(p.get_ftolerance() == (m.ftol >= 0 ? m.ftol : 1e-12),"ftolerance",str(p.get_ftolerance()),str(m.ftol));
  ck(p.get_xtolerance() == (m.xtol >= 0 ? m.xtol : 1e-12),"xtolerance",str(p.get_xtolerance()),str(m.xtol));
  ck(p.quiet() == m.quiet,"quiet",str((int)p.quiet()),str((int)m.quiet));
  ck(p.get_fplot() == m.plot,"fplot",p.get_fplot(),m.plot);
  ck(p.get_gradient() == m.grad,"gradient",str((int)p.get_gradient()),str((int)m.grad));
  ck(p.get_edm() == m.edm,"edm",str((int)p.get_edm()),str((int)m.edm));
  ck(p.get_mt_feval() == m.mt,"mt",str((int)p.get_mt_feval()),str((int)m.mt));
  ck(p.get_maximize() == m.maxi,"maximize",str((int)p.get_maximize()),str((int)m.maxi));
  ck(p.get_uh() == m.uh,"uh",str((int)p.get_uh()),str((int)m.uh));
  ck(p.get_tpa() == (m.tpa >= 0 ? m.tpa : 1),"tpa",str(p.get_tpa()),str(m.tpa));
  ck(p.get_restarts() == (m.restarts >= 0 ? m.restarts : 9),"restarts",str(p.get_restarts()),str(m.restarts));
  ck(p.get_lazy_update() == m.lazy,"lazy",str((int)p.get_lazy_update()),str((int)m.lazy));
  ck(same(p.get_x0min(),toe(m.xmin)),"x0min",str(p.get_x0min()),str(m.xmin));
  ck(same(p.get_x0max(),toe(m.xmax)),"x0max",str(p.get_x0max()),str(m.xmax));
}

// one random setter call, on the object and on the model.
template <class GP> std::string op(Gen &g, CMAParameters<GP> &p, Model &m, const std::string &tmp)
{
  std::ostringstream o;
  switch (g.draw(27))
    {
    case 0: { int v = g.range(1,60); p.set_max_iter(v); m.max_iter = v; o << "max_iter(" << v << ")"; break; }
    case 1: { int v = g.chance(1,4) ? -1 : g.range(20,900); p.set_max_fevals(v); m.max_fev = v; o << "max_fevals(" << v << ")"; break; }
    case 2: { double v = g.uniform(-5,50); p.set_ftarget(v); m.has_ft = true; m.ftarget = v; o << "ftarget(" << v << ")"; break; }
    case 3: p.reset_ftarget(); m.has_ft = false; o << "reset_ftarget"; break;
    case 4: { int v = g.chance(1,8) ? 0 : g.range(1,1000000); p.set_seed(v); m.seed = v; o << "seed(" << v << ")"; break; }
    case 5: { double v = g.logu(1e-12,1); p.set_ftolerance(v); m.ftol = v; o << "ftolerance(" << v << ")"; break; }
    case 6: { double v = g.logu(1e-12,1); p.set_xtolerance(v); m.xtol = v; o << "xtolerance(" << v << ")"; break; }
    case 7: { int v = m.n >= 6 ? g.range(0,14) : g.range(0,11); p.set_algo(v); m.algo = v; o << "algo(" << v << ")"; break; }
    case 8: { int v = m.n >= 6 ? g.range(0,14) : g.range(0,11); p.set_str_algo(names[v]); m.algo = v; o << "str_algo(" << names[v] << ")"; break; }
    case 9: { bool v = g.flip(); p.set_gradient(v); m.grad = v; o << "gradient(" << v << ")"; break; }
    case 10: { bool v = g.flip(); p.set_edm(v); m.edm = v; o << "edm(" << v << ")"; break; }
    case 11: { bool v = g.flip(); p.set_mt_feval(v); m.mt = v; o << "mt_feval(" << v << ")"; break; }
    case 12: { bool v = g.flip(); p.set_maximize(v); m.maxi = v; o << "maximize(" << v << ")"; break; }
    case 13: { bool v = g.flip(); p.set_uh(v); m.uh = v; o << "uh(" << v << ")"; break; }
    case 14: { int v = g.range(0,2); p.set_tpa(v); m.tpa = v; m.tpads = -1; o << "tpa(" << v << ")"; break; }
    case 15: { double v = g.uniform(0.5,5); p.set_tpa_dsigma(v); m.tpads = v; o << "tpa_dsigma(" << v << ")"; break; }
    case 16: { int v = g.range(1,4); p.set_restarts(v); m.restarts = v; o << "restarts(" << v << ")"; break; }
    case 17: { bool v = g.flip(); p.set_lazy_update(v); m.lazy = v; o << "lazy_update(" << v << ")"; break; }
    case 18: { int v = g.range(0,3); p.set_elitism(v); m.elit = v; o << "elitism(" << v << ")"; break; }
    case 19:
      {
	int k = g.pick<int>({TOLHISTFUN,TOLX,STAGNATION,EQUALFUNVALS,AUTOMAXITER,FTARGET,MAXFEVALS,CONDITIONCOV,TOLUPSIGMA,NOEFFECTAXIS,NOEFFECTCOOR});
	bool v = g.flip();
	p.set_stopping_criteria(k,v);
	for (auto it=m.crit.begin();it!=m.crit.end();) it = it->first == k ? m.crit.erase(it) : it+1;
	m.crit.push_back({k,v});
	o << "stopping_criteria(" << k << "," << v << ")";
	break;
      }
    case 20: { int v = g.range(1,40); p.set_max_hist(v); m.max_hist = v; o << "max_hist(" << v << ")"; break; }
    case 21: { bool v = g.flip(); p.set_initial_fvalue(v); m.initf = v; o << "initial_fvalue(" << v << ")"; break; }
    case 22:
      {
	if (m.n < 2) { o << "-"; break; }
	int k = g.draw(m.n-2); // the last one is never frozen
	double v = g.uniform(-1,1);
	p.set_fixed_p(k,v); m.fixed[k] = v; o << "fixed_p(" << k << "," << v << ")";
	break;
      }
    case 23: { int k = g.draw(m.n-1); p.unset_fixed_p(k); m.fixed.erase(k); o << "unset_fixed_p(" << k << ")"; break; }
    case 24: p.set_noisy(); m.noisy = true; o << "noisy"; break;
    case 25: { m.quiet = true; p.set_quiet(true); o << "quiet"; break; }
    case 26:
      {
	std::string v = g.flip() ? "" : tmp + "/c14.dat";
	p.set_fplot(v); m.plot = v; o << "fplot(" << (v.empty() ? 0 : 1) << ")";
	break;
      }
    default:
      {
	dv x(m.n);
	double s = g.uniform(-2,2);
	for (double &v : x) v = g.uniform(-2,2);
	switch (g.draw(2))
	  {
	  case 0: p.set_x0(s); m.x0 = dv(m.n,s); o << "x0(" << s << ")"; break;
	  case 1: p.set_x0(&x[0]); m.x0 = x; o << "x0" << str(x); break;
	  default: p.set_x0(toe(x)); m.x0 = x; o << "x0(eigen" << str(x) << ")"; break;
	  }
	m.xmin = m.xmax = m.x0;
      }
    }
  return o.str();
}

template <class GP> void body(Gen &g, Ctx &ctx, Model m, int nops, const std::string &tmp)
{
  std::string log;
  CMAParameters<GP> p = g.flip() ? CMAParameters<GP>(m.x0,m.sigma,m.lambda,m.seed,make_gp<GP>(m)) : CMAParameters<GP>(m.n,&m.x0[0],m.sigma,m.lambda,m.seed,make_gp<GP>(m));
  m.max_iter = -1;
  m.xmin = m.xmax = m.x0;
  getters(ctx,p,m,"after construction: ");
  int changes = 0, old = p.get_seed();
  std::map<std::string,int> kinds;
  for (int i=0;i<nops;i++)
    {
      std::string s = op(g,p,m,tmp);
      log += " " + s;
      ++kinds[s.substr(0,s.find('('))];
      getters(ctx,p,m,"after" + log + ": ");
      if (s == "seed(0)" && old == p.get_seed() && old > 0 && old < 1000001)
	ctx.fail("seed-zero","seed 0 kept the seed " + str(old));
      old = p.get_seed();
      ++changes;
      if (g.chance(1,12)) { CMAParameters<GP> q(p); p = q; log += " copy"; }
    }
  ctx.sample("dim=" + std::to_string(m.n) + " lambda=" + std::to_string(m.lambda) + " transform=" + std::to_string(m.gpt) + ":" + log);
  // the run follows the last settings, whatever the way to them.
  if (m.max_iter < 0) { m.max_iter = 15; p.set_max_iter(15); }
  if (!m.seed) { m.seed = 5; p.set_seed(5); }
  if (m.max_fev < 0) { m.max_fev = 3000; p.set_max_fevals(3000); }
  if (m.restarts < 0) { m.restarts = 2; p.set_restarts(2); }
  if (m.tpa == 2 && m.grad) { m.grad = false; p.set_gradient(false); }
  if (m.algo % 3 && m.max_iter > 10) { m.max_iter = 10; p.set_max_iter(10); }
  omp_set_dynamic(0); omp_set_num_threads(1);
  CMAParameters<GP> q(m.x0,m.sigma,m.lambda,m.seed,make_gp<GP>(m));
  // another order than above.
  std::vector<std::function<void()>> sets = {
    [&]{ q.set_max_iter(m.max_iter); }, [&]{ q.set_max_fevals(m.max_fev); }, [&]{ if (m.has_ft) q.set_ftarget(m.ftarget); },
    [&]{ if (m.ftol >= 0) q.set_ftolerance(m.ftol); }, [&]{ if (m.xtol >= 0) q.set_xtolerance(m.xtol); },
    [&]{ if (g.flip()) q.set_algo(m.algo); else q.set_str_algo(names[m.algo]); }, [&]{ q.set_gradient(m.grad); }, [&]{ q.set_edm(m.edm); },
    [&]{ q.set_mt_feval(m.mt); }, [&]{ q.set_maximize(m.maxi); }, [&]{ q.set_uh(m.uh); },
    [&]{ if (m.tpa >= 0) q.set_tpa(m.tpa); if (m.tpads > 0) q.set_tpa_dsigma(m.tpads); },
    [&]{ q.set_restarts(m.restarts); }, [&]{ q.set_lazy_update(m.lazy); }, [&]{ q.set_elitism(m.elit); },
    [&]{ for (auto &s : m.crit) q.set_stopping_criteria(s.first,s.second); }, [&]{ if (m.max_hist > 0) q.set_max_hist(m.max_hist); },
    [&]{ q.set_initial_fvalue(m.initf); }, [&]{ for (auto &f : m.fixed) q.set_fixed_p(f.first,f.second); }, [&]{ if (m.noisy) q.set_noisy(); } };
  for (size_t i=sets.size();i>1;i--) std::swap(sets[i-1],sets[g.draw(i-1)]);
  for (auto &s : sets) s();
  Res a, b;
  auto go = [&](CMAParameters<GP> &r, Res &z)
    {
      z.rec = std::make_shared<Rec>();
      FitFunc f = recfunc(m,z.rec,&ctx);
      ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP> &cp, const CMASolutions &s)
	{
	  z.snaps.push_back(s); z.ncalls.push_back(z.rec->n); z.lambdas.push_back(cp.lambda());
	  return 0;
	};
      z.sol = cmaes<GP>(f,r,pf);
    };
  go(p,a);
  go(q,b);
  std::string w = "settings" + log + ": ";
  for (size_t i=0;i<std::min(a.calls().size(),b.calls().size());i++)
    ctx.check(same(a.calls()[i].x,b.calls()[i].x),"run",[&]{ return w + "evaluation " + str(i) + " is at " + str(a.calls()[i].x) + ", and at " + str(b.calls()[i].x) + " when the final settings are set directly"; });
  ctx.check(a.calls().size() == b.calls().size(),"run",[&]{ return w + str(a.calls().size()) + " evaluations, and " + str(b.calls().size()) + " when the final settings are set directly"; });
  ctx.check(a.snaps.size() == b.snaps.size() && a.sol.run_status() == b.sol.run_status(),"run",[&]{ return w + "iterations or status differ when the final settings are set directly"; });
  for (size_t i=0;i<a.snaps.size();i++)
    ctx.check(samebits(a.snaps[i].sigma(),b.snaps[i].sigma()) && same(a.snaps[i].full_cov(),b.snaps[i].full_cov()) && a.lambdas[i] == b.lambdas[i],"run",[&]{ return w + "states differ when the final settings are set directly"; });
  // the algorithm selected is the one that ran.
  bool diag = a.sol.cov().size() == 0;
  ctx.check(diag == (m.sep() || m.vd()),"family",[&]{ return w + "algorithm " + names[m.algo] + " ran with a " + (diag ? "diagonal" : "full") + " covariance"; });
  size_t mult = 0;
  for (auto &k : kinds) mult = std::max(mult,(size_t)k.second);
  ctx.nontrivial(changes >= 5 && a.sol.niter() > 1);
  if (mult > 1) ctx.label("set-again");
}

static void prop(Gen &g, Ctx &ctx)
{
  Model m;
  m.n = g.chance(1,3) ? g.range(6,9) : g.range(1,6);
  m.gpt = g.draw(3);
  for (int i=0;i<m.n;i++) { m.lb.push_back(-3-g.unit()); m.ub.push_back(3+g.unit()); m.x0.push_back(g.uniform(-2,2)); }
  m.sigma = g.uniform(0.1,2);
  m.lambda = g.pick<int>({-1,4,7,12,2,1,0});
  m.seed = g.chance(1,8) ? 0 : g.range(1,1000000);
  m.obj.kind = g.pick<int>({O_SPHERE,O_ELLI,O_RAST,O_ROSEN,O_HASH,O_PLATEAU});
  int nops = g.range(0,g.size() > 1 ? 60 : 25);
  ctx.label("transform=" + std::to_string(m.gpt));
  const char *t = getenv("VERIF_TMP");
  std::string tmp = std::string(t ? t : "/tmp") + "/c14." + std::to_string(getpid());
  if (mkdir(tmp.c_str(),0700)) ctx.discard();
  with_gp(m,[&](auto tag) { typedef typename decltype(tag)::type GP; body<GP>(g,ctx,m,nops,tmp); });
  unlink((tmp + "/c14.dat").c_str());
  rmdir(tmp.c_str());
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C14","A case is a random history of up to 25 setter calls (60 in the thorough tier) on a parameter object (also copied in between), against a model holding the last value written to each setting: after each call every getter is compared with the model, and at the end the search it configures is compared, evaluation by evaluation, with that of a fresh object given only the final settings in another order. Non-trivial: at least 5 calls and more than one iteration of the search.",prop,40000,100000000});
}
