// C10: runs stop exactly when an active stopping rule holds, and report which.
#include "reference.hpp"

enum { NO = 0, YES = 1, MAYBE = 2 };
// x > y (strictly), with either answer allowed within rounding.
static int gt(double x, double y, double rel=1e-9)
{
  if (std::isnan(x) || std::isnan(y)) return MAYBE;
  double m = rel*std::max(std::fabs(x),std::fabs(y));
  if (x == y) return rel > 0 ? MAYBE : NO;
  if (std::isinf(x) || std::isinf(y)) return x > y;
  if (x-y > m) return YES;
  if (y-x > m) return NO;
  return MAYBE;
}
static double median(std::vector<double> v)
{
  std::sort(v.begin(),v.end());
  size_t n = v.size();
  return n % 2 ? v[n/2] : 0.5*(v[n/2-1]+v[n/2]);
}
// does adding d to x leave x unchanged?
static int noeffect(double x, double d)
{
  volatile double a = x+d*(1+1e-9), b = x+d*(1-1e-9);
  bool u = a == x, v = b == x;
  return u == v ? (u ? YES : NO) : MAYBE;
}
static int all(int a, int b) { if (a == NO || b == NO) return NO; return a == YES && b == YES ? YES : MAYBE; }

struct RunHist
{
  std::vector<double> best, kbest, med;
  double sigma0 = 0;
  RefState st;
  bool live = false;
  double pctol = 0;
};

// rules that hold in state s, in order of their codes.
static std::map<int,int> rules(const Cfg &c, const CMASolutions &s, const RunHist &h, int lambda, int max_fev, double &ft)
{
  std::map<int,int> r;
  int n = c.n, t = s.niter();
  double mx = s.max_eigenv(), mi = s.min_eigenv();
  r[CONDITIONCOV] = mi <= 0 ? YES : gt(mx/mi,1e14);
  double fac = s.sigma()/h.sigma0;
  r[TOLUPSIGMA] = gt(fac,1e20*std::sqrt(mx));
  int mh = c.max_hist > 0 ? c.max_hist : 10+30*n/lambda;
  // function-value tolerance: over the last 10+30n/lambda best values.
  {
    double tol = std::max(c.ftol,1e-12);
    int lo = 10+30*n/lambda, res = NO;
    int len = c.max_hist > 0 ? std::min(c.max_hist,lo) : lo;
    if ((int)h.best.size() >= len)
      {
	double a = 1e300, b = -1e300;
	for (int i=0;i<len;i++) { a = std::min(a,h.best[h.best.size()-1-i]); b = std::max(b,h.best[h.best.size()-1-i]); }
	res = gt(tol,b-a);
      }
    r[TOLHISTFUN] = res;
  }
  // TolX.
  {
    double tol = std::max(c.xtol,1e-12);
    int res = YES;
    dMat C = c.sep() || c.vd() ? s.sepcov() : s.cov();
    for (int i=0;i<n;i++) res = all(res,gt(tol,std::sqrt(c.sep() || c.vd() ? C(i,0) : C(i,i))*fac));
    if (res != NO)
      {
	if (!h.live) res = MAYBE;
	else for (int i=0;i<n;i++) res = all(res,gt(tol,std::fabs(h.st.pc(i))*fac,h.pctol));
      }
    r[TOLX] = res;
  }
  {
    int res = YES, rc = YES;
    dMat ev = s.eigenvalues(), E = s.eigenvectors();
    dMat C = c.sep() || c.vd() ? s.sepcov() : s.cov();
    for (int i=0;i<n;i++)
      {
	double ei = 0.1*s.sigma()*std::sqrt(ev(i,0));
	if (c.sep() || c.vd()) res = all(res,noeffect(s.xmean()(i),ei));
	else for (int j=0;j<n;j++) res = all(res,noeffect(s.xmean()(i),ei*E(i,j)));
	rc = all(rc,noeffect(s.xmean()(i),0.2*s.sigma()*std::sqrt(c.sep() || c.vd() ? C(i,0) : C(i,i))));
      }
    r[NOEFFECTAXIS] = res;
    r[NOEFFECTCOOR] = rc;
  }
  {
    int res = NO;
    int hs = std::min(mh,(int)h.best.size()), len = std::min(n,hs);
    if (len >= mh)
      {
	int k = 0;
	for (int i=0;i<len;i++) k += h.best[h.best.size()-1-i] == h.kbest[h.kbest.size()-1-i];
	res = 3*k > len ? YES : NO;
      }
    r[EQUALFUNVALS] = res;
  }
  {
    int res = NO;
    if (h.best.size() >= 20)
      {
	// the medians kept at this iteration.
	size_t kept = 0;
	for (size_t i=0;i<h.med.size();i++)
	  {
	    ++kept;
	    size_t cap = std::ceil(0.2*i+120+30*n/(double)lambda);
	    if (kept > cap) --kept;
	  }
	std::vector<double> o(h.med.end()-kept,h.med.end()-kept+20), b(h.best.end()-20,h.best.end());
	double mb = median(b), mo = median(o);
	res = mb == mo ? YES : gt(mb,mo,1e-13);
	if (h.med.size() > 20 && kept < h.med.size()) ft = 1;
      }
    r[STAGNATION] = res;
  }
  double lim = 100+50*std::pow(n+3.0,2)/std::sqrt((double)lambda);
  if (c.vd() && n < 10) lim *= 1000;
  r[AUTOMAXITER] = t >= lim*(1+1e-9) ? YES : (t >= lim*(1-1e-9) ? MAYBE : NO);
  r[MAXFEVALS] = max_fev >= 0 && s.nevals() >= max_fev ? YES : NO;
  r[MAXITER] = c.max_iter >= 0 && t >= c.max_iter ? YES : NO;
  r[FTARGET] = s.best_candidate().get_fvalue() <= (c.has_ft ? c.ftarget : -std::numeric_limits<double>::infinity()) ? YES : NO; // no target: minus infinity
  return r;
}

static const char *msg(int code)
{
  switch (code)
    {
    case CONT: return "OK";
    case AUTOMAXITER: return "automatically set maximal number of iterations";
    case TOLHISTFUN: return "has converged";
    case EQUALFUNVALS: return "values are the same";
    case TOLX: return "are very small";
    case TOLUPSIGMA: return "step size increase";
    case STAGNATION: return "Median";
    case CONDITIONCOV: return "condition number";
    case NOEFFECTAXIS: return "along search axes";
    case NOEFFECTCOOR: return "in coordinates";
    case MAXFEVALS: return "function evaluations";
    case MAXITER: return "iterations specified";
    case FTARGET: return "target value";
    default: return "?";
    }
}

static void prop(Gen &g, Ctx &ctx)
{
  static const std::vector<int> codes = {CONDITIONCOV,TOLUPSIGMA,TOLHISTFUN,TOLX,NOEFFECTAXIS,NOEFFECTCOOR,EQUALFUNVALS,STAGNATION,AUTOMAXITER,MAXFEVALS,MAXITER,FTARGET};
  GOpt o;
  o.algos = {0,3,6,9,12,0,3,6,9,1,2,4,5,7,8,10,11,13,14};
  o.mt = false; o.edm = false; o.grad = false; o.noisy = true; o.maxdim = 4;
  o.gpts = {0,0,0,1,2,3};
  int goal = g.draw(11); // what the settings are meant to provoke
  if (goal >= 5 && goal != 9) o.gpts = {0};
  Cfg c = gen_cfg(g,o);
  c.max_iter = g.size() > 1 ? 1500 : 400;
  if (c.n > 6) c.max_iter = 200;
  bool only = g.flip(); // the other rules off
  int target = 0;
  switch (goal)
    {
    case 0: // target value
      target = FTARGET; c.has_ft = true;
      c.ftarget = (c.maxi ? -1 : 1)*c.obj.shift + c.obj.scale*g.pick<double>({1e-2,1e-6,1.0,10.0,-1.0,100.0});
      if (c.obj.kind == O_LIN) c.ftarget = -g.logu(10,1e4);
      break;
    case 1: target = MAXFEVALS; c.max_fev = g.range(1,600); break;
    case 2: target = MAXITER; c.max_iter = g.range(1,60); break;
    case 3: target = TOLHISTFUN; c.ftol = g.logu(1e-10,1e-1); c.obj.kind = g.pick<int>({O_SPHERE,O_ELLI,O_QUART,O_RAST,O_HASH}); if (c.obj.kind == O_HASH) c.ftol = 0.3; break;
    case 4: target = TOLX; c.xtol = g.logu(1e-10,0.5); break;
    case 5: target = STAGNATION; c.obj.kind = g.pick<int>({O_HASH,O_RAST,O_PLATEAU,O_MAXABS}); break;
    case 6: target = EQUALFUNVALS; c.obj.kind = g.pick<int>({O_CONST,O_PLATEAU}); c.max_hist = g.range(1,c.n); break;
    case 7: target = AUTOMAXITER; c.n = c.vd() ? c.n : g.range(1,2); c.x0.resize(c.n); if (c.custom) { c.ca.resize(c.n); c.cb.resize(c.n); } c.obj.c.clear(); c.lambda = g.range(20,60); break;
    case 8: target = TOLUPSIGMA; c.obj.kind = O_LIN; c.obj.scale = 1; break;
    case 9: // anything, with all sorts of settings
      c.ftol = g.flip() ? -1 : g.logu(1e-12,1.0);
      c.xtol = g.flip() ? -1 : g.logu(1e-12,1.0);
      if (g.flip()) c.max_hist = g.range(1,60);
      if (g.flip()) c.max_fev = g.range(1,2000);
      if (g.flip()) { c.has_ft = true; c.ftarget = (c.maxi ? -1 : 1)*c.obj.shift+c.obj.scale*g.logu(1e-9,10); }
      c.max_iter = g.flip() ? -1 : g.range(1,300);
      break;
    case 10: target = g.flip() ? NOEFFECTAXIS : NOEFFECTCOOR; c.obj.kind = O_SPHERE; c.obj.scale = 1; c.obj.shift = 0;
      c.obj.c = c.x0;
      for (int i=0;i<c.n;i++) { c.x0[i] = g.uniform(-1,1)*g.pick<double>({1e6,1e9,1e12}); c.obj.c[i] = c.x0[i]+g.uniform(-1,1); }
      c.custom = false;
      break;
    default: // conditioning
      target = CONDITIONCOV; c.obj.kind = O_CIGAR; c.obj.scale = 1; c.obj.shift = 0;
      break;
    }
  if (c.max_fev < 0 && c.max_iter < 0 && c.obj.kind == O_HASH) c.max_iter = 300;
  if (only && target)
    for (int k : codes)
      if (k != target && k != MAXITER && g.chance(9,10)) c.crit.push_back({k,false});
  if (g.chance(1,4))
    for (int i=0,m=g.range(1,6);i<m;i++) c.crit.push_back({g.pick(codes),g.flip()}); // switched on and off several times: the last counts
  std::map<int,bool> active;
  for (int k : codes) active[k] = true;
  for (auto &s : c.crit) active[s.first] = s.second;
  // some limit has to remain.
  if (!(active[MAXITER] && c.max_iter > 0) && !(active[MAXFEVALS] && c.max_fev > 0)) { c.crit.push_back({MAXFEVALS,true}); active[MAXFEVALS] = true; c.max_fev = 4000; }
  if (c.family()) { c.restarts = g.range(1,3); c.lambda = c.lambda > 8 ? 8 : c.lambda; if (c.max_fev < 0) c.max_fev = 4000; if (c.max_iter < 0 || c.max_iter > 100) c.max_iter = 100; if (!active[MAXITER]) { c.crit.push_back({MAXITER,true}); active[MAXITER] = true; } }
  if (c.n > 1 && g.chance(1,8)) { int k = g.draw(c.n-1); c.fixed[k] = c.gpt ? 0.5*(c.lb[k]+c.ub[k]) : 0.3; }
  if (g.chance(1,10)) c.uh = true;
  int pstop = g.chance(1,8) ? g.range(0,30) : -1; // the progress function asks to stop at its pstop-th call
  int pret = g.pick<int>({1,-1,7});
  labels(ctx,c);
  ctx.label("goal=" + std::to_string(goal));
  bool steep = goal == 11;
  ctx.sample(std::string(steep ? "steep " : "") + c.describe() + " progress-stop=" + std::to_string(pstop));
  std::vector<int> mfev;
  with_gp(c,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      int calls = 0;
      std::function<int(const CMAParameters<GP>&,const CMASolutions&)> ex = [&](const CMAParameters<GP> &p, const CMASolutions&)
	{
	  mfev.push_back(p.get_max_fevals());
	  return calls++ == pstop ? pret : 0;
	};
      Res r;
      if (!steep) r = run<GP>(c,&ctx,ex);
      else
	{
	  r.rec = std::make_shared<Rec>();
	  auto rec = r.rec;
	  Obj ob = c.obj;
	  FitFunc f = [&ctx,rec,ob](const double *x, const int &n)
	    {
	      if (++rec->n > rec->limit) ctx.discard();
	      double s = 0;
	      for (int i=0;i<n;i++) s += std::pow(10.0,n > 1 ? 17.0*i/(n-1) : 0.0)*x[i]*x[i];
	      return s;
	    };
	  CMAParameters<GP> p = make_params<GP>(c);
	  ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP> &cp, const CMASolutions &s)
	    {
	      r.snaps.push_back(s); r.ncalls.push_back(rec->n); r.lambdas.push_back(cp.lambda());
	      return ex(cp,s);
	    };
	  r.sol = cmaes<GP>(f,p,pf);
	}
      RunHist h;
      double dropped = 0;
      int ends = 0;
      for (size_t i=0;i<r.snaps.size();i++)
	{
	  const CMASolutions &s = r.snaps[i];
	  bool last = i+1 == r.snaps.size();
	  bool ended = last || r.snaps[i+1].niter() == 0;
	  std::string at = "iteration " + str(s.niter()) + ": ";
	  if (!ended)
	    ctx.check(r.snaps[i+1].niter() == s.niter()+1,"order",[&]{ return at + "followed by iteration " + str(r.snaps[i+1].niter()); });
	  if (s.niter() == 0)
	    {
	      h = RunHist();
	      h.sigma0 = s.sigma();
	      h.st.ps = h.st.pc = dVec::Zero(c.n);
	      h.live = !c.lazy && c.tpa != 2 && !c.uh;
	    }
	  else
	    {
	      const CMASolutions &q = r.snaps[i-1];
	      int lambda = s.size();
	      if (h.live)
		{
		  // evolution path of the reference model, for TolX.
		  RefPar p(c.n,lambda,c,c.fixed.size());
		  RefState st = h.st;
		  st.m = q.xmean(); st.sigma = q.sigma(); st.C = c.sep() || c.vd() ? q.sepcov() : q.cov();
		  st.Cdec = st.C;
		  if (c.vd()) st.v = recover_v(q.full_cov(),dVec(q.sepcov().col(0)));
		  double mn = c.sep() || c.vd() ? st.C.minCoeff() : q.niter() ? s.min_eigenv() : 1.0;
		  double rel = 3e-16*std::max(s.xmean().cwiseAbs().maxCoeff(),q.xmean().cwiseAbs().maxCoeff())/st.sigma/std::sqrt(std::max(mn,1e-300));
		  double cond = c.sep() || c.vd() ? 1 : s.max_eigenv()/mn;
		  h.pctol = std::max(0.98*h.pctol,1e-7+1e3*rel+1e-13*cond);
		  if (!(h.pctol < 1e-2)) h.live = false;
		  else
		    {
		      std::vector<dVec> X;
		      for (int k=0;k<s.size();k++) X.push_back(s.get_candidate(k).get_x_dvec());
		      double bad, margin = ref_update(p,st,X,q.niter(),0,-1,bad);
		      if (margin < 1e-6+100*h.pctol) h.live = false; // whether the path is stalled depends on rounding
		      h.st.ps = st.ps; h.st.pc = st.pc;
		    }
		}
	      h.best.push_back(s.get_candidate(0).get_fvalue());
	      int kc = std::min(lambda-1,(int)(1+std::ceil(0.1+lambda/4.0)));
	      h.kbest.push_back(s.get_candidate(kc).get_fvalue());
	      double md = lambda % 2 ? s.get_candidate(lambda/2).get_fvalue() : 0.5*(s.get_candidate(lambda/2-1).get_fvalue()+s.get_candidate(lambda/2).get_fvalue());
	      h.med.push_back(md);
	    }
	  bool asked = (int)i == pstop;
	  if (asked)
	    {
	      ctx.check(ended,"progress-ignored",[&]{ return at + "the run goes on after the progress function asked it to stop"; });
	      if (last)
		{
		  ctx.check(r.ncalls[i]+(c.edm ? 2*c.n : 0) == r.rec->n,"progress-late",[&]{ return at + "evaluations after the progress function asked to stop"; });
		  if (c.family() == 0) ctx.check(r.sol.run_status() == CONT,"progress-status",[&]{ return at + "status " + str(r.sol.run_status()) + " after the progress function asked to stop"; });
		}
	      ctx.label("progress-stop");
	      ++ends;
	      continue;
	    }
	  if (s.niter() == 0)
	    {
	      ctx.check(!ended,"no-iteration",[&]{ return "a run ends before its first iteration"; });
	      continue;
	    }
	  if (!(s.sigma() < 1e290) || !s.xmean().allFinite() || !(s.full_cov().cwiseAbs().maxCoeff() < 1e290)) { ctx.label("overflow"); return; }
	  int mf = c.family() == 2 ? mfev[i] : c.max_fev;
	  auto ru = rules(c,s,h,r.lambdas[i],mf,dropped);
	  std::vector<int> allowed;
	  bool sure = false;
	  for (auto &e : ru)
	    {
	      if (!active[e.first] || e.second == NO) continue;
	      allowed.push_back(e.first);
	      if (e.second == YES) { sure = true; break; }
	    }
	  std::string al;
	  for (int k : allowed) al += " " + str(k);
	  if (sure)
	    ctx.check(ended,"ignored",[&]{ return at + "the run goes on although rule" + al + " holds and is on"; });
	  if (ended && allowed.empty())
	    ctx.fail("early",at + "the run ends with status " + (last ? str(r.sol.run_status()) : std::string("?")) + " although no active rule holds");
	  if (ended)
	    {
	      ++ends;
	      for (int k : allowed) if (allowed.size() == 1) ctx.label("ended-by=" + std::to_string(k));
	    }
	  if (last && c.family() == 0)
	    {
	      int st = r.sol.run_status();
	      ctx.check(std::count(allowed.begin(),allowed.end(),st) > 0,"status",[&]{ return at + "status " + str(st) + ", but the first rule that holds is" + al; });
	      ctx.check(r.sol.status_msg().find(msg(st)) != std::string::npos,"message",[&]{ return "status " + str(st) + " has the message \"" + r.sol.status_msg() + "\""; });
	      bool err = st < 0, merr = r.sol.status_msg().find("[Error]") == 0;
	      ctx.check(err == merr,"message",[&]{ return "status " + str(st) + " has the message \"" + r.sol.status_msg() + "\""; });
	    }
	}
      if (dropped) ctx.label("old-medians-dropped");
      ctx.nontrivial(ends > 0 && r.snaps.size() > 5);
    });
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C10","A case is a recorded run of one of the 15 algorithms with settings meant to provoke one of the stopping rules (or a random mix of them), rules switched on and off at random and sometimes a progress function asking to stop; at each iteration an independent evaluation of the rules on the recorded states (three-valued: undecided within rounding) says which may end the run, and the run must go on or end, with the right status and message, accordingly. Non-trivial: more than 4 iterations were made and an end was explained.",prop,40000,100000000});
}
