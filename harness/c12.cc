// C12: a transform only changes what the objective sees, not the search.
#include "common.hpp"

// image of an internal point, from the definitions (the bound transform as documented: identity away from the
// bounds, quadratic near them, periodic beyond).
static double bound_image(double x, double lb, double ub)
{
  double al = std::min((ub-lb)/2.0,(1.0+std::fabs(lb))/20.0), au = std::min((ub-lb)/2.0,(1.0+std::fabs(ub))/20.0);
  double xlow = lb-2*al-(ub-lb)/2.0, xup = ub+2*au+(ub-lb)/2.0, r = 2*(ub-lb+al+au);
  double y = x;
  if (y < xlow) y += r*(1+std::floor((xlow-y)/r));
  if (y > xup) y -= r*(1+std::floor((y-xup)/r));
  if (y < lb-al) y += 2*(lb-al-y);
  if (y > ub+au) y -= 2*(y-ub-au);
  if (y < lb+al) y = lb+(y-(lb-al))*(y-(lb-al))/4/al;
  else if (y > ub-au) y = ub-(y-(ub+au))*(y-(ub+au))/4/au;
  return y;
}

static dv image(const Cfg &c, const dVec &x)
{
  dv y(c.n);
  for (int i=0;i<c.n;i++)
    {
      double v = x(i);
      double sc = 1, sh = 0;
      if (c.scaled())
	{
	  if (c.scal_ctor) { sc = c.scal[i]; sh = c.shft[i]; }
	  else { sc = 10.0/(c.ub[i]-c.lb[i]); sh = 10.0-sc*c.ub[i]; }
	}
      // order: custom map, bounds (of the internal space), scaling.
      if (c.custom) v = cust_pheno(c,i,v);
      if (c.bounded())
	{
	  double l = c.lb[i], u = c.ub[i];
	  if (c.scaled())
	    {
	      if (c.scal_ctor) { l = sc*l+sh; u = sc*u+sh; }
	      else { l = 0; u = 10; }
	    }
	  v = bound_image(v,l,u);
	}
      y[i] = (v-sh)/sc;
    }
  return y;
}

template <class GP> void body(Gen &g, Ctx &ctx, const Cfg &c, bool vsig, const dv &sig)
{
  Res a;
  CMAParameters<GP> p = make_params<GP>(c);
  if (!vsig) a = run<GP>(c,&ctx);
  else
    {
      a.rec = std::make_shared<Rec>();
      FitFunc f = recfunc(c,a.rec,&ctx);
      CMAParameters<GP> q(c.x0,sig,c.lambda,c.bounded() ? c.lb : dv(),c.bounded() ? c.ub : dv(),c.seed);
      apply(q,c);
      ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP> &cp, const CMASolutions &s)
	{
	  a.snaps.push_back(s); a.ncalls.push_back(a.rec->n); a.lambdas.push_back(cp.lambda());
	  return 0;
	};
      a.sol = cmaes<GP>(f,q,pf);
      p = q;
    }
  const GP &gp = p.get_gp();
  // the internal start.
  dVec m0 = a.snaps[0].xmean();
  for (int i=0;i<c.n;i++)
    {
      double e = c.x0[i], off = 0;
      if (c.scaled())
	{
	  double sc = c.scal_ctor ? c.scal[i] : 10.0/(c.ub[i]-c.lb[i]), sh = c.scal_ctor ? c.shft[i] : 10.0-sc*c.ub[i];
	  off = std::fabs(sc*e)+std::fabs(sh);
	  e = sc*e+sh;
	}
      if (c.fixed.count(i)) continue;
      ctx.check(std::fabs(m0(i)-e) <= 1e-12*(off+std::fabs(e)),"start",[&]{ return "internal start " + str(m0) + ", coordinate " + str(i) + " should be " + str(e); });
    }
  // without a transform, on the composed objective.
  Cfg d = c;
  d.gpt = 0; d.custom = d.scal_ctor = false;
  d.x0 = tov(m0);
  for (auto &q : d.fixed) q.second = m0(q.first);
  Res b;
  b.rec = std::make_shared<Rec>();
  Obj ob = c.obj;
  FitFunc f = [&](const double *x, const int &n)
    {
      dVec gx(n);
      for (int i=0;i<n;i++) gx(i) = x[i];
      dVec y = gp.pheno(gx);
      double v = ob(y.data(),n);
      std::lock_guard<std::mutex> l(b.rec->m);
      if (++b.rec->n > b.rec->limit) ctx.discard();
      b.rec->calls.push_back(Call{dv(x,x+n),v,0});
      return v;
    };
  CMAParameters<GP0> q = make_params<GP0>(d);
  ProgressFunc<CMAParameters<GP0>,CMASolutions> pf = [&](const CMAParameters<GP0> &cp, const CMASolutions &s)
    {
      b.snaps.push_back(s); b.ncalls.push_back(b.rec->n); b.lambdas.push_back(cp.lambda());
      return 0;
    };
  b.sol = cmaes<GP0>(f,q,pf);
  int moved = 0;
  for (size_t i=0;i<std::min(a.calls().size(),b.calls().size());i++)
    {
      dVec x = toe(b.calls()[i].x);
      dv im = image(c,x);
      for (int k=0;k<c.n;k++)
	{
	  double tol = 1e-9*(std::fabs(im[k])+(c.gpt ? std::fabs(c.lb[k])+std::fabs(c.ub[k]) : 0.0))+1e-9*(c.scaled() ? (c.scal_ctor ? (std::fabs(c.shft[k])+1)/c.scal[k] : std::fabs(c.ub[k]-c.lb[k])) : 0.0);
	  if (c.custom) tol += 1e-9*(std::fabs(c.ca[k])+std::fabs(c.cb[k]));
	  if (c.bounded()) tol += 1e-15*std::fabs(x(k))*(c.scaled() && c.scal_ctor ? 1/c.scal[k] : c.scaled() ? c.ub[k]-c.lb[k] : 1.0)*100; // far outside, the position in the period is lost to rounding
	  ctx.check(std::fabs(a.calls()[i].x[k]-im[k]) <= tol,"image",[&]{ return "evaluation " + str(i) + ": the objective sees " + str(a.calls()[i].x) + ", the image of the internal point " + str(x) + " is " + str(im); });
	  if (a.calls()[i].x[k] != x(k)) ++moved;
	}
      ctx.check(samebits(a.calls()[i].f,b.calls()[i].f),"values",[&]{ return "evaluation " + str(i) + ": values " + str(a.calls()[i].f) + " and " + str(b.calls()[i].f) + " at the internal point " + str(x); });
    }
  ctx.check(a.calls().size() == b.calls().size(),"number",[&]{ return str(a.calls().size()) + " evaluations and " + str(b.calls().size()) + " without the transform"; });
  ctx.check(a.snaps.size() == b.snaps.size(),"iterations",[&]{ return str(a.snaps.size()) + " and " + str(b.snaps.size()) + " progress calls"; });
  auto st = [&](const CMASolutions &u, const CMASolutions &v, const std::string &at)
    {
      ctx.check(u.niter() == v.niter() && u.nevals() == v.nevals() && u.run_status() == v.run_status(),"counts",[&]{ return at + "counts or status differ"; });
      ctx.check(same(dVec(u.xmean()),dVec(v.xmean())),"mean",[&]{ return at + "means " + str(dVec(u.xmean())) + " and " + str(dVec(v.xmean())); });
      ctx.check(samebits(u.sigma(),v.sigma()),"sigma",[&]{ return at + "step-sizes " + str(u.sigma()) + " and " + str(v.sigma()); });
      ctx.check(same(u.full_cov(),v.full_cov()),"covariance",[&]{ return at + "covariances differ"; });
      for (int k=0;k<u.size() && u.niter();k++)
	ctx.check(same(u.get_candidate(k).get_x_dvec(),v.get_candidate(k).get_x_dvec()) && samebits(u.get_candidate(k).get_fvalue(),v.get_candidate(k).get_fvalue()),"population",[&]{ return at + "candidates of rank " + str(k) + " differ"; });
    };
  for (size_t i=0;i<a.snaps.size();i++)
    st(a.snaps[i],b.snaps[i],"progress call " + str(i) + ": ");
  st(a.sol,b.sol,"result: ");
  // what is reported in user space is where the value was obtained.
  double sg = c.maxi ? -1 : 1;
  auto img = [&](const Candidate &cd, const std::string &w)
    {
      dVec y = cd.get_x_pheno_dvec(p);
      ctx.check(samebits(sg*ob(y.data(),c.n),cd.get_fvalue()),"reported",[&]{ return w + ": reported at " + str(y) + ", where the value is " + str(sg*ob(y.data(),c.n)) + " and not " + str(cd.get_fvalue()); });
    };
  if (a.sol.niter())
    {
      img(a.sol.best_candidate(),"best");
      img(a.sol.get_best_seen_candidate(),"best seen");
      img(a.sol.get_worst_seen_candidate(),"worst seen");
      for (int k=0;k<a.sol.size();k++) img(a.sol.get_candidate(k),"candidate " + str(k));
    }
  ctx.nontrivial(a.sol.niter() >= 3 && moved > 0);
}

static void prop(Gen &g, Ctx &ctx)
{
  GOpt o;
  o.algos = {0,3,6,9,12,0,3,6,9,12,1,2,4,5,7,8,10,11,13,14};
  o.gpts = {1,2,3,1,2,3,0};
  o.noisy = true; o.mt = false; o.grad = false; o.edm = false; o.uh = true;
  o.maxiter = g.size() > 1 ? 200 : 40;
  Cfg c = gen_cfg(g,o);
  if (c.gpt == 0 && !c.custom)
    {
      c.custom = true;
      for (int i=0;i<c.n;i++) { c.ca.push_back(1+g.unit()); c.cb.push_back(g.uniform(-1,1)); }
    }
  if (c.family()) { c.restarts = g.range(1,4); c.max_iter = std::min(c.max_iter,12); if (c.lambda > 12) c.lambda = 12; }
  if (c.n > 1 && !c.scaled() && g.chance(1,6)) { int k = g.draw(c.n-1); c.fixed[k] = c.gpt ? 0.5*(c.lb[k]+c.ub[k]) : 0.3; }
  if (c.scaled() && c.elit == 3) c.elit = 1; // restarts from a point converted to user space and back, up to rounding
  bool vsig = c.gpt >= 2 && !c.custom && g.chance(1,4); // per-parameter step-sizes
  dv sig;
  if (vsig)
    {
      c.scal_ctor = true; c.scal.clear(); c.shft.clear();
      for (int i=0;i<c.n;i++) { sig.push_back(g.logu(1e-2,1e2)); c.scal.push_back(1.0/sig[i]); c.shft.push_back(0.0); }
      c.sigma = *std::min_element(sig.begin(),sig.end());
      ctx.label("per-parameter-sigma");
    }
  labels(ctx,c);
  ctx.sample(c.describe() + (vsig ? " sigmas=" + str(sig) : ""));
  with_gp(c,[&](auto tag) { typedef typename decltype(tag)::type GP; body<GP>(g,ctx,c,vsig,sig); });
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C12","A case runs one of the 15 algorithms with generated settings through a custom, bound, scaling or combined transform (also built from per-parameter step-sizes), and without a transform on the composed objective from the corresponding internal start; internal states, populations and values must be identical at every iteration, what the objective saw must be the image of the internal point by an independent definition of the transforms, and reported candidates must map to where their value was obtained. Non-trivial: at least 3 iterations and the transform moved some point.",prop,40000,100000000});
}
