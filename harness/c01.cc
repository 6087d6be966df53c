// C01: with box bounds, the objective and the gradient only see points inside the box.
#include "common.hpp"
#include <libcmaes/errstats.h>

static void prop(Gen &g, Ctx &ctx)
{
  GOpt o;
  o.gpts = {1,3};
  o.algos = {0,0,3,6,9,12,1,2,4,5,7,8,10,11,13,14};
  o.uh = true;
  o.noisy = true;
  o.maxiter = g.size() > 1 ? 120 : 40;
  o.maxdim = g.size() > 1 ? 12 : 6;
  Cfg c = gen_cfg(g,o);
  if (c.family()) { c.restarts = g.range(1,3); c.max_iter = g.range(1,12); }
  if (g.chance(1,6)) // a very large step-size
    c.sigma *= g.logu(1,1e8);
  if (!c.custom && !c.scal_ctor && g.chance(1,8))
    {
      int k = g.draw(c.n-1);
      c.fixed[k] = c.lb[k] + (c.ub[k]-c.lb[k])*g.unit();
      if (c.n == 1) c.fixed.clear();
    }
  bool pl = g.chance(1,12) && c.n > 1 && c.algo == 0 && !c.custom;
  ctx.sample(c.describe() + (pl ? " then constrained minimum" : ""));
  labels(ctx,c);
  // rounding of the linear scaling only: the bound map itself is exact.
  auto inside = [&c](const double *x, std::string &why)
    {
      for (int i=0;i<c.n;i++)
	{
	  double tol = 0.0;
	  if (c.gpt == 3)
	    {
	      double s = c.scal_ctor ? c.scal[i] : 10.0/(c.ub[i]-c.lb[i]);
	      double sh = c.scal_ctor ? c.shft[i] : 10.0 - s*c.ub[i];
	      tol = 64*2.3e-16*((std::fabs(sh)+10.0)/s + std::fabs(c.lb[i]) + std::fabs(c.ub[i]));
	    }
	  if (!(x[i] >= c.lb[i]-tol && x[i] <= c.ub[i]+tol))
	    {
	      why = "coordinate " + str(i) + " = " + str(x[i]) + " outside [" + str(c.lb[i]) + "," + str(c.ub[i]) + "], point " + str(dv(x,x+c.n));
	      return false;
	    }
	}
      return true;
    };
  with_gp(c,[&](auto t)
    {
      typedef typename decltype(t)::type GP;
      auto rec = std::make_shared<Rec>();
      rec->store = false;
      FitFunc base = recfunc(c,rec,&ctx);
      FitFunc f = [&](const double *x, const int &n)
	{
	  std::string why;
	  if (!inside(x,why))
	    ctx.fail("objective","objective called outside the box: " + why);
	  return base(x,n);
	};
      GradFunc gf = nullptr;
      if (c.grad && c.ugrad)
	gf = [&](const double *x, const int &n)
	  {
	    std::string why;
	    if (!inside(x,why))
	      ctx.fail("gradient","gradient called outside the box: " + why);
	    dVec gr = c.obj.grad(x,n);
	    return c.maxi ? dVec(-gr) : gr;
	  };
      CMAParameters<GP> p = make_params<GP>(c);
      bool far = false;
      auto report = [&](const CMASolutions &s, const char *what)
	{
	  std::vector<std::pair<std::string,dVec>> v;
	  if (s.niter() > 0)
	    {
	      v.push_back({"best",s.best_candidate().get_x_pheno_dvec(p)});
	      v.push_back({"best seen",s.get_best_seen_candidate().get_x_pheno_dvec(p)});
	      if (s.get_worst_seen_candidate().get_x_size()) v.push_back({"worst seen",s.get_worst_seen_candidate().get_x_pheno_dvec(p)});
	      for (int i=0;i<s.size();i++) v.push_back({"candidate",s.get_candidate(i).get_x_pheno_dvec(p)});
	    }
	  v.push_back({"mean",p.get_gp().pheno(s.xmean())});
	  for (auto &q : v)
	    {
	      std::string why;
	      if (!inside(q.second.data(),why))
		ctx.fail("reported",std::string(what) + " " + q.first + ": " + why);
	    }
	  for (int i=0;i<s.size() && s.niter() > 0;i++)
	    {
	      dVec x = s.get_candidate(i).get_x_dvec();
	      for (int j=0;j<c.n;j++)
		{
		  double l = c.gpt == 1 ? c.lb[j] : 0.0, u = c.gpt == 1 ? c.ub[j] : 10.0;
		  if (c.custom || x(j) < l || x(j) > u) far = true;
		}
	    }
	};
      ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP>&, const CMASolutions &s) { report(s,"progress"); return 0; };
      CMASolutions sol = cmaes<GP>(f,p,pf,gf);
      report(sol,"final");
      ctx.nontrivial(far);
      if (far) ctx.label("some-genotype-outside");
      if (pl)
	{
	  int k = g.draw(c.n-1);
	  double v = c.lb[k] + (c.ub[k]-c.lb[k])*g.unit();
	  dVec x0 = p.get_gp().pheno(sol.xmean());
	  p.set_max_iter(20);
	  rec->n = 0;
	  errstats<GP>::optimize_pk(f,p,sol,k,v,x0,true,true);
	  ctx.label("constrained-minimum");
	}
    });
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C01","A case is a run of one of the 15 algorithms with box bounds (with and without linear scaling and custom maps; start inside, on or outside the bounds; step-size 0.01 to 1e8 box widths; gradient, expected distance, elitism, uncertainty handling, parallel evaluation, frozen parameters, restarts), sometimes followed by a constrained minimisation. Every objective and gradient call and every reported point is tested. Non-trivial: some candidate lies outside the box in internal space, so that the bound map had to act.",prop,60000,10000000});
}
