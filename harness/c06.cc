// C06: fixed parameters keep their value in every evaluation.
#include "common.hpp"

static void prop(Gen &g, Ctx &ctx)
{
  GOpt o;
  o.algos = {0,3,6,9,12,0,3,6,9,1,2,4,5,7,8,10,11,13,14};
  o.uh = true; o.noisy = true;
  o.mindim = 2;
  o.maxiter = g.size() > 1 ? 100 : 30;
  bool conv = g.chance(1,16); // long run: the free parameters must reach their optimum
  if (conv)
    {
      o.algos = {0,3,6,9}; o.gpts = {0,0,2,1}; o.uh = o.noisy = o.custom = o.scal_ctor = o.outside = o.maxi = o.edm = o.tpa = false;
      o.kinds = {O_SPHERE,O_ELLI}; o.maxdim = 4; o.big = false;
    }
  Cfg c = gen_cfg(g,o);
  if (c.family()) { c.restarts = g.range(1,3); c.max_iter = std::min(c.max_iter,10); if (c.lambda > 12) c.lambda = 12; }
  if (c.grad && !c.ugrad) c.grad = false; // numerical gradients move every coordinate by definition
  if (conv)
    {
      c.max_iter = 3000; c.lambda = g.chance(1,2) ? g.range(40,160) : -1;
      c.sigma = c.scaled() ? 2.0 : (c.gpt ? 0.2*(c.ub[0]-c.lb[0]) : 0.5);
      c.obj.scale = 1.0; c.obj.shift = 0.0;
      if (c.gpt) // a box of one width
	for (int i=0;i<c.n;i++) { double w = 4.0; c.lb[i] = -2.0; c.ub[i] = c.lb[i]+w; c.x0[i] = -2.0+w*g.uniform(0.2,0.8); c.sigma = c.scaled() ? 2.0 : 0.8; }
      c.obj.c.clear();
      for (int i=0;i<c.n;i++) c.obj.c.push_back(g.uniform(-1,1));
    }
  // interval of values that the bound transform leaves unchanged, in the space of x0.
  auto value = [&](int k)
    {
      if (!c.bounded()) return c.x0[k] + g.uniform(-3,3)*(c.gpt ? c.ub[k]-c.lb[k] : 2.0);
      double s = 1.0, sh = 0.0;
      if (c.gpt == 3) { s = c.scal_ctor ? c.scal[k] : 10.0/(c.ub[k]-c.lb[k]); sh = c.scal_ctor ? c.shft[k] : 10.0-s*c.ub[k]; }
      double l = c.gpt == 3 && !c.scal_ctor ? 0.0 : s*c.lb[k]+sh, u = c.gpt == 3 && !c.scal_ctor ? 10.0 : s*c.ub[k]+sh;
      double al = std::min((u-l)/2.0,(1.0+std::fabs(l))/20.0), au = std::min((u-l)/2.0,(1.0+std::fabs(u))/20.0);
      double t = (l+al) + (u-au-l-al)*g.uniform(0.001,0.999);
      return (t-sh)/s;
    };
  // a history of freezing and unfreezing; the map is the model.
  std::vector<std::pair<int,std::pair<bool,double>>> ops;
  std::map<int,double> model;
  int nops = g.range(1,6);
  std::ostringstream h;
  for (int i=0;i<nops;i++)
    {
      int k = g.draw(c.n-1);
      bool set = !g.chance(1,4);
      double v = value(k);
      if (set && !model.count(k) && (int)model.size() == c.n-1) continue; // one parameter stays free
      ops.push_back({k,{set,v}});
      if (set) { model[k] = v; h << " fix(" << k << "," << str(v) << ")"; }
      else { model.erase(k); h << " unfix(" << k << ")"; }
    }
  ctx.sample(c.describe() + h.str());
  c.fixed = model;
  labels(ctx,c);
  c.fixed.clear();
  if (conv) ctx.label("convergence");
  with_gp(c,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      auto rec = std::make_shared<Rec>();
      FitFunc f = recfunc(c,rec,&ctx);
      CMAParameters<GP> p = make_params<GP>(c);
      for (auto &q : ops)
	{
	  if (q.second.first) p.set_fixed_p(q.first,q.second.second);
	  else p.unset_fixed_p(q.first);
	}
      GP gp = p.get_gp();
      // the value the objective must see.
      auto want = [&](int k)
	{
	  double v = model[k];
	  if (c.custom) return cust_pheno(c,k,v);
	  return v;
	};
      auto tol = [&](int k)
	{
	  double w = std::fabs(want(k))+1e-12;
	  if (c.scaled())
	    {
	      double s = c.scal_ctor ? c.scal[k] : 10.0/(c.ub[k]-c.lb[k]), sh = c.scal_ctor ? c.shft[k] : 10.0-s*c.ub[k];
	      w += (std::fabs(sh)+10.0)/s;
	    }
	  if (c.custom) w += std::fabs(model[k])*std::fabs(c.ca[k])*3+std::fabs(c.cb[k])+1.0;
	  return 1e-14*w;
	};
      auto fixedok = [&](const dVec &x, const std::string &what, double slack)
	{
	  for (auto &q : model)
	    ctx.check(std::fabs(x(q.first)-want(q.first)) <= tol(q.first)*slack,what,[&]{ return what + ": parameter " + str(q.first) + " is " + str((double)x(q.first)) + " instead of " + str(want(q.first)); });
	};
      bool skip = c.custom && c.gpt != 0; // value of a frozen coordinate under custom map and bounds: only constancy is checked
      std::vector<CMASolutions> snaps;
      std::vector<size_t> nc;
      ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP>&, const CMASolutions &s)
	{
	  snaps.push_back(s);
	  nc.push_back(rec->n);
	  return 0;
	};
      CMASolutions sol = cmaes<GP>(f,p,pf,recgrad(c,rec));
      snaps.push_back(sol);
      size_t m = c.edm ? nc.back() : rec->calls.size();
      if (c.edm && c.family()) m = nc.size() > 1 ? nc[1] : nc[0]; // edm ends every run
      if (c.edm && c.elit == 3) m = nc.size() > 1 ? nc[1] : nc[0];
      for (size_t i=0;i<m;i++)
	{
	  if (!skip) fixedok(toe(rec->calls[i].x),"evaluated",1.0);
	  else
	    for (auto &q : model)
	      ctx.check(close(rec->calls[i].x[q.first],rec->calls[0].x[q.first],1e-12,1e-14*(c.gpt ? std::fabs(c.lb[q.first])+std::fabs(c.ub[q.first]) : 1.0)),"constant",[&]{ return "parameter " + str(q.first) + " moved from " + str(rec->calls[0].x[q.first]) + " to " + str(rec->calls[i].x[q.first]); });
	}
      for (auto &s : snaps)
	{
	  if (s.niter() == 0 || skip) continue;
	  fixedok(gp.pheno(s.best_candidate().get_x_dvec()),"best",1.0);
	  fixedok(gp.pheno(s.get_best_seen_candidate().get_x_dvec()),"best-seen",1.0);
	  fixedok(gp.pheno(s.get_worst_seen_candidate().get_x_dvec()),"worst-seen",1.0);
	  for (int k=0;k<s.size();k++) fixedok(gp.pheno(s.get_candidate(k).get_x_dvec()),"candidate",1.0);
	  fixedok(gp.pheno(s.xmean()),"mean",100.0);
	}
      // free parameters vary in the first population (two candidates at least are plain draws).
      size_t first = nc.size() > 1 ? nc[1] : rec->calls.size();
      if (sol.niter() > 0 && first > 2)
	for (int k=0;k<c.n;k++)
	  {
	    if (model.count(k)) continue;
	    bool vary = false;
	    for (size_t i=1;i<first;i++) if (rec->calls[i].x[k] != rec->calls[0].x[k]) vary = true;
	    // all genotypes may fall on one end of the box only for a wild step-size.
	    for (int j=0;j+1<snaps[1].size() && !vary;j++) if (snaps[1].get_candidate(j).get_x_dvec()(k) != snaps[1].get_candidate(j+1).get_x_dvec()(k)) vary = true;
	    ctx.check(vary,"free",[&]{ return "free parameter " + str(k) + " does not vary"; });
	  }
      if (conv && !c.elit)
	for (int k=0;k<c.n;k++)
	  if (!model.count(k))
	    {
	      dVec x = gp.pheno(sol.get_best_seen_candidate().get_x_dvec());
	      ctx.check(std::fabs(x(k)-c.obj.c[k]) < 0.01,"optimised",[&]{ return "free parameter " + str(k) + " ended at " + str((double)x(k)) + ", optimum at " + str(c.obj.c[k]) + ", status " + str(sol.run_status()) + " after " + str(sol.niter()) + " iterations"; });
	    }
      ctx.nontrivial(!model.empty() && sol.niter() >= 2);
      if (ops.size() > 2 && !model.empty()) ctx.label("history");
    });
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C06","A case is a history of freezing and unfreezing parameters (replayed on a map as model) followed by a recorded run of one of the 15 algorithms; every evaluated point and every reported point must have the model's values in the frozen coordinates, free coordinates must vary, and in long runs on a sphere the free coordinates must reach the optimum. Non-trivial: at least one parameter is frozen and the run lasted two iterations.",prop,40000,100000000});
}
