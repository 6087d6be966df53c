// C18: uncertainty handling: re-evaluations, re-ranking and step-size increase, against a model of their definitions.
#include "reference.hpp"

static void prop(Gen &g, Ctx &ctx)
{
  GOpt o;
  o.algos = {0,3,6,9,12,0,3,6,9,12,1,2,4,5,7,8,10,11,13,14};
  o.noisy = true; o.mt = false; o.edm = false; o.elit = false; o.grad = false;
  o.maxiter = g.size() > 1 ? 80 : 30;
  bool lng = g.chance(1,16);
  if (lng) { o.maxdim = 3; o.algos = {0,3,6,9}; }
  Cfg c = gen_cfg(g,o);
  c.uh = true;
  if (c.family()) { c.restarts = g.range(1,4); c.max_iter = std::min(c.max_iter,12); if (c.lambda > 12) c.lambda = 12; }
  if (g.chance(1,2)) c.obj.noise = g.logu(1e-6,1e2);
  if (c.obj.smooth() && g.chance(1,6)) { c.grad = c.ugrad = true; }
  if (g.chance(1,3) && !c.family()) c.lambda = g.range(16,60);
  if (lng)
    {
      c.lambda = g.range(21,60); c.max_iter = 250;
      for (int i=0;i<=14;i++) c.crit.push_back({i,i == MAXITER});
    }
  if (c.n > 1 && g.chance(1,6)) { int k = g.draw(c.n-1); c.fixed[k] = c.gpt ? 0.5*(c.lb[k]+c.ub[k]) : 0.3; }
  if (c.tpa == 2 && c.grad && c.lambda > 0 && c.lambda < 4) c.lambda = 4;
  labels(ctx,c);
  if (lng) ctx.label("long");
  ctx.sample(c.describe());
  int ranked = 0, changed = 0, sig = 0;
  with_gp(c,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      Res r = run<GP>(c,&ctx);
      GP gp = make_params<GP>(c).get_gp();
      RefState st;
      int eigit = 0;
      double run_tol = 0;
      auto load = [&](const CMASolutions &s)
	{
	  st.m = s.xmean(); st.sigma = s.sigma();
	  if (c.sep() || c.vd()) st.C = s.sepcov(); else st.C = s.cov();
	  if (c.vd()) { dVec v = recover_v(s.full_cov(),dVec(s.sepcov().col(0))); st.v = v; }
	};
      bool live = false;
      double chi = 0, dof = 0, zs = 0, zz = 0, zc = 0, nz = 0, nzz = 0, Rsum = 0, Rexp = 0, Rn = 0;
      for (size_t i=0;i<r.snaps.size();i++)
	{
	  CMASolutions &s = r.snaps[i];
	  if (s.niter() == 0)
	    {
	      st = RefState();
	      st.ps = st.pc = dVec::Zero(c.n);
	      load(s);
	      eigit = 0;
	      live = true;
	      run_tol = 0;
	      continue;
	    }
	  std::string at = "iteration " + str(s.niter()) + ": ";
	  const CMASolutions &q = r.snaps[i-1];
	  int la = r.lambdas[i];
	  // evaluations of this iteration: the population, then the re-evaluations.
	  size_t b = r.ncalls[i-1], e = r.ncalls[i];
	  double rl = std::max(0.1,2.0/la)*la;
	  int R = (int)(e-b)-la;
	  ctx.check(R >= 1 && R >= std::floor(rl-1e-9) && R <= std::ceil(rl+1e-9),"reevaluations",[&]{ return at + str(R) + " re-evaluations with a population of " + str(la); });
	  Rsum += R; Rexp += rl; Rn++;
	  // the population is a permutation of what was evaluated.
	  std::vector<dVec> X;
	  std::vector<int> idx(la,-1);
	  std::vector<bool> used(la,false);
	  dVec raw;
	  ctx.check(s.size() == la,"population-size",[&]{ return at + "population of " + str(s.size()); });
	  double sg = c.maxi ? -1 : 1;
	  bool ambiguous = false;
	  for (int k=0;k<la;k++)
	    {
	      X.push_back(s.get_candidate(k).get_x_dvec());
	      dv ph = tov(gp.pheno(X[k]));
	      for (int j=0;j<la;j++)
		if (!used[j] && same(ph,r.calls()[b+j].x) && samebits(sg*r.calls()[b+j].f,s.get_candidate(k).get_fvalue())) { idx[k] = j; used[j] = true; break; }
	      ctx.check(idx[k] >= 0,"permutation",[&]{ return at + "ranked candidate " + str(k) + " at " + str(ph) + " with value " + str(s.get_candidate(k).get_fvalue()) + " is not one of the candidates evaluated, each used once"; });
	    }
	  // re-evaluated points are the first candidates, hardly moved.
	  std::vector<dVec> G(la);
	  for (int k=0;k<la;k++) G[idx[k]] = X[k];
	  for (int j=0;j<R;j++)
	    {
	      const dv &y = r.calls()[b+la+j].x, &x = r.calls()[b+j].x;
	      double step = 1e-7*q.sigma()*10;
	      double d2 = 0;
	      for (int k=0;k<c.n;k++)
		{
		  double L = 1; // slope of the transform
		  if (c.custom) L *= 2*c.ca[k];
		  if (c.scaled()) L /= c.scal_ctor ? c.scal[k] : 10.0/(c.ub[k]-c.lb[k]);
		  L *= 1.5;
		  double d = std::fabs(x[k]-y[k]), mag = std::max(std::fabs(x[k]),std::max(std::fabs(G[j](k))*L,c.gpt ? std::max(std::fabs(c.lb[k]),std::fabs(c.ub[k])) : 0.0));
		  if (c.fixed.count(k)) ctx.check(d == 0,"moved-fixed",[&]{ return at + "re-evaluation " + str(j) + " moves the fixed parameter " + str(k); });
		  ctx.check(d <= step*L+1e-13*mag,"far",[&]{ return at + "re-evaluation " + str(j) + " at " + str(y) + " is not next to candidate " + str(x) + ", step-size " + str(q.sigma()); });
		  d2 = std::max(d2,d);
		}
	      if (c.gpt == 0 && !c.custom && c.fixed.empty() && 3e-16*toe(x).cwiseAbs().maxCoeff() < 1e-4*1e-7*q.sigma())
		{
		  dVec z = (toe(y)-toe(x))/(1e-7*q.sigma());
		  dVec z0 = (toe(x)-q.xmean())/q.sigma(); z0 *= std::sqrt(c.n)/std::max(z0.norm(),1e-300);
		  chi += z.squaredNorm(); dof += c.n;
		  zs += z.sum(); nz += c.n;
		  zc += z.dot(z0); 
		  if (raw.size()) { zz += z.dot(raw); nzz += c.n; }
		  raw = z;
		}
	    }
	  // ranks.
	  std::vector<double> f(la), h(la);
	  for (int j=0;j<la;j++) { f[j] = sg*r.calls()[b+j].f; h[j] = j < R ? sg*r.calls()[b+la+j].f : f[j]; }
	  auto ranks = [&](const std::vector<double> &v)
	    {
	      std::vector<int> rk(la,0);
	      for (int j=0;j<la;j++) for (int k=0;k<la;k++) { if (v[k] < v[j]) rk[j]++; if (k != j && !(v[k] < v[j]) && !(v[j] < v[k])) ambiguous = true; }
	      return rk;
	    };
	  std::vector<int> r1 = ranks(f), r2 = ranks(h);
	  std::vector<double> dl(la,0.0);
	  double md = 0;
	  auto sgn = [](int v) { return v > 0 ? 1 : (v < 0 ? -1 : 0); };
	  for (int j=0;j<R;j++) { int df = r2[j]-r1[j]; dl[j] = std::fabs((double)(df-sgn(df))); md += dl[j]; }
	  md /= R;
	  for (int j=R;j<la;j++) dl[j] = md;
	  double suh = 0;
	  auto lim = [&](double d)
	    {
	      std::vector<double> v;
	      for (int j=1;j<2*la;j++) v.push_back(std::fabs(j-d));
	      std::sort(v.begin(),v.end());
	      return v[(int)(v.size()*(0.2*0.5))];
	    };
	  for (int j=0;j<R;j++) suh += 2*dl[j]-lim(r2[j]-(r2[j] > r1[j]))-lim(r1[j]-(r1[j] > r2[j]));
	  suh /= R;
	  if (ambiguous) ctx.label("ties");
	  else
	    {
	      bool ch = false;
	      for (int j=0;j<la;j++) ch = ch || r1[j] != r2[j];
	      for (int k=1;k<la;k++)
		{
		  int u = idx[k-1], v = idx[k];
		  int su = r1[u]+r2[u], sv = r1[v]+r2[v];
		  bool ok = su < sv || (su == sv && (dl[u] < dl[v] || (dl[u] == dl[v] && f[u]+h[u] <= f[v]+h[v])));
		  if (!ok && su == sv && std::fabs(dl[u]-dl[v]) < 1e-9 && dl[u] != dl[v]) ok = true; // rounding of the mean change
		  ctx.check(ok,"order",[&]{ return at + "candidates " + str(u) + " and " + str(v) + " of " + str(la) + " in that order have sums of ranks " + str(su) + "," + str(sv) + " changes " + str(dl[u]) + "," + str(dl[v]) + " values " + str(f[u]) + "," + str(f[v]) + " re-evaluated " + str(h[u]) + "," + str(h[v]) + " (" + str(R) + " re-evaluated)"; });
		}
	      ranked++;
	      if (ch) changed++;
	    }
	  // step-size.
	  if (!live) continue;
	  load(q);
	  int t = q.niter();
	  RefPar p(c.n,la,c,c.fixed.size());
	  if (t == 0 || !c.lazy || t-eigit > p.lazy) { st.Cdec = st.C; eigit = t; }
	  double cond = 1, mn = 1;
	  if (c.sep() || c.vd()) { mn = st.C.minCoeff(); cond = st.C.maxCoeff()/mn; if (c.vd()) cond *= cond*(1+st.v.squaredNorm()); }
	  else
	    {
	      Eigen::SelfAdjointEigenSolver<dMat> es(st.Cdec,Eigen::EigenvaluesOnly);
	      mn = es.eigenvalues().minCoeff();
	      cond = es.eigenvalues().maxCoeff()/mn;
	    }
	  if (!(mn > 0) || !(cond < 1e11)) { live = false; continue; }
	  double rel = 3e-16*std::max(s.xmean().cwiseAbs().maxCoeff(),q.xmean().cwiseAbs().maxCoeff())/st.sigma/std::sqrt(mn);
	  run_tol = std::max(run_tol*0.98,1e-10+1e-14*cond+1e2*rel);
	  if (!(run_tol < 1e-5)) { live = false; continue; }
	  double rd = 0;
	  if (c.tpa == 2 && t > 0)
	    {
	      int first = c.grad && la > 2 ? 1 : 0, a1 = -1, a2 = -1;
	      for (int k=0;k<la;k++) { if (idx[k] == first) a1 = k; if (idx[k] == first+1) a2 = k; }
	      rd = a2-a1;
	      for (int j=0;j<la;j++) for (int k=first;k<=first+1;k++) if (j != k && same(r.calls()[b+j].x,r.calls()[b+k].x)) live = false;
	      if (!live) continue;
	    }
	  double bad;
	  ref_update(p,st,X,t,rd,-1,bad);
	  if (!(run_tol*(1+bad*bad) < 1e-5)) { live = false; continue; }
	  double want = st.sigma*(suh > 0 ? 1+2.0/(c.n+10) : 1.0);
	  if (!ambiguous && (suh != 0 || (R&(R-1)) == 0))
	    {
	      ctx.check(std::fabs(std::log(want/s.sigma())) <= 10*run_tol*(1+bad*bad),"sigma",[&]{ return at + "step-size " + str(s.sigma()) + " instead of " + str(want) + ", uncertainty " + str(suh) + " from " + str(R) + " re-evaluations, dimension " + str(c.n); });
	      if (suh > 0) sig++;
	    }
	  else
	    {
	      double a1 = std::fabs(std::log(st.sigma/s.sigma())), a2 = std::fabs(std::log(st.sigma*(1+2.0/(c.n+10))/s.sigma()));
	      ctx.check(std::min(a1,a2) <= 10*run_tol*(1+bad*bad),"sigma",[&]{ return at + "step-size " + str(s.sigma()) + " is neither " + str(st.sigma) + " nor that increased"; });
	    }
	}
      if (dof >= 100)
	{
	  ctx.label("perturbation-moments");
	  ctx.check(std::fabs(chi/dof-1)*std::sqrt(dof/2) < 9,"perturbation-size",[&]{ return "mean squared length of the perturbations " + str(chi/dof) + " instead of 1 over " + str(dof); });
	  ctx.check(std::fabs(zs)/std::sqrt(nz) < 8,"perturbation-mean",[&]{ return "perturbations have mean " + str(zs/nz) + " over " + str(nz); });
	  ctx.check(std::fabs(zz)/std::sqrt(nzz+1) < 9,"perturbation-correlated",[&]{ return "perturbations of successive candidates are correlated: " + str(zz/nzz) + " over " + str(nzz); });
	  // selection does not act on the draws of the candidates re-evaluated.
	  ctx.check(std::fabs(zc)/std::sqrt(dof) < 12,"perturbation-candidate",[&]{ return "perturbations are correlated with the candidates: " + str(zc/dof) + " over " + str(dof); });
	}
      if (Rn >= 100)
	{
	  ctx.label("reevaluation-rate");
	  ctx.check(std::fabs(Rsum-Rexp) <= 3.9*std::sqrt(Rn),"rate",[&]{ return str(Rsum) + " re-evaluations in " + str(Rn) + " iterations instead of " + str(Rexp) + " on average"; });
	}
    });
  if (changed) ctx.label("ranks-changed");
  if (sig) ctx.label("step-size-increased");
  ctx.nontrivial(ranked >= 3);
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C18","A case is a recorded run with uncertainty handling of one of the 15 algorithms on a generated problem, with or without a noise term that depends on every bit of the point; in every iteration the re-evaluations (number, points), the ranking and the step-size are compared with a model of their definitions, and over the run the distribution of the perturbations and the rate of re-evaluations with their expectation. Non-trivial: at least three iterations whose ranking the model decides without ties.",prop,30000,100000000});
}
