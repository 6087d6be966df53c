// C08: candidates are draws from N(m, sigma^2 C); injected candidates are where their definitions put them.
#include "reference.hpp"

template <class Upd, class GP> void body(Gen &g, Ctx &ctx, const Cfg &c, int T, int N)
{
  (void)g;
  auto rec = std::make_shared<Rec>();
  rec->store = false;
  FitFunc f = recfunc(c,rec,&ctx);
  CMAParameters<GP> p = make_params<GP>(c);
  if (c.sep()) p.set_sep();
  if (c.vd()) p.set_vd();
  ESOptimizer<CMAStrategy<Upd,GP>,CMAParameters<GP>,CMASolutions> opt(f,p);
  GradFunc gf = recgrad(c,rec);
  if (gf) opt.set_gradient_func(gf);
  GP gp = p.get_gp();
  RefPar rp(c.n,p.lambda(),c,c.fixed.size());
  int eigit = 0;
  dMat Cdec;
  dVec prev;
  for (int t=0;t<T;t++)
    {
      const CMASolutions &s = opt.get_solutions();
      if (!c.sep() && !c.vd() && (t == 0 || !c.lazy || t-eigit > rp.lazy)) { Cdec = s.cov(); eigit = t; }
      prev = s.xmean();
      dMat x = opt.ask();
      opt.eval(x,gp.pheno(x));
      opt.tell();
      opt.inc_iter();
    }
  CMASolutions s = opt.get_solutions();
  dVec m = s.xmean();
  double sg = s.sigma();
  dMat C;
  if (c.vd() || c.sep()) C = s.full_cov();
  else
    {
      if (T == 0 || !c.lazy || T-eigit > rp.lazy) Cdec = s.cov();
      else ctx.label("lazy-skipped");
      C = Cdec;
    }
  Eigen::SelfAdjointEigenSolver<dMat> es(C,Eigen::EigenvaluesOnly);
  double mn = es.eigenvalues().minCoeff(), mx = es.eigenvalues().maxCoeff();
  if (!(mn > 0) || mx/mn > 1e9 || !(3e-16*m.cwiseAbs().maxCoeff()/sg/std::sqrt(mn) < 1e-7)) { ctx.label("ill-conditioned"); return; }
  std::vector<int> fr;
  for (int i=0;i<c.n;i++) if (!c.fixed.count(i)) fr.push_back(i);
  int nf = fr.size();
  dMat Cf(nf,nf);
  for (int i=0;i<nf;i++) for (int j=0;j<nf;j++) Cf(i,j) = C(fr[i],fr[j]);
  Eigen::LLT<dMat> llt(Cf);
  dMat isq;
  {
    Eigen::SelfAdjointEigenSolver<dMat> e2(C);
    isq = e2.operatorInverseSqrt();
  }
  bool tpa = c.tpa == 2 && T > 0;
  bool gr = c.grad;
  int lo = 0;
  if (gr) lo = 1;
  if (tpa) lo += 2;
  int lambda = p.lambda();
  if (lambda-lo < 1) return;
  std::vector<dVec> Z;
  std::vector<double> tr;
  dVec gradc;
  if (gr)
    {
      dVec ph = gp.pheno(m);
      dVec gv = c.obj.grad(ph.data(),c.n);
      if (c.maxi) gv = -gv;
      gradc = gv; // without a transform the derivative of the transform is 1
    }
  int R = (N+lambda-lo-1)/(lambda-lo);
  for (int r=0;r<R;r++)
    {
      dMat x = opt.ask();
      ctx.check(x.cols() == lambda && x.rows() == c.n,"shape",[&]{ return "ask() gives " + str((int)x.rows()) + " x " + str((int)x.cols()); });
      for (int j=0;j<lambda;j++)
	for (auto &q : c.fixed)
	  {
	    double v = q.second;
	    if (c.scaled())
	      {
		double sc = c.scal_ctor ? c.scal[q.first] : 10.0/(c.ub[q.first]-c.lb[q.first]), sh = c.scal_ctor ? c.shft[q.first] : 10.0-sc*c.ub[q.first];
		v = sc*v+sh;
	      }
	    ctx.check(close(x(q.first,j),v,1e-12,1e-12*(1+std::fabs(v))+1e-9),"frozen",[&]{ return "frozen coordinate at " + str((double)x(q.first,j)) + " instead of " + str(v); });
	  }
      for (int j=lo;j<lambda;j++)
	{
	  dVec d(nf);
	  for (int i=0;i<nf;i++) d(i) = (x(fr[i],j)-m(fr[i]))/sg;
	  Z.push_back(dVec(llt.matrixL().solve(d)));
	}
      if (gr && c.fixed.empty() && !c.lazy && gradc.norm() > 0)
	{
	  dVec w = m - sg*std::sqrt(c.n/gradc.dot(C*gradc))*(C*gradc);
	  double e = (isq*(dVec(x.col(0))-w)).norm()/sg;
	  ctx.check(e < 1e-5,"gradient-candidate",[&]{ return "gradient candidate " + str(dVec(x.col(0))) + " instead of " + str(w) + ", gradient " + str(gradc); });
	  ctx.label("gradient-candidate-checked");
	}
      if (tpa && c.fixed.empty())
	{
	  int k = gr ? 1 : 0;
	  dVec a = x.col(k), b = x.col(k+1), sh = m-prev;
	  if (sh.norm() > 1e-10*sg*std::sqrt(mn) && (isq*sh).norm() > 1e-6*sg)
	    {
	      dVec za = isq*(a-m)/sg, zb = isq*(b-m)/sg, zs = isq*sh/sg;
	      zs /= zs.norm();
	      ctx.check((za+zb).norm() < 1e-5,"tpa-symmetric",[&]{ return "two-point candidates are not symmetric about the mean"; });
	      ctx.check((za-zs*za.dot(zs)).norm() < 1e-5*(1+za.norm()),"tpa-direction",[&]{ return "two-point candidates are not along the shift of the mean"; });
	      ctx.check(za.dot(zs) >= 0,"tpa-first",[&]{ return "the first two-point candidate is not in the direction of the shift"; });
	      tr.push_back(za.squaredNorm());
	    }
	}
    }
  // moments and distribution of the whitened draws; thresholds beyond 7 standard errors.
  int M = Z.size();
  double sq = std::sqrt((double)M);
  for (int i=0;i<nf;i++)
    {
      double s1 = 0, s2 = 0, lag = 0;
      std::vector<double> u(M);
      for (int k=0;k<M;k++)
	{
	  s1 += Z[k](i); s2 += Z[k](i)*Z[k](i);
	  if (k) lag += Z[k](i)*Z[k-1](i);
	  u[k] = 0.5*std::erfc(-Z[k](i)/std::sqrt(2.0));
	}
      ctx.check(std::fabs(s1/M)*sq < 7,"mean",[&]{ return "whitened coordinate " + str(i) + " has mean " + str(s1/M) + " over " + str(M) + " draws"; });
      ctx.check(std::fabs(s2/M-1)*sq/std::sqrt(2.0) < 8,"variance",[&]{ return "whitened coordinate " + str(i) + " has variance " + str(s2/M) + " over " + str(M) + " draws"; });
      ctx.check(std::fabs(lag/M)*sq < 8,"lag",[&]{ return "successive candidates are correlated in coordinate " + str(i) + ": " + str(lag/M); });
      std::sort(u.begin(),u.end());
      double D = 0;
      for (int k=0;k<M;k++) D = std::max(D,std::max(std::fabs(u[k]-(double)k/M),std::fabs(u[k]-(k+1.0)/M)));
      ctx.check(D*sq < 3.7,"distribution",[&]{ return "whitened coordinate " + str(i) + " is not normal: Kolmogorov distance " + str(D) + " over " + str(M) + " draws"; });
      for (int j=0;j<i;j++)
	{
	  double cr = 0, cl = 0;
	  for (int k=0;k<M;k++) { cr += Z[k](i)*Z[k](j); if (k) cl += Z[k](i)*Z[k-1](j); }
	  ctx.check(std::fabs(cr/M)*sq < 8,"correlation",[&]{ return "whitened coordinates " + str(i) + " and " + str(j) + " have correlation " + str(cr/M) + " over " + str(M) + " draws"; });
	  ctx.check(std::fabs(cl/M)*sq < 8,"lag",[&]{ return "successive candidates are correlated: " + str(cl/M); });
	}
    }
  if (tr.size() > 50)
    {
      double a = 0;
      for (double v : tr) a += v;
      a /= tr.size();
      ctx.label("tpa-checked");
      ctx.check(std::fabs(a-c.n)/std::sqrt(2.0*c.n/tr.size()) < 8,"tpa-length",[&]{ return "mean squared length of the two-point step " + str(a) + " instead of " + str(c.n) + " over " + str(tr.size()) + " draws"; });
    }
  ctx.nontrivial(T >= 3 && M >= 1000);
}

// the runs of a restarting search, and its iterations, do not repeat their draws.
static void repeats(Gen &g, Ctx &ctx)
{
  GOpt o;
  o.algos = {1,2,4,5,7,8,10,11,13,14,0,3,6,9,12};
  o.mindim = 2; o.grad = false; o.tpa = false; o.edm = false; o.maxiter = 10;
  Cfg c = gen_cfg(g,o);
  if (c.lambda > 12) c.lambda = 12;
  if (c.family()) c.restarts = g.range(2,4); else c.elit = 3;
  if (c.elit == 3) c.max_fev = 2000;
  ctx.label("repeats");
  labels(ctx,c);
  ctx.sample("restarts: " + c.describe());
  with_gp(c,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      Res r = run<GP>(c,&ctx);
      std::vector<std::pair<dVec,size_t>> Z;
      int runs = 0;
      for (size_t i=1;i<r.snaps.size();i++)
	{
	  CMASolutions &s = r.snaps[i], &q = r.snaps[i-1];
	  if (s.niter() != 1) continue; // the first draws of a run, from the identity (but for v in VD-CMA, the same for all runs).
	  ++runs;
	  for (int k=0;k<s.size();k++)
	    {
	      dVec z = (s.get_candidate(k).get_x_dvec()-q.xmean())/q.sigma();
	      double res = 1e-15*q.xmean().cwiseAbs().maxCoeff()/q.sigma();
	      for (auto &y : Z)
		ctx.check((z-y.first).cwiseAbs().maxCoeff() > 1e-8*z.norm()+100*res || !(res < 1e-9),"repeated",[&]{ return "iteration 1 of run " + str(runs) + " repeats the draw " + str(z) + " of run " + str(y.second); });
	    }
	  for (int k=0;k<s.size() && Z.size()<400;k++)
	    Z.push_back({dVec((s.get_candidate(k).get_x_dvec()-q.xmean())/q.sigma()),(size_t)runs});
	}
      ctx.nontrivial(runs > 1);
    });
}

static void prop(Gen &g, Ctx &ctx)
{
  if (g.chance(1,5)) { repeats(g,ctx); return; }
  GOpt o;
  o.algos = {0,3,6,9,12};
  o.noisy = true; o.mt = false; o.edm = false; o.initf = false; o.maxdim = 6;
  Cfg c = gen_cfg(g,o);
  c.restarts = -1;
  int T = g.range(0,25);
  if (c.lazy) { T = g.range(2,12); c.n = std::max(c.n,c.vd() ? 6 : 1); }
  if (!c.grad && c.obj.smooth() && g.chance(1,4)) c.grad = true;
  if (c.grad)
    {
      c.gpt = 0; c.custom = c.scal_ctor = false; c.ugrad = true;
      if (!c.obj.smooth()) c.obj.kind = O_ELLI;
      c.obj.scale = 1.0;
    }
  c.elit = c.elit == 3 ? 0 : c.elit;
  if (c.elit) c.elit = 0; // initial value is set up by optimize()
  if (c.lambda > 0 && c.lambda < 5) c.lambda = 5;
  if (c.n > 1 && g.chance(1,6)) { int k = g.draw(c.n-1); c.fixed[k] = c.gpt ? 0.5*(c.lb[k]+c.ub[k]) : 0.3; }
  if (c.custom && !c.fixed.empty()) c.fixed.clear();
  labels(ctx,c);
  int N = g.size() > 1 ? 40000 : 3000;
  ctx.sample(c.describe() + " iterations-before=" + std::to_string(T) + " draws=" + std::to_string(N));
  with_gp(c,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      if (c.vd()) body<VDCMAUpdate,GP>(g,ctx,c,T,N);
      else if (c.active()) body<ACovarianceUpdate,GP>(g,ctx,c,T,N);
      else body<CovarianceUpdate,GP>(g,ctx,c,T,N);
    });
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C08","A case drives an optimiser by hand for up to 25 iterations, then asks for at least 3000 candidates (40000 in the thorough tier) without telling; the draws, whitened by the current mean, step-size and covariance (of the last decomposition under lazy updates), must have the moments, correlations, lag correlations and distribution of independent standard normals (thresholds beyond 7 standard errors), and the gradient, two-point and frozen slots must be at their defined places. One case in five is a complete restarting search instead, in which no run may repeat a draw of an earlier one. Non-trivial: at least 3 iterations were made before and at least 1000 plain draws tested, or more than one run was made.",prop,40000,100000000});
}
