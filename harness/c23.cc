// C23: numerical gradients and the expected distance to the minimum, against analytic derivatives.
#include "common.hpp"
#include <Eigen/Eigenvalues>

// bound of the second derivative along a coordinate, near x.
static double curv(const Obj &o, const double *x, int n, int i)
{
  double z = std::fabs(x[i]-(i < (int)o.c.size() ? o.c[i] : 0.0))+1e-6*(1+std::fabs(x[i]));
  switch (o.kind)
    {
    case O_SPHERE: return 2*o.scale;
    case O_ELLI: return 2*std::pow(100.0,n>1 ? i/(n-1.0) : 0.0)*o.scale;
    case O_QUART: return (12*z*z+2)*o.scale;
    default: return 0.0;
    }
}
// magnitude of the terms of the objective, for the rounding of its values.
static double magn(const Obj &o, const double *x, int n)
{
  double s = 0;
  for (int i=0;i<n;i++)
    {
      double c = i < (int)o.c.size() ? o.c[i] : 0.0, z = std::fabs(x[i]-c), m = std::fabs(x[i])+std::fabs(c);
      switch (o.kind)
	{
	case O_SPHERE: s += z*z; break;
	case O_ELLI: s += std::pow(100.0,n>1 ? i/(n-1.0) : 0.0)*z*z; break;
	case O_QUART: s += z*z*z*z+z*z; break;
	default: s += (i+1)*m; break;
	}
    }
  return o.scale*s+std::fabs(o.shift);
}

// error allowed for the numerical derivative.
static dVec gtol(const Cfg &c, const double *x)
{
  dVec t(c.n), g = c.obj.grad(x,c.n);
  for (int i=0;i<c.n;i++)
    {
      double h = 1e-8*(1+std::fabs(x[i]));
      if (c.bounded()) h = std::min(h,c.ub[i]-c.lb[i]);
      double u = 2.3e-16*(std::fabs(x[i])+(i < (int)c.obj.c.size() ? std::fabs(c.obj.c[i]) : 0.0)); // rounding of the point and of its distance to the centre
      t(i) = curv(c.obj,x,c.n,i)*(h+u) + 4*(c.n+4)*2.3e-16*magn(c.obj,x,c.n)/h + 4*std::fabs(g(i))*u/h + 1e-12*std::fabs(g(i)) + 1e-300;
    }
  return t;
}

// derivative of the transform by coordinate, and its uncertainty.
template <class GP> void dpheno(const Cfg &c, const GP &gp, const dVec &x, dVec &d, dVec &tol)
{
  dVec e = 1e-6*(dVec::Constant(c.n,1.0)+x.cwiseAbs());
  for (int i=0;i<c.n;i++)
    {
      double w = !c.bounded() ? 1e300 : (c.ub[i]-c.lb[i])*(c.scal_ctor ? c.scal[i] : (c.scaled() ? 10/(c.ub[i]-c.lb[i]) : 1.0));
      e(i) = std::max(std::min(e(i),1e-3*w),1e-8*(1+std::fabs(x(i))));
    }
  auto ph = [&](double k) { return dVec(gp.pheno(dVec(x+k*e))); };
  dVec p0 = ph(0), p1 = ph(1), m1 = ph(-1), p2 = ph(4), m2 = ph(-4);
  d = (p1-m1).cwiseQuotient(2*e);
  dVec d4 = (p2-m2).cwiseQuotient(8*e), up = (p2-p0).cwiseQuotient(4*e), dn = (p0-m2).cwiseQuotient(4*e);
  tol = dVec(c.n);
  for (int i=0;i<c.n;i++)
    {
      double slope = std::max({std::fabs(d(i)),std::fabs(up(i)),std::fabs(dn(i))});
      double mag = std::fabs(p0(i))+slope*std::fabs(x(i));
      if (c.gpt) mag += std::fabs(c.lb[i])+std::fabs(c.ub[i]);
      if (c.scal_ctor) mag += (std::fabs(c.shft[i])+std::fabs(x(i)))/c.scal[i];
      if (c.custom) mag += std::fabs(c.cb[i]);
      tol(i) = 2*std::fabs(d4(i)-d(i)) + std::fabs(up(i)-dn(i)) + 30*2.3e-16*mag/(1e-8*(1+std::fabs(x(i)))) + 1e-9*slope;
    }
}

// analytic gradient in the search space at the mean, with its uncertainty.
template <class GP> void fullgrad(const Cfg &c, const GP &gp, const dVec &m, bool numeric, dVec &g, dVec &tol)
{
  dVec ph = gp.pheno(m), d, dt;
  dVec gf = c.obj.grad(ph.data(),c.n), gt = numeric ? gtol(c,ph.data()) : dVec(dVec::Zero(c.n));
  if (c.maxi) gf = -gf;
  dpheno(c,gp,m,d,dt);
  g = gf.cwiseProduct(d);
  tol = gf.cwiseAbs().cwiseProduct(dt)+gt.cwiseProduct(d.cwiseAbs()+dt)+1e-12*g.cwiseAbs();
}

static double edm_factor(int n, int lambda) { return n/(10.0*(std::sqrt(lambda/4.0+0.5)-1.0)); }

static void check_edm(Ctx &ctx, const char *key, double got, int n, int lambda, double sigma, const dMat &C, const dVec &g, const dVec &tol)
{
  if (Eigen::SelfAdjointEigenSolver<dMat>(C).eigenvalues().minCoeff() < 0) { ctx.label("not-positive"); return; } // see C22: published active update, fast learning rates
  double k = edm_factor(n,lambda)*sigma;
  double want = k*std::sqrt(std::max(0.0,g.dot(C*g)));
  double err = 0;
  for (int i=0;i<n;i++) err += tol(i)*std::sqrt(std::max(0.0,C(i,i)));
  err = k*err + 1e-7*want;
  ctx.check(std::isfinite(got) && std::fabs(got-want) <= err,key,[&]{ return "expected distance " + str(got) + " instead of " + str(want) + " within " + str(err) + " (gradient " + str(g) + ")"; });
  if (err < 0.02*want) ctx.label("edm-sharp");
}

template <class Upd, class GP> void manual(Gen &g, Ctx &ctx, const Cfg &c)
{
  auto rec = std::make_shared<Rec>();
  FitFunc f = recfunc(c,rec,&ctx);
  CMAParameters<GP> p = make_params<GP>(c);
  if (c.sep()) p.set_sep();
  if (c.vd()) p.set_vd();
  ESOptimizer<CMAStrategy<Upd,GP>,CMAParameters<GP>,CMASolutions> opt(f,p);
  GradFunc gf = recgrad(c,rec);
  if (gf) opt.set_gradient_func(gf);
  GP gp = p.get_gp();
  double sg = c.maxi ? -1 : 1;
  int it = g.range(0,8), sharp = 0, pts = 0;
  dMat last = opt.get_solutions().full_cov();
  for (int i=0;i<=it;i++)
    {
      // the gradient, at points of the box and on its faces.
      for (int k=0;k<2;k++)
	{
	  dVec x(c.n);
	  dVec m = gp.pheno(opt.get_solutions().xmean());
	  for (int j=0;j<c.n;j++)
	    {
	      double l = c.bounded() ? c.lb[j] : (c.gpt ? c.lb[j] : -3), u = c.bounded() ? c.ub[j] : (c.gpt ? c.ub[j] : 3);
	      switch (g.draw(4))
		{
		case 0: x(j) = std::min(std::max(m(j),c.bounded() ? l : m(j)),c.bounded() ? u : m(j)); break;
		case 1: x(j) = l; break;
		case 2: x(j) = u; break;
		default: x(j) = l+(u-l)*g.unit(); break;
		}
	    }
	  size_t before = rec->n, gb = rec->gcalls.size();
	  int fe = opt.get_solutions().fevals();
	  dVec v = opt.gradf(x);
	  ++pts;
	  dVec an = sg*c.obj.grad(x.data(),c.n);
	  ctx.check(v.size() == c.n,"size",[&]{ return "gradient of size " + str((int)v.size()); });
	  if (gf)
	    {
	      ctx.check(rec->n == before && rec->gcalls.size() == gb+1 && same(v,an),"given",[&]{ return "gradient " + str(v) + " at " + str(x) + " instead of the given one " + str(an); });
	      ctx.check(opt.get_solutions().fevals() == fe,"given-count",[&]{ return "a given gradient is counted as " + str(opt.get_solutions().fevals()-fe) + " evaluations"; });
	    }
	  else
	    {
	      dVec t = gtol(c,x.data());
	      for (int j=0;j<c.n;j++)
		{
		  ctx.check(std::fabs(v(j)-an(j)) <= t(j),"gradient",[&]{ return "derivative " + str(v(j)) + " by parameter " + str(j) + " at " + str(x) + " instead of " + str(an(j)) + " within " + str(t(j)); });
		  if (t(j) < 0.02*std::fabs(an(j))) ++sharp;
		}
	      ctx.check(opt.get_solutions().fevals()-fe == (int)(rec->n-before),"count",[&]{ return "numerical gradient of " + str((int)(rec->n-before)) + " evaluations counted as " + str(opt.get_solutions().fevals()-fe); });
	    }
	}
      // derivative of the transform.
      dVec m = opt.get_solutions().xmean();
      dVec d, t, v = opt.gradgp(m);
      dpheno(c,gp,m,d,t);
      for (int j=0;j<c.n;j++)
	{
	  ctx.check(std::fabs(v(j)-d(j)) <= t(j),"transform",[&]{ return "derivative " + str(v(j)) + " of the transform by parameter " + str(j) + " at " + str(m) + " instead of " + str(d(j)) + " within " + str(t(j)); });
	  if (t(j) < 0.02*std::fabs(d(j)) && (c.scaled() || c.custom || std::fabs(d(j)-1) > 0.05)) ctx.label("transform-sharp");
	}
      // expected distance.
      if (opt.get_solutions().size() > 2 && (i == it || g.chance(1,4)))
	{
	  dVec gr, tl;
	  fullgrad(c,gp,m,!gf,gr,tl);
	  dMat C = c.sep() || c.vd() ? opt.get_solutions().full_cov() : last;
	  if (c.lazy && !c.sep() && !c.vd() && i > 0) // a decomposition may be of an older covariance
	    C = opt.get_solutions().eigenvectors()*opt.get_solutions().eigenvalues().asDiagonal()*opt.get_solutions().eigenvectors().transpose();
	  double e = opt.edm();
	  check_edm(ctx,"edm",e,c.n,p.lambda(),opt.get_solutions().sigma(),C,gr,tl);
	  ctx.check(samebits(opt.get_solutions().edm(),e) || (e != e && opt.get_solutions().edm() != opt.get_solutions().edm()),"edm-stored",[&]{ return "expected distance " + str(e) + " stored as " + str(opt.get_solutions().edm()); });
	}
      if (i == it) break;
      last = opt.get_solutions().full_cov();
      dVec mm = opt.get_solutions().xmean();
      double sig = opt.get_solutions().sigma();
      dMat x = opt.ask();
      if (c.grad && !c.lazy)
	{
	  // the candidate along the gradient.
	  dVec gr, tl;
	  fullgrad(c,gp,mm,!gf,gr,tl);
	  double q = gr.dot(last*gr), en = 0;
	  for (int j=0;j<c.n;j++) en += tl(j)*std::sqrt(last(j,j));
	  double rel = en/std::sqrt(q);
	  if (q > 1e-250 && std::isfinite(q) && rel < 1e-3)
	    {
	      dVec w = -std::sqrt(c.n/q)*(last*gr), w2 = (x.col(0)-mm)/sig;
	      for (int j=0;j<c.n;j++)
		{
		  double tol = std::sqrt(c.n*last(j,j))*(4*rel+1e-7)+1e-13*std::fabs(mm(j))/sig;
		  ctx.check(std::fabs(w(j)-w2(j)) <= tol,"candidate",[&]{ return "candidate of the gradient at " + str(w2) + " step-sizes from the mean instead of " + str(w) + " within " + str(tol); });
		}
	      ctx.label("candidate-checked");
	    }
	}
      opt.eval(x,gp.pheno(x));
      opt.tell();
      opt.inc_iter();
      if (!opt.get_solutions().xmean().allFinite() || !opt.get_solutions().full_cov().allFinite()) break;
    }
  ctx.label("manual");
  ctx.nontrivial(gf ? pts >= 2 : sharp >= 2);
}

template <class GP> void whole(Gen &g, Ctx &ctx, Cfg c)
{
  Res r = run<GP>(c,&ctx);
  CMASolutions &s = r.sol;
  ctx.label("search");
  if (!s.xmean().allFinite() || !s.full_cov().allFinite()) ctx.discard();
  // the run this solution is from.
  int at = -1;
  for (int i=(int)r.snaps.size()-1;i>=0 && at<0;i--)
    if (r.snaps[i].niter() == s.niter() && r.snaps[i].sigma() == s.sigma() && same(r.snaps[i].xmean(),s.xmean())) at = i;
  if (at < 0) ctx.discard();
  CMAParameters<GP> p = make_params<GP>(c);
  int lambda = r.lambdas[at];
  if (lambda <= 2) ctx.discard();
  // the population was drawn with the covariance of the state before.
  dMat C = s.full_cov();
  if (!c.sep() && !c.vd() && at > 0 && s.niter() > 0)
    {
      if (c.lazy) C = s.eigenvectors()*s.eigenvalues().asDiagonal()*s.eigenvectors().transpose();
      else C = r.snaps[at-1].full_cov();
    }
  dVec gr, tl;
  fullgrad(c,p.get_gp(),s.xmean(),!(c.grad && c.ugrad),gr,tl);
  check_edm(ctx,"search-edm",s.edm(),c.n,lambda,s.sigma(),C,gr,tl);
  ctx.nontrivial(s.niter() >= 2);
}

static void prop(Gen &g, Ctx &ctx)
{
  GOpt o;
  bool man = g.chance(2,3);
  o.kinds = {O_SPHERE,O_ELLI,O_LIN,O_QUART};
  if (!man) o.algos = {0,3,6,9,12,1,2,4,7,10,13,14};
  o.maxiter = 15;
  Cfg c = gen_cfg(g,o);
  if (c.gpt && g.chance(1,2)) // values of comparable size for the parameters, to be sharp
    for (int i=0;i<c.n;i++) { if (!c.scal_ctor) { c.lb[i] = -g.uniform(0.5,4); c.ub[i] = g.uniform(0.5,4); } c.x0[i] = c.lb[i]+(c.ub[i]-c.lb[i])*g.uniform(0.02,0.98); }
  if (c.scal_ctor && c.bounded()) for (int i=0;i<c.n;i++) c.scal[i] = std::max(c.scal[i],1e-2/(c.ub[i]-c.lb[i])); // wider than the steps
  if (c.lambda == 2) c.lambda = 3;
  if (c.tpa == 2 && c.lambda == 3) c.lambda = 4;
  c.edm = true;
  if (c.elit && man) c.elit = 0;
  if (c.family()) { c.restarts = g.range(1,3); c.max_iter = std::min(c.max_iter,10); if (c.elit == 3) { c.elit = 0; c.max_fev = -1; } if (c.lambda > 12) c.lambda = 12; }
  if (man) { c.grad = g.flip(); c.ugrad = c.grad && g.chance(1,3); }
  ctx.sample((man ? "manual " : "search ") + c.describe());
  labels(ctx,c);
  with_gp(c,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      if (!man) whole<GP>(g,ctx,c);
      else if (c.vd()) manual<VDCMAUpdate,GP>(g,ctx,c);
      else if (c.active()) manual<ACovarianceUpdate,GP>(g,ctx,c);
      else manual<CovarianceUpdate,GP>(g,ctx,c);
    });
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C23","A case is either an optimiser driven by hand, whose numerical (or supplied) gradient is compared with the analytic one at the mean and at points inside and on the faces of the box, the derivative of its transform with that of the observed transform, the gradient candidate of each population and the expected distance with the formulas; or a whole search of any algorithm whose reported expected distance is compared. Errors allowed are those of the finite differences and of rounding. Non-trivial: a hand-driven case with at least two derivatives known within 2% (or a supplied gradient), or a search of at least two iterations.",prop,200000,100000000,60});
}
