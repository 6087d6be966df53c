// C15: constrained minima, profile likelihood and contours against the exact ones of convex quadratics.
#include "common.hpp"
#include <libcmaes/errstats.h>

struct Quad
{
  int n = 0;
  double c = 0;
  dVec t, D;
  dMat A, V; // V = A^-1
  double at(const dVec &y) const { dVec d = y-t; return c + d.dot(A*d); }
  // minimum of the quadratic with coordinates k fixed to v, and where.
  double cmin(const std::vector<int> &k, const std::vector<double> &v, dVec &where) const
  {
    int m = k.size();
    dMat Vk(m,m);
    dVec dk(m);
    for (int i=0;i<m;i++) { dk(i) = v[i]-t(k[i]); for (int j=0;j<m;j++) Vk(i,j) = V(k[i],k[j]); }
    dVec w = Vk.ldlt().solve(dk);
    where = t;
    for (int i=0;i<n;i++) for (int j=0;j<m;j++) where(i) += V(i,k[j])*w(j);
    return c + dk.dot(w);
  }
};

template <class GP> void body(Gen &g, Ctx &ctx, const Cfg &c, const Quad &q, double fup, bool maxi)
{
  auto rec = std::make_shared<Rec>();
  FitFunc f = [rec,&q,&ctx,maxi](const double *x, const int &n)
    {
      if (n != q.n) ctx.fail("dim","objective called with dimension " + std::to_string(n) + " instead of " + std::to_string(q.n));
      dVec y(n);
      for (int i=0;i<n;i++) y(i) = x[i];
      double v = q.at(y);
      if (maxi) v = -v;
      if (++rec->n > rec->limit) ctx.discard();
      rec->calls.push_back(Call{dv(x,x+n),v,0});
      return v;
    };
  double sgn = maxi ? -1 : 1;
  CMAParameters<GP> p = make_params<GP>(c);
  CMASolutions s = cmaes<GP>(f,p);
  GP gp = p.get_gp();
  dVec best = gp.pheno(s.best_candidate().get_x_dvec());
  double fb = s.best_candidate().get_fvalue();
  if (!(fb-q.c < 1e-5*fup)) { ctx.label("main-search-not-converged"); return; } // e.g. ended by the automatic limit
  int n = c.n;
  auto inbox = [&](const dVec &y, double margin) { if (!c.bounded()) return true; for (int i=0;i<n;i++) { double w = c.ub[i]-c.lb[i]; if (y(i) < c.lb[i]+margin*w || y(i) > c.ub[i]-margin*w) return false; } return true; };
  auto outside = [&](const dv &y) { if (!c.bounded()) return false; for (int i=0;i<n;i++) { double t = c.gpt == 3 ? 1e-9*(1+std::fabs(c.lb[i])+std::fabs(c.ub[i])) : 0; if (y[i] < c.lb[i]-t || y[i] > c.ub[i]+t) return true; } return false; };
  auto truth = [&](const char *what, const dVec &y, double v)
    {
      double w = q.at(y);
      ctx.check(std::fabs(w-v) <= 1e-6*fup + 1e-9*std::fabs(w),what,[&]{ return "reported value " + str(v) + " but the objective is " + str(w) + " at " + str(y); });
    };
  size_t calls0 = rec->calls.size();
  int what = g.draw(2);
  if (what == 0)
    {
      ctx.label("constrained-minimum");
      int m = g.range(1,n);
      std::vector<int> idx(n), k;
      for (int i=0;i<n;i++) idx[i] = i;
      for (int i=0;i<m;i++) { int j = g.draw(idx.size()-1); k.push_back(idx[j]); idx.erase(idx.begin()+j); }
      bool pv = g.flip(), px = g.flip();
      dVec y(n), st(n);
      for (int i=0;i<n;i++)
	{
	  double w = c.bounded() ? c.ub[i]-c.lb[i] : 1.0/q.D(i);
	  double lo = c.bounded() ? c.lb[i] : q.t(i)-w, hi = c.bounded() ? c.ub[i] : q.t(i)+w;
	  y(i) = lo + (hi-lo)*g.uniform(0.15,0.85);
	  st(i) = lo + (hi-lo)*g.uniform(0.15,0.85);
	  if (g.chance(1,12)) y(i) = best(i);
	}
      dVec gy = gp.geno(y), gs = gp.geno(st);
      std::vector<double> vk;
      for (int i : k) vk.push_back(pv ? y(i) : gy(i));
      bool sorted = std::is_sorted(k.begin(),k.end());
      ctx.label(sorted ? "sorted" : "unsorted");
      if (m == n) ctx.label("all-fixed");
      ctx.sample("constrained " + std::to_string(m) + " of " + std::to_string(n) + (pv ? " user-values " : " internal-values ") + c.describe());
      CMASolutions r = m == 1 && g.flip() ? errstats<GP>::optimize_pk(f,p,s,k[0],vk[0],px ? st : gs,px,pv) : errstats<GP>::optimize_vpk(f,p,s,k,vk,px ? st : gs,px,pv);
      Candidate b = r.best_candidate();
      ctx.check(b.get_x_size() == (unsigned)n,"size",[&]{ return "constrained minimum has " + str((int)b.get_x_size()) + " coordinates"; });
      dVec z = gp.pheno(b.get_x_dvec());
      for (int i=0;i<m;i++)
	ctx.check(close(z(k[i]),y(k[i]),1e-7,1e-7*(c.bounded() ? c.ub[k[i]]-c.lb[k[i]] : 1.0/q.D(k[i]))),"frozen",[&]{ return "coordinate " + str(k[i]) + " of the constrained minimum is " + str((double)z(k[i])) + " instead of " + str((double)y(k[i])) + " order " + str((int)sorted); });
      truth("value",z,b.get_fvalue());
      for (size_t i=calls0;i<rec->calls.size();i++)
	{
	  ctx.check(!outside(rec->calls[i].x),"bounds",[&]{ return "objective called at " + str(rec->calls[i].x); });
	  for (int j : k)
	    ctx.check(close(rec->calls[i].x[j],y(j),1e-7,1e-7*(c.bounded() ? c.ub[j]-c.lb[j] : 1.0/q.D(j))),"frozen-call",[&]{ return "objective called at " + str(rec->calls[i].x) + " with coordinate " + str(j) + " to be " + str((double)y(j)); });
	}
      std::vector<double> vy;
      for (int i : k) vy.push_back(y(i));
      dVec where;
      double e = q.cmin(k,vy,where);
      dVec start = st;
      for (int i : k) start(i) = y(i);
      ctx.check(b.get_fvalue() >= e-1e-6*fup-1e-9*std::fabs(e),"below",[&]{ return "constrained minimum " + str(b.get_fvalue()) + " is below the true one " + str(e); });
      // the step-size of the search is the internal distance of the fixed values to the optimum.
      double sg = 0, far = 0;
      dVec gb = gp.geno(best), gw = gp.geno(where), gst = gp.geno(start), gyy = gp.geno(y);
      std::vector<char> fixed(n,0);
      for (int i : k) { fixed[i] = 1; sg = std::max(sg,std::fabs(gyy(i)-gb(i))); }
      for (int i=0;i<n;i++) if (!fixed[i]) far = std::max(far,std::fabs(gst(i)-gw(i)));
      if (r.run_status() < 0 || r.run_status() == 7 || (m < n && sg < 1e-2*far)) ctx.label("search-limit");
      else if (inbox(where,0.02) && !c.vd())
	ctx.check(b.get_fvalue() <= e+0.01*fup+1e-6*std::fabs(e-q.c)+1e-9*std::fabs(e),"minimum",[&]{ return "constrained minimum " + str(b.get_fvalue()) + " instead of " + str(e) + " (status " + str(r.run_status()) + ")"; });
      ctx.nontrivial(m < n || n > 1);
      return;
    }
  if (what == 1)
    {
      int k = g.draw(n-1);
      bool curve = g.chance(1,3);
      int ss = g.range(1,12);
      ctx.label(curve ? "curve" : "interval");
      ctx.sample((curve ? "curve dim " : "interval dim ") + std::to_string(k) + " samples=" + std::to_string(ss) + " " + c.describe());
      if (g.chance(1,4)) errstats<GP>::profile_likelihood(f,p,s,k,false,2,4*fup); // replaced by the second call
      pli le = errstats<GP>::profile_likelihood(f,p,s,k,curve,ss,fup,0.1,200);
      pli got;
      ctx.check(s.get_pli(k,got) && got.get_samplesize() == ss && got.get_min() == le.get_min() && got.get_max() == le.get_max(),"kept",[&]{ return "the solution does not hold the profile likelihood computed last"; });
      dMat xm = le.get_xm();
      dVec fv = le.get_fvaluem();
      ctx.check(xm.rows() == 2*ss+1 && fv.size() == 2*ss+1 && xm.cols() == n,"size",[&]{ return "wrong size"; });
      for (int i=0;i<xm.rows();i++)
	{
	  dVec y = xm.row(i).transpose();
	  truth("point-value",y,fv(i));
	  ctx.check(!outside(tov(y)),"point-bounds",[&]{ return "point " + str(y) + " is outside the bounds"; });
	}
      for (size_t i=calls0;i<rec->calls.size();i++)
	ctx.check(!outside(rec->calls[i].x),"bounds",[&]{ return "objective called at " + str(rec->calls[i].x); });
      dVec mid = xm.row(ss).transpose();
      ctx.check((mid-best).cwiseAbs().maxCoeff() <= 1e-12*(1+best.cwiseAbs().maxCoeff()) && fv(ss) == fb,"middle",[&]{ return "the middle point is not the optimum"; });
      double h = std::sqrt(fup*q.V(k,k));
      double tol = 1e-9*h+1e-12*std::fabs(best(k));
      ctx.check(le.get_min() <= best(k)+tol && le.get_max() >= best(k)-tol,"contains",[&]{ return "interval [" + str(le.get_min()) + "," + str(le.get_max()) + "] does not contain the optimum " + str((double)best(k)); });
      ctx.check(close(le.get_err_min(),le.get_min()-best(k),1e-9,tol) && close(le.get_err_max(),le.get_max()-best(k),1e-9,tol),"errors",[&]{ return "errors are not the ends relative to the optimum"; });
      bool any = false;
      auto level = [&](const pli &l)
	{
	  dMat lx = l.get_xm();
	  dVec lf = l.get_fvaluem();
	  for (int i=0;i<lx.rows();i++)
	    {
	      dVec where;
	      double e = q.cmin({k},{lx(i,k)},where);
	      if (inbox(where,0.02) && !(lf(i) <= e+0.01*fup+1e-6*std::fabs(e-q.c)+1e-9*std::fabs(e)))
		return "point " + str(i) + " of " + str((int)lx.rows()) + " at " + str((double)lx(i,k)) + ": " + str((double)lf(i)) + " instead of the constrained minimum " + str(e);
	    }
	  for (int side=-1;side<=1;side+=2)
	    {
	      double end = side < 0 ? l.get_min() : l.get_max();
	      dVec where, w2;
	      q.cmin({k},{q.t(k)+side*1.15*h},where);
	      if (!inbox(where,0.03) || curve) continue;
	      any = true;
	      double e = q.cmin({k},{end},w2);
	      if (std::fabs(e-q.c-fup) > 0.1*fup+0.02*fup)
		return "end " + str(end) + " of the interval has an increase of " + str(e-q.c) + " instead of " + str(fup) + " (optimum " + str((double)best(k)) + ", exact end " + str((double)(q.t(k)+side*h)) + ")";
	    }
	  return std::string();
	};
      std::string err = level(le);
      for (int r=1;!err.empty() && r<=(c.vd() ? 6 : 3);r++) // a constrained search is stochastic and may stagnate: not from several seeds.
	{
	  ctx.label("search-retried");
	  CMAParameters<GP> p2 = p;
	  p2.set_seed(1000+r);
	  CMASolutions s2 = s;
	  err = level(errstats<GP>::profile_likelihood(f,p2,s2,k,curve,ss,fup,0.1,200));
	}
      ctx.check(err.empty(),"level",[&]{ return err; });
      if (any) ctx.label("level-reached");
      ctx.nontrivial(n > 1);
      return;
    }
  // contour
  if (n < 2) { ctx.label("one-dimension"); return; }
  int px = g.draw(n-1), py = (px+1+g.draw(n-2))%n;
  int np = g.range(4,n == 2 ? 20 : 9);
  ctx.label(px < py ? "contour" : "contour-reversed");
  ctx.sample("contour (" + std::to_string(px) + "," + std::to_string(py) + ") points=" + std::to_string(np) + " " + c.describe());
  bool reach = true;
  dVec where;
  double hx = std::sqrt(fup*q.V(px,px)), hy = std::sqrt(fup*q.V(py,py));
  dMat V2(2,2);
  V2 << q.V(px,px),q.V(px,py),q.V(py,px),q.V(py,py);
  Eigen::SelfAdjointEigenSolver<dMat> es(V2);
  for (int i=0;i<64;i++)
    {
      double th = i*6.283185307179586/64;
      dVec u(2);
      u << std::cos(th),std::sin(th);
      dVec d = es.operatorSqrt()*u*std::sqrt(fup)*1.3;
      q.cmin({px,py},{q.t(px)+d(0),q.t(py)+d(1)},where);
      if (!inbox(where,0.03)) reach = false;
    }
  if (g.chance(1,4)) errstats<GP>::profile_likelihood(f,p,s,px,false,3,3*fup); // of another level, not to be used
  CMASolutions s0 = s;
  contour ct = errstats<GP>::contour_points(f,px,py,np,fup,p,s,0.1,200);
  for (size_t i=calls0;i<rec->calls.size();i++)
    ctx.check(!outside(rec->calls[i].x),"bounds",[&]{ return "objective called at " + str(rec->calls[i].x); });
  ctx.check((int)ct._points.size() <= np,"points",[&]{ return str((int)ct._points.size()) + " contour points instead of " + str(np); });
  if (reach)
    {
      ctx.label("contour-reached");
      auto level = [&](const contour &c)
	{
	  if ((int)c._points.size() != np) return str((int)c._points.size()) + " contour points instead of " + str(np);
	  double mnx = 1e300, mxx = -1e300, mny = 1e300, mxy = -1e300;
	  for (auto &pt : c._points)
	    {
	      double e = q.cmin({px,py},{pt.first,pt.second},where);
	      if (!(std::fabs(e-q.c-fup) <= 0.12*fup)) return "contour point (" + str(pt.first) + "," + str(pt.second) + ") has an increase of " + str(e-q.c) + " instead of " + str(fup) + "; optimum (" + str((double)q.t(px)) + "," + str((double)q.t(py)) + ")";
	      mnx = std::min(mnx,pt.first); mxx = std::max(mxx,pt.first); mny = std::min(mny,pt.second); mxy = std::max(mxy,pt.second);
	    }
	  // the points include the extremes of the two parameters.
	  auto ok = [&](double v, double h) { return v > 0.9*h && v < 1.07*h; };
	  if (!(ok(q.t(px)-mnx,hx) && ok(mxx-q.t(px),hx) && ok(q.t(py)-mny,hy) && ok(mxy-q.t(py),hy)))
	    return "contour spans [" + str(mnx) + "," + str(mxx) + "] x [" + str(mny) + "," + str(mxy) + "], half-widths should be " + str(hx) + ", " + str(hy);
	  return std::string();
	};
      std::string err = level(ct);
      for (int r=1;!err.empty() && r<=(c.vd() ? 6 : 3);r++)
	{
	  ctx.label("search-retried");
	  CMAParameters<GP> p2 = p;
	  p2.set_seed(1000+r);
	  CMASolutions s2 = s0;
	  err = level(errstats<GP>::contour_points(f,px,py,np,fup,p2,s2,0.1,200));
	}
      ctx.check(err.empty(),"contour-level",[&]{ return err; });
    }
  ctx.nontrivial(reach);
}

static void prop(Gen &g, Ctx &ctx)
{
  GOpt o;
  o.mindim = 1; o.maxdim = 4; o.big = false; o.custom = false; o.mt = false; o.uh = false; o.grad = false; o.edm = false; o.elit = false; o.tpa = false; o.lazy = false; o.initf = false; o.outside = false;
  o.kinds = {O_SPHERE};
  o.scal_ctor = true;
  Cfg c = gen_cfg(g,o);
  if (c.vd() && g.chance(3,4)) c.algo = 0; // the covariance model of VD does not fit all quadratics
  if (c.vd() == false && c.n > 5) c.n = 5;
  c.x0.resize(c.n);
  if (c.gpt) { c.lb.resize(c.n); c.ub.resize(c.n); }
  if (c.scal_ctor) { c.scal.resize(c.n); c.shft.resize(c.n); }
  if (c.lambda > 0 && c.lambda < 6) c.lambda = 6;
  if (c.lambda > 16) c.lambda = 16;
  c.max_iter = -1;
  bool maxi = c.maxi;
  int n = c.n;
  Quad q;
  q.n = n;
  q.c = g.pick<double>({0.0,1.0,-1.0,50.0,-50.0,3.0}) * g.uniform(0.5,1.0);
  double fup = g.pick<double>({0.1,1.0,0.5,10.0,0.01}) * g.uniform(0.5,1.0);
  // curvature: half-widths of about a share of the box (or of a typical length)
  q.t = dVec(n); q.D = dVec(n);
  for (int i=0;i<n;i++)
    {
      double w = c.gpt ? c.ub[i]-c.lb[i] : 4.0;
      double share = g.uniform(0.03,0.12);
      if (c.bounded() && g.chance(1,8)) share = g.uniform(0.3,1.0); // the level is beyond the bounds
      q.D(i) = std::sqrt(fup)/(share*w);
      double lo = c.gpt ? c.lb[i] : -2.0;
      q.t(i) = lo + w*g.uniform(0.3,0.7);
      if (c.bounded() && g.chance(1,12)) q.t(i) = lo + w*g.uniform(0.05,0.15);
      if (!c.bounded() && g.chance(1,10)) q.t(i) = 0;
      if (!c.bounded() && g.chance(1,10)) q.t(i) = 300*w; // far from zero with respect to the widths
      c.x0[i] = q.t(i) + w*g.uniform(-0.2,0.2);
      if (c.bounded()) c.x0[i] = std::min(std::max(c.x0[i],c.lb[i]),c.ub[i]);
    }
  dMat B = dMat::Identity(n,n);
  for (int i=0;i<n;i++) for (int j=0;j<i;j++) B(i,j) = g.uniform(-0.8,0.8);
  dMat S = B*B.transpose();
  dVec id = S.diagonal().cwiseSqrt().cwiseInverse();
  S = id.asDiagonal()*S*id.asDiagonal();
  q.A = q.D.asDiagonal()*S*q.D.asDiagonal();
  q.V = q.A.inverse();
  c.sigma = (c.scaled() && !c.scal_ctor) ? 1.0 : 0.0;
  if (c.sigma == 0.0)
    {
      double m = 1e300, mm = 0;
      for (int i=0;i<n;i++) { double w = std::sqrt(fup)/q.D(i); if (c.scal_ctor) w *= c.scal[i]; m = std::min(m,w); mm = std::max(mm,w); }
      if (mm > 10*m) { ctx.label("badly-scaled"); return; }
      c.sigma = std::sqrt(m*mm);
    }
  if (g.chance(1,12)) { for (int i=0;i<n;i++) c.x0[i] = q.t(i); }
  labels(ctx,c);
  with_gp(c,[&](auto tag) { body<typename decltype(tag)::type>(g,ctx,c,q,fup,maxi); });
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C15","A case minimises (or maximises the opposite of) a random correlated convex quadratic in user space, with or without bounds and linear scaling, by any of the algorithms, then asks for a constrained minimum with any set of parameters fixed in any order, a profile likelihood (interval or curve) or a contour for any ordered pair of parameters. Every reported point must have its true value, frozen coordinates, lie within the bounds and be the exact constrained minimum of the quadratic; interval ends and contour points must have the increase asked for within the tolerance of the search when that level lies inside the box. Non-trivial: the result involved a constrained search (not all in one dimension), and for contours the level is inside the box.",prop,6000,100000000,120});
}
