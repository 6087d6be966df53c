// C02: genotype/phenotype transforms.
#include "common.hpp"

static Cfg gen(Gen &g)
{
  Cfg c;
  c.gpt = g.pick<int>({1,3,2,0});
  c.lin0 = c.gpt == 0 && g.flip();
  c.n = g.range(1,g.size() > 1 ? 12 : 6);
  c.lb.resize(c.n); c.ub.resize(c.n);
  for (int i=0;i<c.n;i++)
    {
      gen_box(g,c.lb[i],c.ub[i]);
      if (c.gpt == 1 && g.chance(1,20)) c.ub[i] = std::numeric_limits<double>::max();
      if (c.gpt == 1 && g.chance(1,20)) c.lb[i] = -std::numeric_limits<double>::max();
    }
  if (c.scaled() && g.chance(1,3))
    {
      c.scal_ctor = true;
      for (int i=0;i<c.n;i++) { c.scal.push_back(g.logu(1e-3,1e3)); c.shft.push_back(g.chance(1,2) ? g.uniform(-20,20) : 0.0); }
    }
  if (c.gpt == 0 || (!c.scal_ctor && g.chance(1,4)))
    {
      c.custom = c.gpt != 0 || g.chance(3,4);
      c.ckind = g.draw(2);
      for (int i=0;i<c.n;i++) { c.ca.push_back(g.logu(0.3,3.0)); c.cb.push_back(g.uniform(-1,1)); }
      if (c.ckind == 2 && c.gpt) c.ckind = 1;
    }
  return c;
}

static double margin(double b) { return (1.0+std::fabs(b))/20.0; }

template <class GP> void go(Gen &g, Ctx &ctx, const Cfg &c)
{
  GP gp = make_gp<GP>(c);
  int n = c.n;
  bool big = false;
  for (int i=0;i<n;i++)
    big = big || c.ub[i] > 1e100 || c.lb[i] < -1e100;
  // internal box
  dv il(n), iu(n), s(n,1.0), sh(n,0.0);
  for (int i=0;i<n;i++)
    {
      if (c.scaled())
	{
	  if (c.scal_ctor) { s[i] = c.scal[i]; sh[i] = c.shft[i]; }
	  else { s[i] = 10.0/(c.ub[i]-c.lb[i]); sh[i] = 10.0 - s[i]*c.ub[i]; }
	}
      il[i] = c.lb[i]*s[i]+sh[i];
      iu[i] = c.ub[i]*s[i]+sh[i];
      if (c.scaled() && !c.scal_ctor) { il[i] = 0.0; iu[i] = 10.0; }
    }
  // tolerances in user and internal space
  auto utol = [&](int i) { return 256*2.3e-16*(1.0/s[i]*(1.0+std::fabs(sh[i])+std::fabs(il[i])+std::fabs(iu[i])) + std::fabs(c.lb[i]) + std::fabs(c.ub[i])); };

  // (1) user -> internal -> user
  int np = 1 + g.draw(3);
  for (int p=0;p<np;p++)
    {
      dv y(n);
      for (int i=0;i<n;i++)
	{
	  double l = c.lb[i] < -1e100 ? -1e3 : c.lb[i], u = c.ub[i] > 1e100 ? 1e3+std::max(0.0,c.lb[i]) : c.ub[i];
	  if (c.bounded() || c.gpt == 2)
	    switch (g.draw(4))
	      {
	      case 0: y[i] = l; break;
	      case 1: y[i] = u; break;
	      case 2: y[i] = l + (u-l)*g.logu(1e-12,1.0); break;
	      case 3: y[i] = u - (u-l)*g.logu(1e-12,1.0); break;
	      default: y[i] = l + (u-l)*g.unit(); break;
	      }
	  else if (c.custom && c.ckind == 2) y[i] = c.cb[i] + g.logu(1e-3,1e3);
	  else y[i] = g.uniform(-50,50);
	  if (c.bounded()) y[i] = std::min(std::max(y[i],c.lb[i]),c.ub[i]);
	}
      dVec x = gp.geno(toe(y));
      dVec b = gp.pheno(x);
      ctx.check(x.size() == n && b.size() == n,"size",[&]{ return std::string("wrong size"); });
      for (int i=0;i<n;i++)
	{
	  double tol = big ? 1e-9*(1+std::fabs(y[i])) : utol(i);
	  if (c.custom) tol += 1e-9*(1.0+std::fabs(y[i])+std::fabs(c.ub[i]-c.lb[i]));
	  if (!(std::fabs(b(i)-y[i]) <= tol))
	    ctx.fail("roundtrip","pheno(geno(y)) != y in coordinate " + str(i) + ": y=" + str(y) + " geno=" + str(x) + " back=" + str(b));
	}
    }

  // (2) internal points: range, identity inside, affine scaling, 1-Lipschitz
  int ni = 1 + g.draw(3);
  dMat P(n,0);
  std::vector<dv> pts;
  for (int p=0;p<ni;p++)
    {
      dv x(n), x2(n);
      for (int i=0;i<n;i++)
	{
	  if (!c.bounded() || c.custom) { x[i] = c.custom ? g.uniform(-5,5) : g.uniform(-1e3,1e3); x2[i] = x[i]; continue; }
	  if (c.lb[i] < -1e100 || c.ub[i] > 1e100) { x[i] = g.uniform(-1e3,1e3); x2[i] = x[i]; continue; }
	  double w = iu[i]-il[i];
	  double al = std::min(w/2,margin(il[i])), au = std::min(w/2,margin(iu[i]));
	  double r = 2*(w+al+au);
	  std::vector<double> crit = {il[i],iu[i],il[i]-al,iu[i]+au,il[i]+al,iu[i]-au,il[i]-2*al-w/2,iu[i]+2*au+w/2,il[i]-3*al-w,iu[i]+3*au+w,il[i]-al-r,iu[i]+au+r};
	  double b = 0;
	  switch (g.draw(4))
	    {
	    case 0: b = il[i] + w*g.unit(); break;
	    case 1: b = g.pick(crit) + (g.flip() ? 1 : -1)*w*g.logu(1e-15,1e-1); break;
	    case 2: b = g.pick(crit); break;
	    case 3: b = il[i] + w*g.uniform(-30,30); break;
	    default: b = (g.flip() ? 1 : -1) * w * g.logu(1.0,1e13); break;
	    }
	  x[i] = b;
	  x2[i] = b + (g.flip() ? 1 : -1)*w*g.logu(1e-9,3.0);
	}
      pts.push_back(x);
      dVec y = gp.pheno(toe(x));
      dVec y2 = gp.pheno(toe(x2));
      for (int i=0;i<n;i++)
	{
	  if (!std::isfinite(y(i)))
	    ctx.fail("finite","pheno gives a non-finite value at " + str(x) + ": " + str(y));
	  if (c.bounded())
	    {
	      if (c.lb[i] < -1e100 || c.ub[i] > 1e100)
		{
		  if (y(i) < c.lb[i] || y(i) > c.ub[i]) ctx.fail("range","half-bounded pheno outside: x=" + str(x) + " y=" + str(y));
		  continue;
		}
	      if (y(i) < c.lb[i]-utol(i) || y(i) > c.ub[i]+utol(i))
		ctx.fail("range","pheno leaves the box in coordinate " + str(i) + ": x=" + str(x) + " y=" + str(y));
	      if (c.custom) continue;
	      double w = iu[i]-il[i];
	      double al = std::min(w/2,margin(il[i])), au = std::min(w/2,margin(iu[i]));
	      if (x[i] >= il[i]+al*(1+1e-12) && x[i] <= iu[i]-au*(1+1e-12))
		{
		  ctx.label("interior");
		  double want = c.scaled() ? (x[i]-sh[i])/s[i] : x[i];
		  if (!(std::fabs(y(i)-want) <= (c.scaled() ? utol(i) : 0.0)))
		    ctx.fail("identity","interior point changed in coordinate " + str(i) + ": x=" + str(x) + " y=" + str(y) + " expected " + str(want));
		}
	      else { ctx.label("outside-or-near"); ctx.nontrivial(); }
	      double d = std::fabs(x2[i]-x[i]), e = std::fabs(y2(i)-y(i))*s[i];
	      double slack = 1e-9*d + 256*2.3e-16*(std::fabs(x[i])+std::fabs(x2[i])+std::fabs(il[i])+std::fabs(iu[i])+1.0) + 4*utol(i)*s[i];
	      if (!(e <= d + slack))
		ctx.fail("lipschitz","distance expanded in coordinate " + str(i) + ": x=" + str(x[i]) + " x'=" + str(x2[i]) + " y=" + str(y(i)) + " y'=" + str(y2(i)) + " internal distances " + str(d) + " -> " + str(e));
	    }
	  else
	    {
	      double z = c.custom ? cust_pheno(c,i,x[i]) : x[i];
	      double want = c.scaled() ? (z-sh[i])/s[i] : z;
	      ctx.nontrivial();
	      if (!(std::fabs(y(i)-want) <= 1e-12*(std::fabs(want)+(std::fabs(z)+std::fabs(sh[i]))/s[i])))
		ctx.fail("affine","pheno is not the stated map in coordinate " + str(i) + ": x=" + str(x) + " y=" + str(y) + " expected " + str(want));
	      dVec gx = gp.geno(y);
	      if (!(std::fabs(gx(i)-x[i]) <= 1e-8*(1.0+std::fabs(x[i]))+1e-13*(std::fabs(z)+std::fabs(sh[i]))*1e2))
		ctx.fail("inverse","geno(pheno(x)) != x: x=" + str(x) + " got " + str(gx));
	    }
	}
    }

  // (2b) composition with the custom map: same as the plain transform after the custom map
  if (c.custom && c.gpt)
    {
      Cfg c2 = c;
      c2.custom = false;
      GP gp2 = make_gp<GP>(c2);
      for (auto &x : pts)
	{
	  dv z(n);
	  for (int i=0;i<n;i++) z[i] = cust_pheno(c,i,x[i]);
	  dVec a = gp.pheno(toe(x)), b = gp2.pheno(toe(z));
	  for (int i=0;i<n;i++)
	    if (!close(a(i),b(i),1e-13,utol(i)))
	      ctx.fail("composition","custom map not composed with bounds/scaling: x=" + str(x) + " got " + str(a) + " expected " + str(b));
	}
    }

  // (3) a set of points is converted point by point
  int cols = g.pick<int>({1,2,5,99,100,101,257});
  dMat X(n,cols), Y(n,cols);
  uint64_t st = g.draw(1<<30);
  for (int j=0;j<cols;j++)
    for (int i=0;i<n;i++)
      {
	double u = (double)(pbt::splitmix(st)>>11)/9007199254740992.0;
	double l = c.lb[i] < -1e100 ? -1e3 : c.lb[i], h = c.ub[i] > 1e100 ? 1e3+std::max(0.0,c.lb[i]) : c.ub[i];
	X(i,j) = c.custom ? -4+8*u : (c.bounded() && std::fabs(il[i]) < 1e100 && std::fabs(iu[i]) < 1e100 ? il[i]+(iu[i]-il[i])*(-2+5*u) : -10+20*u);
	Y(i,j) = c.gpt ? l + (h-l)*u : ((c.custom && c.ckind == 2) ? c.cb[i]+1e-3+10*u : -10+20*u);
      }
  omp_set_num_threads(3);
  dMat PX = gp.pheno(X), GY = gp.geno(Y);
  ctx.check(PX.rows() == n && PX.cols() == cols && GY.rows() == n && GY.cols() == cols,"batch-size",[&]{ return std::string("wrong shape"); });
  for (int j=0;j<cols;j++)
    {
      dVec p = gp.pheno(dVec(X.col(j))), q = gp.geno(dVec(Y.col(j)));
      for (int i=0;i<n;i++)
	{
	  if (!close(p(i),PX(i,j),1e-13,1e-300))
	    ctx.fail("batch-pheno","column " + str(j) + " of " + str(cols) + " differs: " + str(PX(i,j)) + " against " + str(p(i)) + " for x=" + str(dVec(X.col(j))));
	  if (!close(q(i),GY(i,j),1e-13,1e-300))
	    ctx.fail("batch-geno","column " + str(j) + " of " + str(cols) + " differs: " + str(GY(i,j)) + " against " + str(q(i)) + " for y=" + str(dVec(Y.col(j))));
	}
    }
  if (cols > 1) ctx.nontrivial();
  if (cols >= 100) ctx.label("batch>=100");

  // (4) dropping coordinates, given in any order
  if (!c.custom && c.gpt && n > 1)
    {
      std::vector<int> idx(n), k;
      for (int i=0;i<n;i++) idx[i] = i;
      int nk = g.range(1,n-1);
      for (int j=0;j<nk;j++)
	{
	  int t = g.draw(idx.size()-1);
	  k.push_back(idx[t]);
	  idx.erase(idx.begin()+t);
	}
      GP gr = gp;
      gr.remove_dimensions(k);
      int m = idx.size();
      std::string ks;
      for (int i : k) ks += " " + str(i);
      for (auto &x : pts)
	{
	  dVec full = gp.pheno(toe(x)), xr(m), yr(m);
	  for (int i=0;i<m;i++) { xr(i) = x[idx[i]]; yr(i) = full(idx[i]); }
	  dVec red = gr.pheno(xr), ginv = gr.geno(yr), gfull = gp.geno(full);
	  for (int i=0;i<m;i++)
	    {
	      if (!close(red(i),yr(i),1e-13,1e-300))
		ctx.fail("remove","after dropping" + ks + " coordinate " + str(idx[i]) + " maps " + str(xr(i)) + " to " + str(red(i)) + " instead of " + str(yr(i)));
	      if (!close(ginv(i),gfull(idx[i]),1e-13,1e-300))
		ctx.fail("remove-geno","after dropping" + ks + " coordinate " + str(idx[i]) + " maps back " + str(yr(i)) + " to " + str(ginv(i)) + " instead of " + str(gfull(idx[i])));
	    }
	}
      for (int i=0;i<m;i++)
	if (gr.get_boundstrategy().getPhenoUBound(i) != gp.get_boundstrategy().getPhenoUBound(idx[i]) || gr.get_boundstrategy().getPhenoLBound(i) != gp.get_boundstrategy().getPhenoLBound(idx[i]))
	  ctx.fail("remove-bounds","bounds of the remaining coordinates changed after dropping" + ks);
      ctx.label("removed=" + str(std::min(nk,3)));
    }
  // bounds reported in user space are the ones given
  if (c.bounded())
    for (int i=0;i<n;i++)
      if (!close(gp.get_boundstrategy().getPhenoUBound(i),c.ub[i],1e-12,utol(i)) || !close(gp.get_boundstrategy().getPhenoLBound(i),c.lb[i],1e-12,utol(i)))
	ctx.fail("pheno-bounds","user-space bounds of coordinate " + str(i) + " reported as [" + str(gp.get_boundstrategy().getPhenoLBound(i)) + "," + str(gp.get_boundstrategy().getPhenoUBound(i)) + "]");
}

static void prop(Gen &g, Ctx &ctx)
{
  Cfg c = gen(g);
  ctx.sample(c.describe());
  labels(ctx,c);
  with_gp(c,[&](auto t) { go<typename decltype(t)::type>(g,ctx,c); });
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C02","A case is a transform object (4 types, built from bounds or from scaling and shift, with or without a custom map, dimension 1-12) with feasible user points (also on and within 1e-12 of the bounds), internal points (interior, at and around every breakpoint of the bound map, far away up to 1e13 box widths), a batch of 1 to 257 points and a subset of coordinates to drop. Non-trivial: some internal point lies near or outside the bounds, or the map is not the identity, or a batch has more than one point.",prop,60000,20000000});
}
