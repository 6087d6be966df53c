// Compares a recorded run, iteration by iteration, with the reference model of the update.
#ifndef UPDATES_HPP
#define UPDATES_HPP
#include "reference.hpp"

inline double relerr(const dMat &a, const dMat &b)
{
  if (a.rows() != b.rows() || a.cols() != b.cols()) return 1e300;
  double sc = std::max(a.cwiseAbs().maxCoeff(),b.cwiseAbs().maxCoeff());
  double e = (a-b).cwiseAbs().maxCoeff();
  if (!(e == e)) return 1e300;
  return e/std::max(sc,1e-300);
}

// variances of fixed parameters do not fall below those of the others.
inline void clamp_fixed(const Cfg &c, RefState &s)
{
  bool diag = s.C.cols() == 1 && c.n > 1;
  double mn = 1e300;
  for (int i=0;i<c.n;i++) if (!c.fixed.count(i)) mn = std::min(mn,diag ? s.C(i,0) : s.C(i,i));
  if ((int)c.fixed.size() < c.n)
    for (auto &f : c.fixed) { double &v = diag ? s.C(f.first,0) : s.C(f.first,f.first); v = std::max(v,mn); }
}

// returns the number of iterations compared.
template <class GP> int check_updates(Ctx &ctx, const Cfg &c, Res &r)
{
  int checked = 0;
  GP gp = make_params<GP>(c).get_gp();
  RefState st;
  int eigit = 0;
  double run_tol = 0;
  auto load = [&](const CMASolutions &s) // state of the library, but its own evolution paths
	{
	  st.m = s.xmean(); st.sigma = s.sigma();
	  if (c.sep() || c.vd()) st.C = s.sepcov(); else st.C = s.cov();
	  if (c.vd()) { dVec v = recover_v(s.full_cov(),dVec(s.sepcov().col(0))); st.v = v; }
	};
  bool live = false;
  for (size_t i=0;i<r.snaps.size();i++)
	{
	  CMASolutions &s = r.snaps[i];
	  if (s.niter() == 0)
	    {
	      st = RefState();
	      st.ps = st.pc = dVec::Zero(c.n);
	      load(s);
	      // a run starts from the identity.
	      if (c.vd()) ctx.check(relerr(s.sepcov(),dMat::Constant(c.n,1,1.0)) == 0,"start-covariance",[&]{ return "VD run does not start from D = I"; });
	      else if (c.sep()) ctx.check(relerr(s.sepcov(),dMat::Constant(c.n,1,1.0)) == 0,"start-covariance",[&]{ return "run does not start from the identity"; });
	      else ctx.check(relerr(s.cov(),dMat::Identity(c.n,c.n)) == 0,"start-covariance",[&]{ return "run does not start from the identity"; });
	      eigit = 0;
	      live = true;
	      run_tol = 0;
	      continue;
	    }
	  if (!live) continue;
	  const CMASolutions &q = r.snaps[i-1];
	  load(q);
	  int t = q.niter();
	  RefPar p(c.n,r.lambdas[i],c,c.fixed.size());
	  ctx.check(s.size() == p.lambda,"population-size",[&]{ return "population of " + str(s.size()) + " instead of " + str(p.lambda); });
	  if (t == 0 || !c.lazy || t-eigit > p.lazy) { st.Cdec = st.C; eigit = t; }
	  // conditioning of this step.
	  double cond = 1, mn = 1;
	  if (c.sep() || c.vd()) { mn = st.C.minCoeff(); cond = st.C.maxCoeff()/mn; if (c.vd()) cond *= cond*(1+st.v.squaredNorm()); }
	  else
	    {
	      Eigen::SelfAdjointEigenSolver<dMat> es(st.Cdec,Eigen::EigenvaluesOnly);
	      mn = es.eigenvalues().minCoeff();
	      cond = es.eigenvalues().maxCoeff()/mn;
	    }
	  if (!(mn > 0) || !(cond < 1e11)) { live = false; ctx.label("ill-conditioned"); continue; }
	  double rel = 3e-16*std::max(s.xmean().cwiseAbs().maxCoeff(),q.xmean().cwiseAbs().maxCoeff())/st.sigma/std::sqrt(mn);
	  double tol = 1e-10 + 1e-14*cond + 1e2*rel;
	  run_tol = std::max(run_tol*0.98,tol);
	  if (!(run_tol < 1e-5)) { live = false; ctx.label("precision-lost"); continue; }
	  std::vector<dVec> X;
	  for (int k=0;k<s.size();k++) X.push_back(s.get_candidate(k).get_x_dvec());
	  double rd = 0;
	  if (c.tpa == 2 && t > 0)
	    {
	      int first = c.grad && p.lambda > 2 ? 1 : 0;
	      dv x1 = r.calls()[r.ncalls[i]-p.lambda+first].x, x2 = r.calls()[r.ncalls[i]-p.lambda+first+1].x;
	      int r1 = -1, r2 = -1, m1 = 0, m2 = 0;
	      for (int k=0;k<p.lambda;k++)
		{
		  dv ph = tov(gp.pheno(X[k]));
		  if (same(ph,x1)) { r1 = k; ++m1; }
		  if (same(ph,x2)) { r2 = k; ++m2; }
		}
	      if (m1 != 1 || m2 != 1 || r1 == r2) { live = false; ctx.label("tpa-ambiguous"); continue; } // several candidates at one point
	      rd = r2-r1;
	    }
	  RefState a = st;
	  double bad;
	  double margin = ref_update(p,a,X,t,rd,-1,bad);
	  clamp_fixed(c,a);
	  double T = run_tol*(1+bad*bad)*(c.vd() ? 100 : 1); // v of the VD model is recovered from the covariance
	  if (!(T < (c.vd() ? 1e-4 : 1e-5))) { live = false; ctx.label("precision-lost"); continue; }
	  auto dist = [&](const RefState &z)
	    {
	      double e = relerr(z.C,c.sep() || c.vd() ? s.sepcov() : s.cov());
	      if (c.vd())
		{
		  dVec D = z.C.col(0);
		  dMat full = D.asDiagonal()*(dMat::Identity(c.n,c.n)+z.v*z.v.transpose())*D.asDiagonal();
		  e = std::max(e,relerr(full,s.full_cov()));
		}
	      return e;
	    };
	  double ec = dist(a);
	  if (ec > T && margin < 100*run_tol+1e-9)
	    {
	      // |ps| at the threshold: either value of hsig is right.
	      for (int h=0;h<2;h++)
		{
		  RefState b = st;
		  double bb;
		  ref_update(p,b,X,t,rd,h,bb);
		  clamp_fixed(c,b);
		  if (dist(b) < ec) { a = b; ec = dist(b); }
		}
	    }
	  std::string at = "iteration " + str(s.niter()) + ": ";
	  double em = (a.m-s.xmean()).cwiseAbs().maxCoeff(), ms = std::max(s.xmean().cwiseAbs().maxCoeff(),q.xmean().cwiseAbs().maxCoeff());
	  ctx.check(em <= 1e-13*ms*p.mu + 1e-10*q.sigma()*std::sqrt(mn),"mean",[&]{ return at + "mean " + str(s.xmean()) + " instead of " + str(a.m); });
	  ctx.check(a.sigma == s.sigma() || (a.sigma > 1e300 && s.sigma() > 1e250) || std::fabs(std::log(a.sigma/s.sigma())) <= T*10,"sigma",[&]{ return at + "step-size " + str(s.sigma()) + " instead of " + str(a.sigma) + " (previous " + str(q.sigma()) + ")"; });
	  ctx.check(ec <= T*10,"covariance",[&]{ std::ostringstream os; os << at << "covariance\n" << (c.sep() || c.vd() ? s.sepcov() : s.cov()) << "\ninstead of\n" << a.C << "\nrelative error " << ec; return os.str(); });
	  st.ps = a.ps; st.pc = a.pc; st.tpas = a.tpas;
	  ++checked;
	}
  return checked;
}
#endif
