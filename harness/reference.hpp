// Reference model of one iteration of (a)CMA-ES, separable and VD-CMA, written from the published equations
// (Hansen & Ostermeier 2001, Hansen 2009; Hansen & Ros 2010; Ros & Hansen 2008; Akimoto, Auger & Hansen 2014;
// two-point adaptation: Hansen, Atamna & Auger 2014).
#ifndef REFERENCE_HPP
#define REFERENCE_HPP
#include "common.hpp"

struct RefPar
{
  int n, lambda, mu, nfixed;
  bool active, sep, vd, tpa2;
  dVec w;
  double muw, cs, cc, c1, cmu, ds, chi, lazy;
  RefPar(int n_, int lambda_, const Cfg &c, int nfix):n(n_),lambda(lambda_),mu(lambda_/2),nfixed(nfix),active(c.active()),sep(c.sep()),vd(c.vd()),tpa2(c.tpa == 2)
  {
    w = dVec(mu);
    for (int i=0;i<mu;i++) w(i) = std::log(mu+1.0)-std::log(i+1.0);
    w /= w.sum();
    muw = 1.0/w.squaredNorm();
    double N = n;
    cs = N < 1000 ? (muw+2)/(N+muw+5) : (std::sqrt(muw)+2)/(std::sqrt(N)+std::sqrt(muw)+3);
    cc = (4+muw/N)/(N+4+2*muw/N);
    c1 = 2/((N+1.3)*(N+1.3)+muw);
    double cmu0 = 2*(muw-2+1/muw)/((N+2)*(N+2)+muw);
    cmu = std::min(1-c1,cmu0);
    if (c.noisy) { c1 *= 0.2; cmu = std::min(1-c1,0.2*cmu0); }
    if (sep)
      {
	c1 *= (N+2)/3;
	cmu = std::min(1-c1,(0.3+muw-2+1/muw)/(N+4*std::sqrt(N)+muw/2));
	cc = (1+1/N+muw/N)/(std::sqrt(N)+1/N+2*muw/N);
      }
    if (vd)
      {
	cs = std::sqrt(muw)/(2*(std::sqrt(N)+std::sqrt(muw)));
	c1 *= (N-5)/6;
	cmu = std::min(1-c1,(N-5)/6*cmu0);
      }
    ds = tpa2 ? 4-3.6/std::sqrt(N) : 1+cs+2*std::max(0.0,std::sqrt((muw-1)/(N+1))-1);
    double m = N-nfix;
    chi = std::sqrt(m)*(1-1/(4*m)+1/(21*m*m));
    lazy = 1/(c1+cmu)/m/10;
  }
};

struct RefState
{
  dVec m, ps, pc, v;
  double sigma = 0, tpas = 0;
  dMat C;      // full covariance, or the diagonal (n x 1) for sep, or D (n x 1) for VD
  dMat Cdec;   // covariance of the last decomposition
};

// v of the VD model, up to its sign, from the full covariance and D.
inline dVec recover_v(const dMat &full, const dVec &D)
{
  int n = D.size(), k = 0;
  dMat M(n,n);
  for (int i=0;i<n;i++) for (int j=0;j<n;j++) M(i,j) = full(i,j)/(D(i)*D(j)) - (i == j ? 1.0 : 0.0);
  for (int i=1;i<n;i++) if (M(i,i) > M(k,k)) k = i;
  double vk = std::sqrt(std::max(M(k,k),1e-300));
  dVec v = M.col(k)/vk;
  v(k) = vk;
  return v;
}

// one update; X holds the ranked candidates, best first.  hsig: -1 decide, 0 or 1 forced.
// returns the relative distance of |ps| from the threshold of hsig.
inline double ref_update(const RefPar &p, RefState &s, const std::vector<dVec> &X, int niter, double rankdiff, int hsig, double &bad)
{
  int n = p.n;
  bad = 0;
  dVec m = dVec::Zero(n);
  for (int i=0;i<p.mu;i++) m += p.w(i)*X[i];
  dVec dm = (m-s.m)/s.sigma;
  dVec z(n);
  dMat B, isq;
  if (p.vd) z = dm.array()/s.C.col(0).array()/(1.0+s.v.array().square()).sqrt();
  else if (p.sep) z = dm.array()/s.C.col(0).array().sqrt();
  else
    {
      Eigen::SelfAdjointEigenSolver<dMat> es(s.Cdec);
      B = es.eigenvectors();
      isq = B*es.eigenvalues().cwiseSqrt().cwiseInverse().asDiagonal()*B.transpose();
      z = isq*dm;
    }
  s.ps = (1-p.cs)*s.ps + std::sqrt(p.cs*(2-p.cs)*p.muw)*z;
  double np = s.ps.norm();
  double thr = std::sqrt(1-std::pow(1-p.cs,2.0*(niter+1)))*(1.4+2.0/(n-p.nfixed+1))*p.chi;
  double margin = std::fabs(np/thr-1);
  bool h = hsig < 0 ? np < thr : hsig;
  s.pc = (1-p.cc)*s.pc;
  if (h) s.pc += std::sqrt(p.cc*(2-p.cc)*p.muw)*dm;
  std::vector<dVec> Y;
  for (auto &x : X) Y.push_back((x-s.m)/s.sigma);
  if (p.vd)
    {
      dVec D = s.C.col(0), v = s.v;
      double nv2 = v.squaredNorm(), nv = std::sqrt(nv2), ga = 1+nv2;
      dVec vn = v/nv, vnn = vn.cwiseProduct(vn);
      double mx = vnn.maxCoeff();
      double al = std::sqrt(nv2*nv2+ga/mx*(2-1/std::sqrt(ga)))/(2+nv2), beta;
      if (al < 1) beta = (4-(2-1/std::sqrt(ga))/mx)/((1+2/nv2)*(1+2/nv2));
      else { al = 1; beta = 0; }
      double b = 2*al*al-beta;
      dVec a = dVec::Constant(n,2.0)-(b+2*al*al)*vnn;
      bad = std::max(1/a.cwiseAbs().minCoeff(),1/nv);
      dVec iav = vnn.cwiseQuotient(a);
      dVec P = dVec::Zero(n), Q = dVec::Zero(n);
      auto addpq = [&](const dVec &yy, double wt)
	{
	  dVec y = yy.cwiseQuotient(D);
	  double yv = y.dot(vn);
	  for (int j=0;j<n;j++)
	    {
	      P(j) += wt*(y(j)*y(j)-nv2/ga*yv*y(j)*vn(j)-1);
	      Q(j) += wt*(yv*y(j)-(yv*yv+ga)/2*vn(j));
	    }
	};
      for (int i=0;i<p.mu;i++) addpq(Y[i],p.cmu*p.w(i));
      if (h) addpq(s.pc,p.c1);
      dVec r = P - al/ga*((2+nv2)*vn.cwiseProduct(Q) - nv2*vn.dot(Q)*vnn);
      double den = 1+b*vnn.dot(iav);
      bad = std::max(bad,1/std::fabs(den));
      dVec sv = r.cwiseQuotient(a) - b*r.dot(iav)/den*iav;
      s.v = v + Q/nv - al/nv*((2+nv2)*vn.cwiseProduct(sv) - sv.dot(vnn)*vn);
      s.C.col(0) = D + D.cwiseProduct(sv);
    }
  else
    {
      auto outer = [&](const dVec &y) -> dMat { if (p.sep) return y.cwiseProduct(y); return y*y.transpose(); };
      dMat plus = outer(dVec::Zero(n)), minus = plus;
      for (int i=0;i<p.mu;i++)
	{
	  plus += p.w(i)*outer(Y[i]);
	  minus += p.w(i)*outer(Y[p.lambda-1-i]);
	}
      if (!p.active)
	s.C = (1-p.c1-p.cmu+(h ? 0.0 : p.c1*p.cc*(2-p.cc)))*s.C + p.c1*outer(s.pc) + p.cmu*plus;
      else
	{
	  double mx;
	  if (p.sep) mx = minus.cwiseQuotient(s.C).maxCoeff();
	  else { dMat t = isq*minus*isq; Eigen::SelfAdjointEigenSolver<dMat> es(dMat(0.5*(t+t.transpose()))); mx = es.eigenvalues().maxCoeff(); }
	  double cm = (1-p.cmu)*0.25*p.muw/(std::pow(n+2.0,1.5)+2*p.muw);
	  cm = std::min(cm,(1-p.cmu)*0.34/mx);
	  s.C = (1-p.c1-p.cmu+0.5*cm)*s.C + p.c1*outer(s.pc) + (p.cmu+0.5*cm)*plus - cm*minus;
	}
    }
  if (!p.tpa2) s.sigma *= std::exp(p.cs/p.ds*(np/p.chi-1));
  else if (niter > 0)
    {
      s.tpas = 0.7*s.tpas + 0.3*rankdiff/(p.lambda-1.0);
      s.sigma *= std::exp(s.tpas/p.ds);
    }
  s.m = m;
  return margin;
}
#endif
