// C22: the statistics reported in every state describe the distribution of that state, and the output file holds those states.
#include "reference.hpp"
#include <fstream>
#include <Eigen/Eigenvalues>

static bool near(double a, double b, double rel, double abs_=0.0)
{
  if (std::isnan(a) && std::isnan(b)) return true;
  if (a == b) return true;
  return std::fabs(a-b) <= rel*std::max(std::fabs(a),std::fabs(b))+abs_;
}

struct Line { std::vector<double> v; };

// what a line of the output file has to hold, but for the elapsed time.
template <class GP> std::vector<double> expected(const Cfg &c, const CMAParameters<GP> &p, const CMASolutions &s)
{
  std::vector<double> r = { std::fabs(s.best_candidate().get_fvalue()), (double)s.fevals(), s.sigma(), s.min_eigenv() == 0 ? 1.0 : std::sqrt(s.max_eigenv()/s.min_eigenv()) };
  auto add = [&](const dVec &v) { for (int i=0;i<v.size();i++) r.push_back(v(i)); };
  if (c.fullplot)
    {
      r.push_back(s.get_best_seen_candidate().get_fvalue());
      r.push_back(s.get_candidate(s.size()/2).get_fvalue());
      r.push_back(s.get_worst_seen_candidate().get_fvalue());
      r.push_back(s.min_eigenv());
      r.push_back(s.max_eigenv());
      add(s.get_best_seen_candidate().get_x_size() ? s.get_best_seen_candidate().get_x_dvec() : dVec(dVec::Zero(c.n)));
    }
  add(s.eigenvalues().size() ? s.eigenvalues() : dVec(dVec::Zero(c.n)));
  add(s.stds(p));
  add(p.get_gp().pheno(s.xmean()));
  return r;
}

template <class GP> void body(Gen &g, Ctx &ctx, Cfg c)
{
  const char *t = getenv("VERIF_TMP");
  bool file = g.chance(2,3), own = false;
  if (file)
    {
      c.fplot = std::string(t ? t : "/tmp") + "/c22." + std::to_string(getpid());
      c.fullplot = g.chance(1,3);
      own = !c.fullplot && g.chance(1,6);
    }
  int stop_at = g.chance(1,6) ? (int)g.draw(6) : -1;
  ctx.sample(c.describe() + (own ? " own-output" : "") + (stop_at >= 0 ? " stopped-at=" + std::to_string(stop_at) : ""));
  labels(ctx,c);
  std::vector<std::vector<double>> want;
  std::vector<int> headers;
  std::vector<dMat> covs; // of the states of this run
  int states = 0, calls = 0, decomposed = 0;
  bool fin = true, corrs = false, lost = false;
  auto file_it = [&](const CMAParameters<GP> &p, const CMASolutions &s)
    {
      if (stop_at >= 0 && s.niter() == stop_at) return 1;
      if (file)
	{
	  if (s.niter() == 0) headers.push_back(want.size());
	  want.push_back(expected(c,p,s));
	}
      return 0;
    };
  ProgressFunc<CMAParameters<GP>,CMASolutions> pf = [&](const CMAParameters<GP> &p, const CMASolutions &s)
    {
      int n = c.n;
      std::string at = "state " + str(states) + " (iteration " + str(s.niter()) + "): ";
      ++states;
      if (s.niter() == 0) { covs.clear(); lost = false; }
      fin = fin && s.xmean().allFinite() && s.full_cov().allFinite() && std::isfinite(s.sigma());
      if (!fin) return 1; // diverged: overflow
      dMat C = s.full_cov();
      ctx.check(s.sigma() > 0,"sigma",[&]{ return at + "step-size " + str(s.sigma()); });
      ctx.check(C.rows() == n && C.cols() == n,"size",[&]{ return at + "covariance of size " + str((int)C.rows()); });
      ctx.check(s.dim() == n,"dim",[&]{ return at + "dimension " + str(s.dim()); });
      double m = C.cwiseAbs().maxCoeff();
      ctx.check((C-C.transpose()).cwiseAbs().maxCoeff() <= 1e-12*m,"symmetric",[&]{ return at + "covariance not symmetric"; });
      Eigen::SelfAdjointEigenSolver<dMat> es(0.5*(C+C.transpose()));
      double emin = es.eigenvalues().minCoeff(), emax = es.eigenvalues().maxCoeff();
      if (emin < 0 && c.active())
	{
	  // the published bound of the negative update leaves a positive covariance only with this learning rate.
	  RefPar rp(n,p.lambda(),c,c.fixed.size());
	  if (c.lazy || rp.c1 > 0.66*(1-rp.cmu)) lost = true;
	}
      if (lost) return file_it(p,s);
      ctx.check(emin >= -1e-9*emax,"psd",[&]{ return at + "covariance with eigenvalues " + str(dVec(es.eigenvalues())); });
      if (c.sep())
	ctx.check((C-dMat(dVec(s.sepcov()).asDiagonal())).cwiseAbs().maxCoeff() == 0.0 && s.cov().size() == 0,"sep",[&]{ return at + "full covariance is not that of the diagonal"; });
      else if (!c.vd())
	{
	  ctx.check(same(C,s.cov()) && same(C,dMat(s.cov_ref())) && same(C,dMat(Eigen::Map<const dMat>(s.cov_data(),n,n))),"cov",[&]{ return at + "accessors of the covariance differ"; });
	}
      if (c.sep())
	ctx.check(same(dMat(s.sepcov()),dMat(s.sepcov_ref())) && same(dMat(s.sepcov()),dMat(Eigen::Map<const dMat>(s.sepcov_data(),n,1))),"sepcov",[&]{ return at + "accessors of the covariance differ"; });
      // standard deviations.
      dVec sd = C.diagonal().cwiseSqrt();
      dVec ph = p.get_gp().pheno(s.xmean());
      dVec phs = p.get_gp().pheno(dVec(s.xmean()+sd));
      dVec ulp = 1e-14*(s.xmean().cwiseAbs()+sd); // of the point, as it shows in user space
      dVec phu = p.get_gp().pheno(dVec(s.xmean()+sd+ulp)), phl = p.get_gp().pheno(dVec(s.xmean()+sd-ulp));
      dVec st = s.stds(p), er = s.errors(p);
      ctx.check(st.size() == n && er.size() == n,"stds-size",[&]{ return at + "standard deviations of size " + str((int)st.size()); });
      for (int i=0;i<n;i++)
	{
	  double w = std::fabs(phs(i)-ph(i));
	  double rnd = 1e-13*(std::fabs(ph(i))+std::fabs(phs(i))+std::fabs(s.xmean()(i)));
	  if (c.bounded()) rnd += 1e-12*(std::fabs(c.lb[i])+std::fabs(c.ub[i]));
	  rnd += std::fabs(phu(i)-phl(i));
	  ctx.check(near(st(i),w,1e-8,rnd),"stds",[&]{ return at + "standard deviation " + str(st(i)) + " of parameter " + str(i) + ", its image in user space is " + str(w); });
	  ctx.check(near(er(i),std::sqrt(s.sigma())*st(i),1e-12),"errors",[&]{ return at + "error " + str(er(i)) + " of parameter " + str(i) + ", standard deviation " + str(st(i)) + " step-size " + str(s.sigma()); });
	}
      // correlations.
      if (sd.minCoeff() > 0)
	{
	  dMat R = s.corr();
	  if (c.sep())
	    ctx.check(R.rows() == n && (R.cols() == 1 ? (R.array() == 1.0).all() : same(R,dMat(dMat::Identity(n,n)))),"corr-sep",[&]{ return at + "correlations of independent parameters"; });
	  else ctx.check(R.rows() == n && R.cols() == n,"corr-size",[&]{ return at + "correlations of size " + str((int)R.rows()); });
	  for (int i=0;i<n;i++)
	    for (int j=0;j<n;j++)
	      {
		double w = i == j ? 1.0 : C(i,j)/(sd(i)*sd(j));
		double r = s.corr(i,j);
		ctx.check(std::fabs(r) <= 1+1e-9,"corr-range",[&]{ return at + "correlation of " + str(i) + " and " + str(j) + " is " + str(r) + " expected " + str(w); });
		ctx.check(near(r,w,1e-9,1e-12),"corr",[&]{ return at + "correlation of " + str(i) + " and " + str(j) + " is " + str(r) + " expected " + str(w); });
		if (!c.sep())
		  ctx.check(near(R(i,j),w,1e-9,1e-12),"corr-matrix",[&]{ return at + "correlation of " + str(i) + " and " + str(j) + " in the matrix is " + str(R(i,j)) + " expected " + str(w); });
		if (i != j && std::fabs(w) > 0.05) corrs = true;
	      }
	}
      // decomposition: of the covariance the last population was drawn with, or for lazy updates a previous one.
      if (s.niter() > 0 && !covs.empty())
	{
	  dVec l = s.eigenvalues();
	  ctx.check(l.size() == n,"eigen-size",[&]{ return at + "eigenvalues of size " + str((int)l.size()); });
	  ctx.check(s.min_eigenv() == l.minCoeff() && s.max_eigenv() == l.maxCoeff(),"extreme",[&]{ return at + "extreme eigenvalues " + str(s.min_eigenv()) + " " + str(s.max_eigenv()) + " of " + str(l); });
	  if (c.sep())
	    {
	      ctx.check(same(l,dVec(s.sepcov())),"sep-eigen",[&]{ return at + "eigenvalues " + str(l) + " of diagonal " + str(dVec(s.sepcov())); });
	      dVec q = dVec(s.sepcsqinv());
	      for (int i=0;i<n;i++)
		ctx.check(near(q(i),1.0/std::sqrt(covs.back()(i,i)),1e-9) || !(covs.back()(i,i) > 1e-200),"sep-inverse",[&]{ return at + "inverse square root " + str(q) + " of diagonal " + str(dVec(covs.back().diagonal())); });
	    }
	  else if (!c.vd())
	    {
	      dMat V = s.eigenvectors();
	      dMat Q = s.csqinv();
	      ctx.check(V.rows() == n && V.cols() == n && Q.rows() == n && Q.cols() == n,"eigenvectors-size",[&]{ return at + "eigenvectors of size " + str((int)V.rows()); });
	      dMat D = V*l.asDiagonal()*V.transpose();
	      int hit = -1;
	      for (int k=(int)covs.size()-1;k>=0 && hit<0;k--)
		{
		  if ((D-covs[k]).cwiseAbs().maxCoeff() <= 1e-9*covs[k].cwiseAbs().maxCoeff()) hit = k;
		  if (!c.lazy) break;
		}
	      ctx.check(hit >= 0,"eigen",[&]{ return at + "eigenvalues " + str(l) + " and eigenvectors are not those of the covariance of the population"; });
	      ctx.check((V.transpose()*V-dMat::Identity(n,n)).cwiseAbs().maxCoeff() <= 1e-9,"orthogonal",[&]{ return at + "eigenvectors are not orthogonal"; });
	      if (l.minCoeff() > 1e-8*l.maxCoeff())
		{
		  decomposed++;
		  double e = (Q*covs[hit]*Q-dMat::Identity(n,n)).cwiseAbs().maxCoeff();
		  ctx.check(e <= 1e-6,"inverse-root",[&]{ return at + "inverse square root of the covariance is off by " + str(e); });
		  ctx.check((Q-Q.transpose()).cwiseAbs().maxCoeff() <= 1e-8*Q.cwiseAbs().maxCoeff(),"inverse-symmetric",[&]{ return at + "inverse square root is not symmetric"; });
		}
	    }
	  else decomposed++;
	}
      else if (s.niter() == 0)
	ctx.check(s.eigenvalues().size() == 0 || s.eigenvalues().size() == n,"eigen-first",[&]{ return at + "eigenvalues of size " + str((int)s.eigenvalues().size()); });
      covs.push_back(C);
      if (covs.size() > 60) covs.erase(covs.begin());
      return file_it(p,s);
    };
  PlotFunc<CMAParameters<GP>,CMASolutions> plot = [&](const CMAParameters<GP> &p, const CMASolutions &s, std::ofstream &o)
    {
      ++calls;
      std::vector<double> e = expected(c,p,s);
      ctx.check(!want.empty() && e.size() == want.back().size() && memcmp(&e[0],&want.back()[0],e.size()*sizeof(double)) == 0,"own-state",[&]{ return "the output function is called with another state than the progress function"; });
      o << "own " << s.niter() << "\n";
      return 0;
    };
  auto rec = std::make_shared<Rec>();
  rec->store = false;
  FitFunc f = recfunc(c,rec,&ctx);
  CMAParameters<GP> p = make_params<GP>(c);
  CMASolutions sol = cmaes<GP>(f,p,pf,recgrad(c,rec),CMASolutions(),own ? plot : CMAStrategy<CovarianceUpdate,GP>::_defaultFPFunc);
  ctx.label(file ? (own ? "own-output" : (c.fullplot ? "full-output" : "output")) : "no-output");
  if (stop_at >= 0) ctx.label("stopped-by-progress");
  if (lost) ctx.label("not-positive");
  if (!fin) { unlink(c.fplot.c_str()); ctx.discard(); }
  if (file)
    {
      std::ifstream in(c.fplot);
      ctx.check((bool)in,"file",[&]{ return std::string("no output file"); });
      std::vector<std::string> lines;
      std::string l;
      while (std::getline(in,l)) lines.push_back(l);
      in.close();
      unlink(c.fplot.c_str());
      size_t k = 0, h = 0;
      for (size_t i=0;i<want.size();i++)
	{
	  if (c.fullplot && h < headers.size() && headers[h] == (int)i)
	    {
	      ++h;
	      ctx.check(k < lines.size(),"header",[&]{ return std::string("no header line"); });
	      std::istringstream is(lines[k]);
	      int dim = -1; uint64_t seed = 0;
	      is >> dim >> seed;
	      ctx.check(dim == c.n,"header-dim",[&]{ return "header " + lines[k] + " for dimension " + str(c.n); });
	      if (!c.family()) ctx.check(seed == c.seed,"header-seed",[&]{ return "header " + lines[k] + " for seed " + str(c.seed); });
	      ++k;
	      if (k < lines.size() && lines[k].empty()) ++k;
	    }
	  ctx.check(k < lines.size(),"lines",[&]{ return str((int)lines.size()) + " lines for " + str((int)want.size()) + " states"; });
	  if (own) { ctx.check(lines[k].substr(0,4) == "own ","own-line",[&]{ return "line " + lines[k]; }); ++k; continue; }
	  std::vector<double> v;
	  const char *q = lines[k].c_str();
	  char *e = nullptr;
	  for (double d = strtod(q,&e);e != q;d = strtod(q,&e)) { v.push_back(d); q = e; }
	  ctx.check(v.size() == want[i].size()+1,"columns",[&]{ return "line " + str((int)i) + " has " + str((int)v.size()) + " columns instead of " + str((int)want[i].size()+1) + ": " + lines[k]; });
	  for (size_t j=0;j<want[i].size();j++)
	    ctx.check(near(v[j],want[i][j],1e-13,1e-305),"value",[&]{ return "line " + str((int)i) + " column " + str((int)j) + " is " + str(v[j]) + " for " + str(want[i][j]); });
	  ctx.check(v.back() >= 0 && v.back() == std::floor(v.back()),"elapsed",[&]{ return "elapsed time " + str(v.back()); });
	  ++k;
	}
      ctx.check(k == lines.size(),"lines",[&]{ return str((int)lines.size()) + " lines for " + str((int)want.size()) + " states"; });
      if (own) ctx.check(calls == (int)want.size(),"own-calls",[&]{ return str(calls) + " calls for " + str((int)want.size()) + " states"; });
    }
  ctx.nontrivial(states >= 4 && (decomposed >= 2 || c.sep()) && (c.sep() || c.n < 2 || corrs));
}

static void prop(Gen &g, Ctx &ctx)
{
  GOpt o;
  o.algos = {0,3,6,9,12,0,3,12,1,4,7,2,13};
  o.uh = true; o.noisy = true;
  Cfg c = gen_cfg(g,o);
  if (c.family())
    {
      c.restarts = g.range(1,3);
      c.max_iter = std::min(c.max_iter,15);
      c.lambda = std::min(c.lambda,12);
      c.n = c.n; c.noisy = false;
      if (c.elit == 3) { c.elit = 0; c.max_fev = -1; }
    }
  if (c.noisy && c.lambda > 12) c.noisy = false;
  if (g.chance(1,5) && c.n > 1 && !c.custom)
    {
      int k = g.range(1,c.n-1);
      for (int i=0;i<k;i++) { int j = g.draw(c.n-1); c.fixed[j] = c.gpt && c.bounded() ? c.lb[j]+(c.ub[j]-c.lb[j])*g.uniform(0.3,0.7) : c.x0[j]; }
      if ((int)c.fixed.size() >= c.n) c.fixed.erase(c.fixed.begin());
    }
  // far away from the origin the mean's digits matter.
  if (c.gpt == 0 && !c.custom && g.chance(1,6)) for (double &v : c.x0) v += g.pick<double>({1e3,1e6,-1e5});
  with_gp(c,[&](auto tag) { body<typename decltype(tag)::type>(g,ctx,c); });
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C22","A case is a run of one of the 15 algorithms (restarts included) with generated settings, transform, fixed parameters, start far from or near to the origin; every state passed to the progress function is checked, and the output file (short, full or written by a user function) is parsed and compared with those states. Non-trivial: at least four states, two of them with a well-conditioned decomposition, and, unless separable or of dimension one, correlated parameters.",prop,80000,100000000,60});
}
