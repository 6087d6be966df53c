#pragma once
// C16: surrogate-assisted runs, driven with scripted models, and the ranking SVM.
#include "common.hpp"
#include <libcmaes/surrcmaes.h>

typedef std::vector<Candidate> Cands;
struct Pt { dv x; double f; };       // user space, internal sign
struct Train { std::vector<Pt> set; size_t calls; };
struct Pred { std::vector<dv> g; size_t calls; };

// scripted models: a function of the point only.
inline double model(const Cfg &c, int kind, const dv &y)
{
  double t = c.obj(y.data(),y.size());
  if (c.maxi) t = -t;
  if (kind == 0) return t;
  if (kind == 1) return -t;
  if (kind == 2)
    {
      uint64_t h = 1469598103934665603ull;
      for (double d : y) { uint64_t b; std::memcpy(&b,&d,8); h = (h^b)*1099511628211ull; h ^= h >> 29; }
      return (h >> 11)*1.0/9007199254740992.0;
    }
  return 1.0;
}

// ranking error: share of the pairs that the model orders against the true values.
inline bool rank_error(const std::vector<double> &truth, const std::vector<double> &pred, double &err)
{
  double e = 0, n = 0;
  for (size_t i=0;i<truth.size();i++)
    for (size_t j=i+1;j<truth.size();j++)
      {
	if (truth[i] == truth[j]) return false; // order not defined
	bool up = truth[i] > truth[j];
	if (up ? pred[i] < pred[j] : pred[j] < pred[i]) e++;
	n++;
      }
  err = n ? e/n : 0;
  return true;
}

struct Setup { int mk = 0, l = 10, nsteps = 1, lp = 0, pl = 0; bool exploit = true; };

template <class GP> dv upheno(const GP &gp, const dVec &x) { return tov(gp.pheno(x)); }


// compiled in parts, per strategy and transform.
template <class GP> void scripted_simple(Gen &g, Ctx &ctx, const Cfg &c, const Setup &su, std::vector<Call> *out);
template <class GP> void scripted_acm(Gen &g, Ctx &ctx, const Cfg &c, const Setup &su, std::vector<Call> *out);
template <class GP> std::vector<Call> off_simple(Ctx &ctx, const Cfg &c, CMASolutions &sol);
template <class GP> std::vector<Call> off_acm(Ctx &ctx, const Cfg &c, CMASolutions &sol);
