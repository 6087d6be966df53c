// C07: each iteration updates the distribution by the published equations (reference.hpp).
#include "updates.hpp"

static void prop(Gen &g, Ctx &ctx)
{
  GOpt o;
  o.algos = {0,3,6,9,12,0,3,6,9,12,1,2,4,5,7,8,10,11,13,14};
  o.noisy = true; o.mt = false; o.edm = false;
  o.maxiter = g.size() > 1 ? 120 : 30;
  bool big = g.chance(1,2000);
  if (big) { o.algos = {6,9}; o.gpts = {0}; }
  else if (g.chance(1,10)) { o.mindim = 8; o.maxdim = 25; }
  Cfg c = gen_cfg(g,o);
  if (big)
    {
      c.n = g.range(998,1003); c.x0 = dv(c.n,0.5); c.max_iter = 3; c.custom = false; c.obj.c.clear();
      ctx.label("dim~1000");
    }
  if (c.family()) { c.restarts = g.range(1,4); c.max_iter = std::min(c.max_iter,12); if (c.lambda > 12) c.lambda = 12; }
  if (c.n > 1 && g.chance(1,6)) { int k = g.draw(c.n-1); c.fixed[k] = c.gpt ? 0.5*(c.lb[k]+c.ub[k]) : 0.3; }
  if (c.tpa == 2 && c.elit && c.lambda > 0 && c.lambda < 4) c.lambda = 4;
  if (c.tpa == 2 && c.grad && c.lambda > 0 && c.lambda < 4) c.lambda = 4;
  labels(ctx,c);
  ctx.sample(c.describe());
  with_gp(c,[&](auto tag)
    {
      typedef typename decltype(tag)::type GP;
      Res r = run<GP>(c,&ctx);
      int checked = check_updates<GP>(ctx,c,r);
      ctx.nontrivial(checked >= 3);
      if (checked >= 10) ctx.label("ten-iterations-checked");
    });
}

int main(int argc, char **argv)
{
  return pbt::pbt_main(argc,argv,Property{"C07","A case is a recorded run of one of the 15 algorithms with generated dimension, population size, transform and options; after each iteration the mean, step-size and covariance are compared with those of a reference model of the published equations fed with the evaluated ranked population, the reference keeping its own evolution paths. Non-trivial: at least 3 iterations were compared (states with a condition number above 1e11 or a step-size below the resolution of the mean are not).",prop,40000,100000000});
}
