// C21: the Python module against the C++ library, in one process: the same problem, settings and seed through both.
#include <Python.h>
#include "common.hpp"
#include <libcmaes/surrogatestrategy.h>

static const char *SCRIPT = R"PY(
import sys, lcmaes, verif
try:
    import lcmaes_interface as lci
except ImportError as e: # plotting is not needed
    import types
    sys.modules['cma_multiplt'] = types.ModuleType('cma_multiplt')
    import lcmaes_interface as lci

def params(s):
    k = s['gpt']
    x0, sg, l, sd = s['x0'], s['sigma'], s['lambda'], s['seed']
    gp = None
    if s['interface']:
        kw = dict(str_algo=s['algo'], fplot=False)
        if k == 1: kw.update(lbounds=s['lb'], ubounds=s['ub'])
        if k == 2: kw.update(vscaling=s['scal'], vshift=s['shft'])
        if k == 3: kw.update(lbounds=s['lb'], ubounds=s['ub'], scaling=True)
        kw.update(seed=sd)
        if s['max_iter'] >= 0: kw['max_iter'] = s['max_iter']
        return lci.to_params(x0, sg, **kw), None
    if k == 0:
        if s['simple']:
            a = [x0, sg, l, sd]
            if s['defaults'] and l == -1: a = [x0, sg]
            p = lcmaes.make_simple_parameters(*a)
        else:
            gp = lcmaes.make_genopheno([], [], len(x0)) if s['emptygp'] else lcmaes.GenoPhenoNB()
            p = lcmaes.make_parameters(x0, sg, gp, l, sd)
    elif k == 1:
        gp = lcmaes.make_genopheno_pwqb(s['lb'], s['ub'], len(x0))
        p = lcmaes.make_parameters_pwqb(x0, sg, gp) if s['defaults'] and l == -1 else lcmaes.make_parameters_pwqb(x0, sg, gp, l, sd)
    elif k == 2:
        gp = lcmaes.make_genopheno_ls(s['scal'], s['shft'])
        p = lcmaes.make_parameters_ls(x0, sg, gp, l, sd)
    else:
        gp = lcmaes.make_genopheno_pwqb_ls(s['lb'], s['ub'], len(x0))
        p = lcmaes.make_parameters_pwqb_ls(x0, sg, gp, l, sd)
    if s['defaults']: p.set_seed(sd)
    return p, gp

def run_case(s):
    p, gp = params(s)
    if not s['interface']: p.set_str_algo(s['algo'])
    for name, args in s['calls']:
        getattr(p, name)(*args)
    if s['callable'] == 0: f = lcmaes.fitfunc_pbf.from_callable(verif.obj)
    elif s['callable'] == 1: f = lcmaes.fitfunc_pbf.from_callable(lambda x, n: verif.obj(x, n))
    else: f = lci.to_fitfunc(lambda x: verif.obj(x, len(x)))
    r = {}
    r['get'] = [p.get_max_iter(), p.get_ftarget(), p.get_seed(), p.get_ftolerance(), p.get_xtolerance(), p.lambda_(), p.dim(), int(p.quiet()), p.get_algo(), int(p.get_gradient()), int(p.get_edm()), int(p.get_mt_feval()), int(p.get_uh()), p.get_tpa()]
    r['fplot'] = p.get_fplot()
    if s['surrogate']:
        def train(c, m):
            verif.train([lcmaes.get_candidate_x(x) for x in c], [x.get_fvalue() for x in c], [float(v) for v in m.ravel()])
            return 0
        def predict(c, m):
            for x in c: x.set_fvalue(verif.model(lcmaes.get_candidate_x(x)))
            return 0
        fn = [lcmaes.surrpcmaes, lcmaes.surrpcmaes_pwqb, lcmaes.surrpcmaes_ls, lcmaes.surrpcmaes_pwqb_ls][s['gpt']]
        sol = fn(f, lcmaes.csurrfunc_pbf.from_callable(train), lcmaes.surrfunc_pbf.from_callable(predict), p, s['exploit'], s['l'])
    elif s['interface']: sol = lci.pcmaes(f, p)
    else: sol = [lcmaes.pcmaes, lcmaes.pcmaes_pwqb, lcmaes.pcmaes_ls, lcmaes.pcmaes_pwqb_ls][s['gpt']](f, p)
    cov, sep = lcmaes.get_solution_cov(sol), lcmaes.get_solution_sepcov(sol)
    b = sol.best_candidate()
    r['num'] = [sol.niter(), sol.fevals(), sol.size(), sol.run_status()]
    r['val'] = [sol.sigma(), sol.edm(), sol.min_eigenv(), sol.max_eigenv(), b.get_fvalue()]
    r['msg'] = sol.run_status_msg()
    r['eig'] = list(sol.eigenvalues())
    r['xmean'] = lcmaes.get_solution_xmean(sol)
    r['best'] = lcmaes.get_candidate_x(b)
    r['pheno'] = lcmaes.get_best_candidate_pheno(sol, gp) if s['gpt'] == 1 and gp is not None else []
    sol.elapsed_time(); sol.elapsed_last_iter()
    sol.sort_candidates()
    b.set_fvalue(2.5)
    assert b.get_fvalue() == 2.5
    del sol, p, b # what was taken from them has to live on
    junk = [[float(i)]*40 for i in range(50)]
    r['covshape'], r['cov'] = list(cov.shape), [float(v) for v in cov.ravel()]
    r['sepshape'], r['sep'] = list(sep.shape), [float(v) for v in sep.ravel()]
    return r
)PY";

// state shared with the functions Python calls.
static Obj g_obj;
static int g_dim;
static std::vector<dv> g_calls;
static std::vector<dv> g_train;
static std::vector<dv> g_trainx;
static std::string g_err;
static double model(const double *x, int n) { double s = 0; for (int i=0;i<n;i++) s += (x[i]-0.3*i)*(x[i]-0.3*i)+0.1*x[i]; return s; }

static bool tolist(PyObject *o, dv &v)
{
  if (!PyList_Check(o)) return false;
  for (Py_ssize_t i=0;i<PyList_Size(o);i++)
    {
      PyObject *e = PyList_GetItem(o,i);
      if (!PyFloat_Check(e)) return false;
      v.push_back(PyFloat_AsDouble(e));
    }
  return true;
}
static PyObject *py_obj(PyObject *, PyObject *args)
{
  PyObject *l; int n;
  if (!PyArg_ParseTuple(args,"Oi",&l,&n)) return nullptr;
  dv x;
  if (!tolist(l,x)) g_err = "objective called with something else than a list of floats";
  if (n != (int)x.size() || n != g_dim) g_err = "objective called with " + std::to_string(x.size()) + " values and dimension " + std::to_string(n);
  double f = g_obj(x.data(),x.size());
  g_calls.push_back(x);
  return PyFloat_FromDouble(f);
}
static PyObject *py_model(PyObject *, PyObject *args)
{
  PyObject *l;
  if (!PyArg_ParseTuple(args,"O",&l)) return nullptr;
  dv x;
  if (!tolist(l,x)) g_err = "candidate is not a list of floats";
  return PyFloat_FromDouble(model(x.data(),x.size()));
}
static PyObject *py_train(PyObject *, PyObject *args)
{
  PyObject *xs, *fs, *m;
  if (!PyArg_ParseTuple(args,"OOO",&xs,&fs,&m)) return nullptr;
  dv all, mm;
  for (Py_ssize_t i=0;i<PyList_Size(xs);i++) tolist(PyList_GetItem(xs,i),all);
  tolist(fs,all);
  tolist(m,mm);
  g_train.push_back(mm);
  g_trainx.push_back(all);
  Py_RETURN_NONE;
}
static PyMethodDef METHODS[] = {{"obj",py_obj,METH_VARARGS,""},{"model",py_model,METH_VARARGS,""},{"train",py_train,METH_VARARGS,""},{nullptr,nullptr,0,nullptr}};
static PyModuleDef MODULE = {PyModuleDef_HEAD_INIT,"verif",nullptr,-1,METHODS,nullptr,nullptr,nullptr,nullptr};
static PyObject *initmod() { return PyModule_Create(&MODULE); }
static PyObject *run_case_fn;

static PyObject *pylist(const dv &v) { PyObject *l = PyList_New(0); for (double d : v) { PyObject *f = PyFloat_FromDouble(d); PyList_Append(l,f); Py_DECREF(f); } return l; }
static void put(PyObject *d, const char *k, PyObject *v) { PyDict_SetItemString(d,k,v); Py_DECREF(v); }
static std::string pyerr()
{
  PyObject *t, *v, *tb;
  PyErr_Fetch(&t,&v,&tb);
  std::string s = "exception";
  if (v) { PyObject *r = PyObject_Str(v); if (r) { s = PyUnicode_AsUTF8(r); Py_DECREF(r); } }
  if (t) { PyObject *r = PyObject_Str(t); if (r) { s = std::string(PyUnicode_AsUTF8(r)) + ": " + s; Py_DECREF(r); } }
  return s;
}
static dv nums(PyObject *d, const char *k)
{
  dv v;
  PyObject *l = PyDict_GetItemString(d,k);
  for (Py_ssize_t i=0;l && i<PyList_Size(l);i++) v.push_back(PyFloat_AsDouble(PyList_GetItem(l,i)));
  return v;
}

template <class GP> void body(Gen &g, Ctx &ctx, Cfg c)
{
  static const char *an[] = {"cmaes","ipop","bipop","acmaes","aipop","abipop","sepcmaes","sepipop","sepbipop","sepacmaes","sepaipop","sepabipop","vdcma","vdipopcma","vdbipopcma"};
  bool iface = g.chance(1,4), surr = !iface && !c.family() && !c.vd() && !c.sep() && c.algo == 0 && g.chance(1,3);
  if (surr) { c.uh = c.grad = c.edm = false; c.tpa = -1; c.fixed.clear(); if (c.gpt == 3 || c.gpt == 2) { } }
  if (iface) c.lambda = -1;
  bool simple = g.flip(), defaults = g.flip(), emptygp = false;
  bool exploit = g.chance(2,3);
  int l = g.range(5,40), callable = g.draw(2);
  // the same calls, in the same order, for both.
  std::vector<std::pair<std::string,dv>> calls;
  std::vector<std::string> scalls;
  PyObject *pc = PyList_New(0);
  auto call = [&](const char *name, std::vector<PyObject*> args, const std::string &txt)
    {
      PyObject *t = PyTuple_New(args.size());
      for (size_t i=0;i<args.size();i++) PyTuple_SetItem(t,i,args[i]);
      PyObject *p = Py_BuildValue("(sN)",name,t);
      PyList_Append(pc,p);
      Py_DECREF(p);
      scalls.push_back(std::string(name) + "(" + txt + ")");
    };
  auto B = [](bool b) { return PyBool_FromLong(b); };
  auto I = [](long v) { return PyLong_FromLong(v); };
  auto F = [](double v) { return PyFloat_FromDouble(v); };
  std::vector<std::function<void(CMAParameters<GP>&)>> cpp;
  if (c.noisy) { call("set_noisy",{},""); cpp.push_back([](CMAParameters<GP> &p) { p.set_noisy(); }); }
  { int v = c.max_iter; call("set_max_iter",{I(v)},std::to_string(v)); cpp.push_back([v](CMAParameters<GP> &p) { p.set_max_iter(v); }); }
  if (c.max_fev >= 0) { int v = c.max_fev; call("set_max_fevals",{I(v)},std::to_string(v)); cpp.push_back([v](CMAParameters<GP> &p) { p.set_max_fevals(v); }); }
  if (c.has_ft) { double v = c.ftarget; call("set_ftarget",{F(v)},str(v)); cpp.push_back([v](CMAParameters<GP> &p) { p.set_ftarget(v); }); if (g.chance(1,3)) { call("reset_ftarget",{},""); cpp.push_back([](CMAParameters<GP> &p) { p.reset_ftarget(); }); } }
  if (c.ftol >= 0) { double v = c.ftol; call("set_ftolerance",{F(v)},str(v)); cpp.push_back([v](CMAParameters<GP> &p) { p.set_ftolerance(v); }); }
  if (c.xtol >= 0) { double v = c.xtol; call("set_xtolerance",{F(v)},str(v)); cpp.push_back([v](CMAParameters<GP> &p) { p.set_xtolerance(v); }); }
  if (c.uh) { call("set_uh",{B(true)},"True"); cpp.push_back([](CMAParameters<GP> &p) { p.set_uh(true); }); }
  if (c.grad) { call("set_gradient",{B(true)},"True"); cpp.push_back([](CMAParameters<GP> &p) { p.set_gradient(true); }); }
  if (c.edm) { call("set_edm",{B(true)},"True"); cpp.push_back([](CMAParameters<GP> &p) { p.set_edm(true); }); }
  if (c.tpa >= 0) { int v = c.tpa; call("set_tpa",{I(v)},std::to_string(v)); cpp.push_back([v](CMAParameters<GP> &p) { p.set_tpa(v); }); }
  if (c.mt) { omp_set_dynamic(0); omp_set_num_threads(c.threads); call("set_mt_feval",{B(true)},"True"); cpp.push_back([](CMAParameters<GP> &p) { p.set_mt_feval(true); }); }
  for (auto &q : c.fixed) { int i = q.first; double v = q.second; call("set_fixed_p",{I(i),F(v)},std::to_string(i) + "," + str(v)); cpp.push_back([i,v](CMAParameters<GP> &p) { p.set_fixed_p(i,v); }); if (g.chance(1,4)) { call("unset_fixed_p",{I(i)},std::to_string(i)); cpp.push_back([i](CMAParameters<GP> &p) { p.unset_fixed_p(i); }); } }
  if (c.restarts >= 0) { int v = c.restarts; call("set_restarts",{I(v)},std::to_string(v)); cpp.push_back([v](CMAParameters<GP> &p) { p.set_restarts(v); }); }
  if (c.sep() && g.chance(1,3)) { call("set_sep",{},""); cpp.push_back([](CMAParameters<GP> &p) { p.set_sep(); }); }
  if (g.chance(1,8)) { call("initialize_parameters",{},""); cpp.push_back([](CMAParameters<GP> &p) { p.initialize_parameters(); }); }
  call("set_quiet",{B(true)},"True"); cpp.push_back([](CMAParameters<GP> &p) { p.set_quiet(true); });
  std::string txt;
  for (auto &s : scalls) txt += " " + s;
  ctx.sample((surr ? "surrogate " : (iface ? "interface " : "")) + c.describe() + " calls:" + txt);
  labels(ctx,c);
  ctx.label(surr ? "surrogate" : (iface ? "interface" : "module"));

  // C++
  GP gp;
  if (c.gpt == 0) gp = GP();
  else gp = make_gp<GP>(c);
  CMAParameters<GP> p(c.x0,c.sigma,c.lambda,c.seed,gp);
  p.set_algo(c.algo);
  for (auto &f : cpp) f(p);
  CMAParameters<GP> before = p;
  auto rec = std::make_shared<Rec>();
  FitFunc f = recfunc(c,rec,&ctx);
  CMASolutions s;
  std::vector<dv> train, trainx;
  if (surr)
    {
      ESOptimizer<ACMSurrogateStrategy<CMAStrategy,CovarianceUpdate,GP>,CMAParameters<GP>> opt(f,p);
      opt.set_ftrain([&](const std::vector<Candidate> &cs, const dMat &m)
	{
	  dv all;
	  for (auto &x : cs) for (int i=0;i<x.get_x_dvec().size();i++) all.push_back(x.get_x_dvec()(i));
	  for (auto &x : cs) all.push_back(x.get_fvalue());
	  trainx.push_back(all);
	  train.push_back(dv(m.data(),m.data()+m.size()));
	  return 0;
	});
      opt.set_fpredict([&](std::vector<Candidate> &cs, const dMat &)
	{
	  for (auto &x : cs) { dVec v = x.get_x_dvec(); x.set_fvalue(model(v.data(),v.size())); }
	  return 0;
	});
      opt.set_exploit(exploit);
      opt.set_l(l);
      opt.optimize();
      s = opt.get_solutions();
    }
  else s = cmaes<GP>(f,p);

  // Python
  g_obj = c.obj; g_dim = c.n; g_err.clear();
  PyObject *d = PyDict_New();
  put(d,"gpt",I(c.gpt)); put(d,"x0",pylist(c.x0)); put(d,"sigma",F(c.sigma)); put(d,"lambda",I(c.lambda)); put(d,"seed",I(c.seed));
  put(d,"lb",pylist(c.lb)); put(d,"ub",pylist(c.ub)); put(d,"scal",pylist(c.scal)); put(d,"shft",pylist(c.shft));
  put(d,"algo",PyUnicode_FromString(an[c.algo])); put(d,"interface",B(iface)); put(d,"simple",B(simple)); put(d,"defaults",B(defaults)); put(d,"emptygp",B(emptygp));
  put(d,"max_iter",I(iface ? c.max_iter : -1)); put(d,"surrogate",B(surr)); put(d,"exploit",B(exploit)); put(d,"l",I(l)); put(d,"callable",I(callable));
  put(d,"calls",pc);
  PyObject *r = PyObject_CallFunctionObjArgs(run_case_fn,d,nullptr);
  if (!r) ctx.fail("exception",pyerr());
  ctx.check(g_err.empty(),"arguments",[&]{ return g_err; });
  // evaluated points.
  std::vector<Call> &cc = rec->calls;
  if (c.mt) // in any order within a population
    {
      auto key = [](std::vector<dv> v) { std::sort(v.begin(),v.end()); return v; };
      std::vector<dv> a;
      for (auto &q : cc) a.push_back(q.x);
      ctx.check(key(a) == key(g_calls),"points",[&]{ return "other points are evaluated (" + str((int)cc.size()) + " and from Python " + str((int)g_calls.size()) + ")"; });
    }
  else
    {
      ctx.check(cc.size() == g_calls.size(),"evaluations",[&]{ return str((int)cc.size()) + " evaluations, from Python " + str((int)g_calls.size()); });
      for (size_t i=0;i<cc.size();i++)
	ctx.check(same(cc[i].x,g_calls[i]),"points",[&]{ return "evaluation " + str((int)i) + " at " + str(cc[i].x) + ", from Python at " + str(g_calls[i]); });
    }
  ctx.check(train.size() == g_train.size(),"trainings",[&]{ return str((int)train.size()) + " trainings, from Python " + str((int)g_train.size()); });
  for (size_t i=0;i<train.size();i++)
    {
      ctx.check(same(trainx[i],g_trainx[i]),"train-set",[&]{ return "training set " + str((int)i) + " differs"; });
      ctx.check(same(train[i],g_train[i]),"train-matrix",[&]{ return "matrix of training " + str((int)i) + " differs"; }); // symmetric
    }
  // settings.
  dv get = nums(r,"get");
  dv want = {(double)before.get_max_iter(),before.get_ftarget(),(double)before.get_seed(),before.get_ftolerance(),before.get_xtolerance(),(double)before.lambda(),(double)before.dim(),(double)before.quiet(),(double)before.get_algo(),(double)before.get_gradient(),(double)before.get_edm(),(double)before.get_mt_feval(),(double)before.get_uh(),(double)before.get_tpa()};
  ctx.check(same(get,want),"settings",[&]{ return "settings " + str(want) + ", from Python " + str(get); });
  // solution.
  dv num = nums(r,"num"), wn = {(double)s.niter(),(double)s.fevals(),(double)s.size(),(double)s.run_status()};
  ctx.check(same(num,wn),"counts",[&]{ return "iterations, evaluations, size, status " + str(wn) + ", from Python " + str(num); });
  Candidate b = s.best_candidate();
  dv val = nums(r,"val"), wv = {s.sigma(),s.edm(),s.min_eigenv(),s.max_eigenv(),b.get_fvalue()};
  ctx.check(same(val,wv),"values",[&]{ return "step-size, expected distance, extreme eigenvalues, value " + str(wv) + ", from Python " + str(val); });
  auto vec = [](const dVec &v) { return dv(v.data(),v.data()+v.size()); };
  ctx.check(same(nums(r,"xmean"),vec(s.xmean())),"mean",[&]{ return "mean " + str(dVec(s.xmean())) + ", from Python " + str(nums(r,"xmean")); });
  ctx.check(same(nums(r,"best"),vec(b.get_x_dvec())),"best",[&]{ return "best " + str(b.get_x_dvec()) + ", from Python " + str(nums(r,"best")); });
  ctx.check(same(nums(r,"eig"),vec(s.eigenvalues())),"eigenvalues",[&]{ return "eigenvalues " + str(dVec(s.eigenvalues())) + ", from Python " + str(nums(r,"eig")); });
  if (c.gpt == 1 && !iface) ctx.check(same(nums(r,"pheno"),vec(p.get_gp().pheno(b.get_x_dvec()))),"pheno",[&]{ return "best in user space " + str(dVec(p.get_gp().pheno(b.get_x_dvec()))) + ", from Python " + str(nums(r,"pheno")); });
  dMat C = s.cov();
  dMat Ct = C.transpose();
  dv cs = {(double)C.rows(),(double)C.cols()};
  bool emptyc = C.size() == 0;
  ctx.check(emptyc ? nums(r,"cov").empty() : same(nums(r,"covshape"),cs),"cov-shape",[&]{ return "covariance of size " + str(cs) + ", from Python " + str(nums(r,"covshape")); });
  if (!emptyc) ctx.check(same(nums(r,"cov"),dv(C.data(),C.data()+C.size())) || same(nums(r,"cov"),dv(Ct.data(),Ct.data()+Ct.size())),"cov",[&]{ return "covariance " + str(dv(C.data(),C.data()+C.size())) + ", from Python " + str(nums(r,"cov")); });
  dMat S = s.sepcov();
  ctx.check(same(nums(r,"sep"),dv(S.data(),S.data()+S.size())),"sepcov",[&]{ return "diagonal " + str(dv(S.data(),S.data()+S.size())) + ", from Python " + str(nums(r,"sep")); });
  PyObject *m = PyDict_GetItemString(r,"msg");
  std::string msg = m ? PyUnicode_AsUTF8(m) : "";
  ctx.check(msg == s.status_msg(),"message",[&]{ return "status " + s.status_msg() + ", from Python " + msg; });
  ctx.nontrivial(s.niter() >= 2 && cc.size() >= 8);
}

static void prop(Gen &g, Ctx &ctx)
{
  GOpt o; o.lin0 = false;
  o.algos = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,0,0};
  o.gpts = {0,1,2,3};
  o.custom = false; o.scal_ctor = false; o.mt = true; o.uh = true; o.maxi = false; o.lazy = false; o.initf = false; o.elit = false; o.noisy = true; o.big = false;
  o.maxiter = 15;
  Cfg c = gen_cfg(g,o);
  c.ugrad = false;
  if (c.gpt == 2)
    {
      c.scal_ctor = true;
      for (int i=0;i<c.n;i++) { c.scal.push_back(g.logu(1e-2,1e2)); c.shft.push_back(g.uniform(-3,3)); }
    }
  c.restarts = g.chance(1,3) || c.family() ? g.range(1,3) : -1;
  if (g.chance(1,6)) c.max_fev = g.range(5,300);
  if (g.chance(1,6)) { c.has_ft = true; c.ftarget = g.uniform(-5,5); }
  if (g.chance(1,8)) c.ftol = g.logu(1e-12,1);
  if (g.chance(1,8)) c.xtol = g.logu(1e-12,1);
  if (c.n > 1 && g.chance(1,5)) { int i = g.draw(c.n-1); c.fixed[i] = c.bounded() ? c.lb[i]+(c.ub[i]-c.lb[i])*g.uniform(0.2,0.8) : c.x0[i]; }
  if (c.family() && c.lambda > 12) c.lambda = 12;
  if (c.noisy && c.lambda > 12) c.noisy = false;
  with_gp(c,[&](auto tag) { body<typename decltype(tag)::type>(g,ctx,c); });
}

int main(int argc, char **argv)
{
  const char *bd = getenv("VERIF_BDIR");
  if (!bd) { fprintf(stderr,"VERIF_BDIR not set\n"); return 3; }
  PyImport_AppendInittab("verif",initmod);
  Py_InitializeEx(0);
  std::string pre = "import sys\nsys.dont_write_bytecode = True\nsys.path[:0] = ['" + std::string(bd) + "/lib/python','" VERIF_REPO_DIR "/python']\n";
  PyObject *mod = PyImport_AddModule("__main__");
  PyObject *d = PyModule_GetDict(mod);
  if (PyRun_SimpleString(pre.c_str()) || PyRun_SimpleString(SCRIPT)) return 3;
  run_case_fn = PyDict_GetItemString(d,"run_case");
  return pbt::pbt_main(argc,argv,Property{"C21","A case is a problem, transform, algorithm, seed and sequence of settings, run through the C++ interface and through the Python module (or its lcmaes_interface layer, or with a surrogate written in Python); evaluated points, training sets, settings read back and every accessor of the solution must be the same bits. Non-trivial: at least two iterations and eight evaluations.",prop,40000,100000000,60});
}
