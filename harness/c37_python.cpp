// C37: the Python interface against the C++ one
#include <numpy_eigen/boost_python_headers.hpp>
#include "est.hpp"
#include <boost/python/exception_translator.hpp>
#include <boost/weak_ptr.hpp>
#include <cstdlib>
namespace py = boost::python; using namespace core; typedef Eigen::MatrixXd M; typedef Eigen::VectorXd V; typedef aslam::backend::AslamTruncatedSvdSolver Solver;
extern "C" PyObject* PyInit_libincremental_calibration_python();
namespace {
/// matrices as lists of rows, vectors as lists: by value, both ways
struct FromM { static PyObject* convert(const M& m) { py::list l; for (int i = 0; i < m.rows(); ++i) { py::list r; for (int k = 0; k < m.cols(); ++k) r.append(m(i, k)); l.append(r); } py::list o; o.append((int)m.rows()); o.append((int)m.cols()); o.append(l); return py::incref(o.ptr()); } };
struct FromV { static PyObject* convert(const V& m) { return FromM::convert(M(m)); } };
template <class T> struct To {
  static void* convertible(PyObject* p) { return PyList_Check(p) && PyList_Size(p) == 3 ? p : nullptr; }
  static void construct(PyObject* p, py::converter::rvalue_from_python_stage1_data* d) { py::object o(py::handle<>(py::borrowed(p))); const int n = py::extract<int>(o[0]), k = py::extract<int>(o[1]); void* at = ((py::converter::rvalue_from_python_storage<T>*)d)->storage.bytes; T* t = new (at) T(n, k); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) (*t)(i, j) = py::extract<double>(o[2][i][j]); d->convertible = at; }
};
template <> void To<V>::construct(PyObject* p, py::converter::rvalue_from_python_stage1_data* d) { py::object o(py::handle<>(py::borrowed(p))); const int n = py::extract<int>(o[0]); void* at = ((py::converter::rvalue_from_python_storage<V>*)d)->storage.bytes; V* t = new (at) V(n); for (int i = 0; i < n; ++i) (*t)(i) = py::extract<double>(o[2][i][0]); d->convertible = at; }
M matrix(const py::object& o) { const int n = py::extract<int>(o[0]), k = py::extract<int>(o[1]); M m(n, k); for (int i = 0; i < n; ++i) for (int j = 0; j < k; ++j) m(i, j) = py::extract<double>(o[2][i][j]); return m; }
void start() {
  static bool done = false; if (done) return; done = true; setenv("PYTHONMALLOC", "malloc", 1); setenv("PYTHONDONTWRITEBYTECODE", "1", 1); setenv("PYTHONNOUSERSITE", "1", 1); unsetenv("PYTHONPATH"); unsetenv("PYTHONSTARTUP");
  PyImport_AppendInittab("libincremental_calibration_python", &PyInit_libincremental_calibration_python); Py_InitializeEx(0);
  // what aslam_backend, sm and numpy_eigen bring along
  py::object mod = py::import("__main__"); py::scope in(mod);
  py::class_<DV, boost::shared_ptr<DV>, boost::noncopyable>("DesignVariable", py::no_init); py::class_<ET, boost::shared_ptr<ET>, boost::noncopyable>("ErrorTerm", py::no_init);
  py::class_<aslam::backend::OptimizationProblemBase, boost::shared_ptr<aslam::backend::OptimizationProblemBase>, boost::noncopyable>("OptimizationProblemBase", py::no_init);
  py::class_<aslam::backend::LinearSystemSolver, boost::shared_ptr<aslam::backend::LinearSystemSolver>, boost::noncopyable>("LinearSystemSolver", py::no_init);
  typedef aslam::backend::Optimizer2Options OO; py::class_<OO>("Optimizer2Options", py::init<>()).def_readwrite("convergenceDeltaJ", &OO::convergenceDeltaJ).def_readwrite("convergenceDeltaX", &OO::convergenceDeltaX).def_readwrite("maxIterations", &OO::maxIterations).def_readwrite("verbose", &OO::verbose);
  typedef aslam::backend::CompressedColumnMatrix<std::ptrdiff_t> CC; py::class_<CC>("CompressedColumnMatrix").def("toDense", &CC::toDense);
  py::class_<sm::PropertyTree>("PropertyTree", py::init<>());
  py::to_python_converter<M, FromM>(); py::to_python_converter<V, FromV>(); py::converter::registry::push_back(&To<M>::convertible, &To<M>::construct, py::type_id<M>()); py::converter::registry::push_back(&To<V>::convertible, &To<V>::construct, py::type_id<V>());
}
py::object module() { start(); return py::import("libincremental_calibration_python"); }
std::string message() { PyObject *t, *v, *b; PyErr_Fetch(&t, &v, &b); PyErr_NormalizeException(&t, &v, &b); std::string s = "?"; if (v) { PyObject* p = PyObject_Str(v); if (p) { s = PyUnicode_AsUTF8(p); Py_DECREF(p); } } Py_XDECREF(t); Py_XDECREF(v); Py_XDECREF(b); return s; }
/// runs Python; what it raised
template <class F> std::string raised(F f) { try { f(); } catch (const py::error_already_set&) { const std::string m = message(); return m.empty() ? "?" : m; } return ""; }
#define PY(c, sig, ...) if (!(c).check((err = raised([&] { __VA_ARGS__; })).empty(), sig, "%s", err.c_str())) return
template <class T> T get(const py::object& o, const char* n) { return py::extract<T>(o.attr(n)); }
template <class T> T call(const py::object& o, const char* n) { return py::extract<T>(o.attr(n)()); }
boost::shared_ptr<DV> dv(const VecSP& v) { return v; } boost::shared_ptr<ET> et(const TermSP& t) { return t; }
bool close(const M& a, const M& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || a == b); }
bool close(double a, double b) { return eqd(a, b); }
/// every figure Python can read of an estimator is the one C++ reads
void judgeFigures(mon::Ctx& c, const py::object& est, const Est& e, const char* what) {
  std::string err;
#define N_(py_, cpp_) PY(c, "figure", const double a = call<double>(est, py_); c.check(close(a, (double)cpp_), "figure", "%s reads %.17g after %s, want %.17g", py_, a, what, (double)cpp_))
  N_("getInformationGain", e.getInformationGain()); N_("getRankPsi", e.getRankPsi()); N_("getRankPsiDeficiency", e.getRankPsiDeficiency()); N_("getRankTheta", e.getRankTheta()); N_("getRankThetaDeficiency", e.getRankThetaDeficiency()); N_("getSVDTolerance", e.getSVDTolerance()); N_("getQRTolerance", e.getQRTolerance()); N_("getPeakMemoryUsage", e.getPeakMemoryUsage()); N_("getMemoryUsage", e.getMemoryUsage()); N_("getNumFlops", e.getNumFlops()); N_("getNumBatches", e.getNumBatches()); N_("getMargGroupId", e.getMargGroupId());
#undef N_
#define N_(py_, cpp_) PY(c, "figure", const M a = matrix(est.attr(py_)()); c.check(close(a, M(cpp_)), "figure", "%s reads another matrix (%ld x %ld) after %s, want %ld x %ld", py_, (long)a.rows(), (long)a.cols(), what, (long)M(cpp_).rows(), (long)M(cpp_).cols()))
  N_("getNobsBasis", e.getNobsBasis()); N_("getNobsBasisScaled", e.getNobsBasis(true)); N_("getObsBasis", e.getObsBasis()); N_("getObsBasisScaled", e.getObsBasis(true)); N_("getSigma2Theta", e.getSigma2Theta()); N_("getSigma2ThetaScaled", e.getSigma2Theta(true)); N_("getSigma2ThetaObs", e.getSigma2ThetaObs()); N_("getSigma2ThetaObsScaled", e.getSigma2ThetaObs(true)); N_("getSingularValues", e.getSingularValues()); N_("getScaledSingularValues", e.getSingularValues(true));
#undef N_
}
/// every figure of a return value is that of the solve
void judgeReturn(mon::Ctx& c, const py::object& x, const Figures& f, size_t iterations, bool accepted) {
  std::string err; PY(c, "return-value", c.check(get<bool>(x, "batchAccepted") == accepted, "return-value", "batchAccepted"); const double t = get<double>(x, "elapsedTime"); c.check(t >= 0 && t < 1000, "return-value", "elapsedTime"));
#define N_(py_, want) PY(c, "return-value", const double a = get<double>(x, py_); c.check(close(a, (double)want), "return-value", "%s reads %.17g want %.17g", py_, a, (double)want))
  N_("informationGain", f.gain); N_("rankPsi", f.rankP); N_("rankPsiDeficiency", f.defP); N_("rankTheta", f.rankT); N_("rankThetaDeficiency", f.defT); N_("svdTolerance", f.svdTol); N_("qrTolerance", f.qrTol); N_("numIterations", iterations); N_("JStart", f.J0); N_("JFinal", f.J1);
#undef N_
#define N_(py_, want) PY(c, "return-value", const M a = matrix(x.attr(py_)); c.check(close(a, M(want)), "return-value", "%s reads another matrix (%ld x %ld), want %ld x %ld", py_, (long)a.rows(), (long)a.cols(), (long)M(want).rows(), (long)M(want).cols()))
  N_("nobsBasis", f.null); N_("nobsBasisScaled", f.nullS); N_("obsBasis", f.row); N_("obsBasisScaled", f.rowS); N_("sigma2Theta", f.cov); N_("sigma2ThetaScaled", f.covS); N_("sigma2ThetaObs", f.rowCov); N_("sigma2ThetaObsScaled", f.rowCovS); N_("singularValues", f.sv); N_("singularValuesScaled", f.svS);
#undef N_
  c.count("return values compared");
}
struct Made { py::object o; Batch* p = nullptr; std::vector<VecSP> vars; };
/// a batch made in Python
Made batch(mon::Ctx& c, const py::object& m, const std::vector<VecSP>& calib, size_t marg) {
  auto& r = c.rng; Made b; std::string err; b.o = m.attr("CalibrationOptimizationProblem")(); b.p = py::extract<Batch*>(b.o); if (r.coin(0.1)) { b.o.attr("addDesignVariable")(dv(boost::make_shared<Vec>(randVec(r, 2))), (size_t)9); b.o.attr("clear")(); c.check(b.p->numDesignVariables() == 0 && b.p->numErrorTerms() == 0, "batch", "clearing left something"); }
  std::vector<std::pair<VecSP, size_t>> v; for (int i = (int)r.below(3); i > 0; --i) { VecSP x = boost::make_shared<Vec>(randVec(r, 1 + (int)r.below(3))); x->setActive(true); v.push_back({x, r.below(2) * 5 + (marg == 5 ? 1 : 0)}); } for (auto& x : calib) if (r.coin(0.7) || &x == &calib[0]) v.push_back({x, marg}); r.shuffle(v);
  for (auto& x : v) { b.o.attr("addDesignVariable")(dv(x.first), x.second); b.vars.push_back(x.first); } std::vector<const ET*> terms;
  for (int i = 1 + (int)r.below(3); i > 0; --i) { std::vector<VecSP> t; for (auto& x : v) if (t.size() < 3 && r.coin()) t.push_back(x.first); if (t.empty()) t.push_back(v[0].first); auto k = randTerm(r, t); terms.push_back(k.get()); b.o.attr("addErrorTerm")(et(k)); }
  c.check(b.p->numDesignVariables() == v.size(), "batch", "%zu variables, want %zu", b.p->numDesignVariables(), v.size()); for (auto& x : v) c.check(b.p->isDesignVariableInProblem(x.first.get()) && b.p->getGroupId(x.first.get()) == x.second, "batch", "a variable is not in its group %zu", x.second);
  bool same = b.p->numErrorTerms() == terms.size(); for (size_t i = 0; same && i < terms.size(); ++i) same = b.p->errorTerm(i) == terms[i]; c.check(same, "batch", "%zu error terms, want %zu", b.p->numErrorTerms(), terms.size()); return b;
}
}
SECTION(estimator, 4) {
  c.cases(60, [&] {
    auto& r = c.rng; py::object m = module(); std::string err; const size_t marg = r.coin() ? 5 : 2 + r.below(3); ScriptGuard g; Analysis scaled, plain; double sum = 0; aslam::backend::SolutionReturnValue srv;
    g.o.instead = [&](const std::vector<DV*>&, aslam::backend::SolutionReturnValue& out) { out = srv; return true; }; g.s.analysis = [&](bool sc, std::ptrdiff_t, const M&, Analysis& a) { a = sc ? scaled : plain; };
    Est::Options eo; LinearSolverOptions lo; aslam::backend::Optimizer2Options oo; py::object est; const bool full = r.coin(0.8);
    if (full) { eo.infoGainDelta = r.uni(-1, 1); eo.checkValidity = r.coin(); eo.verbose = false; lo.columnScaling = r.coin(); lo.epsNorm = r.logu(1e-14, 1e-8); lo.epsSVD = r.logu(1e-14, 1e-8); lo.epsQR = r.logu(1e-14, 1e-8); lo.svdTol = r.u01(); lo.qrTol = r.u01(); oo.maxIterations = 1 + r.below(30); oo.convergenceDeltaJ = r.u01(); oo.convergenceDeltaX = r.u01();
      PY(c, "options", py::object po = m.attr("IncrementalEstimatorOptions")(); c.check(get<double>(po, "infoGainDelta") == 0.2 && !get<bool>(po, "checkValidity") && !get<bool>(po, "verbose"), "options", "defaults"); po.attr("infoGainDelta") = eo.infoGainDelta; po.attr("checkValidity") = eo.checkValidity; po.attr("verbose") = false;
        py::object pl = m.attr("LinearSolverOptions")(); pl.attr("columnScaling") = lo.columnScaling; pl.attr("epsNorm") = lo.epsNorm; pl.attr("epsSVD") = lo.epsSVD; pl.attr("epsQR") = lo.epsQR; pl.attr("svdTol") = lo.svdTol; pl.attr("qrTol") = lo.qrTol; pl.attr("verbose") = false;
        py::object pq(oo); est = m.attr("IncrementalEstimator")(marg, po, pl, pq)); }
    else { PY(c, "construction", est = m.attr("IncrementalEstimator")(marg)); }
    boost::shared_ptr<Est> keep = py::extract<boost::shared_ptr<Est>>(est); Est& e = *keep; const Est& ce = e;
    auto judgeOptions = [&](const char* what) { const auto &a = ce.getOptions(); const auto& b = ce.getLinearSolverOptions(); const auto& q = ce.getOptimizerOptions(); c.check(a.infoGainDelta == eo.infoGainDelta && a.checkValidity == eo.checkValidity && a.verbose == eo.verbose, "options", "estimator options after %s", what); c.check(b.columnScaling == lo.columnScaling && b.epsNorm == lo.epsNorm && b.epsSVD == lo.epsSVD && b.epsQR == lo.epsQR && b.svdTol == lo.svdTol && b.qrTol == lo.qrTol && b.verbose == lo.verbose, "options", "solver options after %s", what); c.check(q.maxIterations == oo.maxIterations && q.convergenceDeltaJ == oo.convergenceDeltaJ && q.convergenceDeltaX == oo.convergenceDeltaX, "options", "optimizer options after %s", what); };
    judgeOptions("construction"); c.check(e.getMargGroupId() == marg, "group", "%zu want %zu", (size_t)e.getMargGroupId(), marg); judgeFigures(c, est, e, "construction");
    std::vector<VecSP> calib; for (int i = 1 + (int)r.below(2); i > 0; --i) { calib.push_back(boost::make_shared<Vec>(randVec(r, 1 + (int)r.below(2)))); calib.back()->setActive(true); } std::vector<Made> held; std::string ops; const int steps = 3 + (int)r.below(9);
    auto script = [&] { sum += r.uni(-2, 4); plain = scripted(r, 10, (std::ptrdiff_t)r.below(4), sum); scaled = scripted(r, 1000, (std::ptrdiff_t)r.below(4), r.uni(-9, 9)); srv = aslam::backend::SolutionReturnValue(); srv.iterations = r.below(30); srv.JStart = r.uni(0, 9); srv.JFinal = srv.JStart * r.uni(0, 1.3); };
    for (int i = 0; i < steps; ++i) {
      const double u = r.u01(); const char* what = "";
      if (u < 0.5) { what = "offering a batch"; Made b; PY(c, "batch", b = batch(c, m, calib, marg)); const bool force = r.coin(0.3); script(); py::object ret; const size_t before = e.getNumBatches(); PY(c, "offer", ret = est.attr("addBatch")(b.o, force)); const bool kept = e.getNumBatches() > before; c.check(e.getNumBatches() == before + kept, "offer", "%zu batches", (size_t)e.getNumBatches()); if (force) c.check(kept, "offer", "a forced batch is not kept"); Figures f; Est::ReturnValue& rv = py::extract<Est::ReturnValue&>(ret); fill(f, scaled, plain, ce.getLinearSolverOptions().columnScaling, srv.JStart, srv.JFinal, rv.informationGain); judgeReturn(c, ret, f, srv.iterations, kept); if (kept) { c.check(e.getProblem()->getOptimizationProblems().back().get() == b.p, "offer", "another batch is kept"); held.push_back(b); ops += 'a'; } else ops += 'r';
        if (r.coin(0.2)) { // what a script writes into one field stays there
          static const char* names[] = {"nobsBasis", "nobsBasisScaled", "obsBasis", "obsBasisScaled", "sigma2Theta", "sigma2ThetaScaled", "sigma2ThetaObs", "sigma2ThetaObsScaled"}; M* own[] = {&f.null, &f.nullS, &f.row, &f.rowS, &f.cov, &f.covS, &f.rowCov, &f.rowCovS}; const size_t k = r.below(8); *own[k] = randMat(r, 2, 3); PY(c, "return-value", ret.attr(names[k]) = py::object(*own[k])); f.J0 = 3.25; PY(c, "return-value", ret.attr("JStart") = 3.25); judgeReturn(c, ret, f, srv.iterations, kept); } }
      else if (u < 0.58 && held.size() > 1) { what = "removing by number"; ops += 'd'; const size_t k = r.below(held.size()); script(); PY(c, "removal", est.attr("removeBatch")(k)); held.erase(held.begin() + k); }
      else if (u < 0.66 && held.size() > 1) { what = "removing by batch"; ops += 'D'; const size_t k = r.below(held.size()); script(); PY(c, "removal", est.attr("removeBatch")(held[k].o)); held.erase(held.begin() + k); }
      else if (u < 0.74 && !held.empty()) { what = "reoptimizing"; ops += 'o'; script(); py::object ret; PY(c, "reoptimize", ret = est.attr("reoptimize")()); Figures f; Est::ReturnValue& rv = py::extract<Est::ReturnValue&>(ret); fill(f, scaled, plain, ce.getLinearSolverOptions().columnScaling, srv.JStart, srv.JFinal, rv.informationGain); judgeReturn(c, ret, f, srv.iterations, rv.batchAccepted); }
      else if (u < 0.86) { what = "changing options"; ops += 'c'; const bool sc = r.coin(); eo.infoGainDelta = r.uni(-1, 1); lo.epsSVD = r.u01(); lo.columnScaling = sc; oo.maxIterations = 1 + r.below(40); eo.checkValidity = r.coin(); PY(c, "options", py::object a = est.attr("getOptions")(); a.attr("infoGainDelta") = eo.infoGainDelta; a.attr("checkValidity") = eo.checkValidity; py::object b = est.attr("getLinearSolverOptions")(); b.attr("epsSVD") = lo.epsSVD; b.attr("columnScaling") = sc; py::object q = est.attr("getOptimizerOptions")(); q.attr("maxIterations") = oo.maxIterations); }
      else { what = "a refused call"; ops += 'x'; const size_t n = e.getNumBatches(), bad = badIndex(r, n); const Shape s0 = shape(e); std::string w; if (r.coin()) w = raised([&] { est.attr("removeBatch")(bad); }); else w = raised([&] { est.attr("addBatch")(py::object(), true); }); c.check(!w.empty(), "not-refused", "batch %zu of %zu", bad, n); c.check(differ(shape(e), s0).empty(), "refused-call-leaves-a-trace", "%s", differ(shape(e), s0).c_str()); c.count("calls refused"); }
      judgeFigures(c, est, e, what); judgeOptions(what); if (!c.check(e.getNumBatches() == held.size(), "batches", "%zu after %s, want %zu", (size_t)e.getNumBatches(), what, held.size())) return;
      py::object prob; PY(c, "problem", prob = est.attr("getProblem")(); c.check(call<size_t>(prob, "getNumOptimizationProblems") == held.size(), "problem", "number of batches"); for (size_t k = 0; k < held.size(); ++k) { Batch* p = py::extract<Batch*>(prob.attr("getOptimizationProblem")(k)); c.check(p == held[k].p, "problem", "batch %zu of %zu after %s", k, held.size(), what); });
      if (!held.empty()) { PY(c, "jacobian", const M J = matrix(est.attr("getJacobianTranspose")().attr("toDense")()); c.check(close(J, ce.getJacobianTranspose().toDense()), "jacobian", "the Jacobian reads differently after %s", what)); }
    }
    if (!held.empty()) { // one part outlives the names that led to it, and everything is freed after it
      py::object part, ref; const size_t which = r.below(6); const char* names[] = {"getOptions", "getOptimizerOptions", "getLinearSolverOptions", "getJacobianTranspose", "getProblem", "getProblem"}; PY(c, "lifetime", ref = py::import("weakref").attr("ref")(est); part = est.attr(names[which])(); if (which == 5) part = part.attr("getOptimizationProblem")(0));
      const size_t n = held[0].p->numErrorTerms(), batches = held.size(); const M J = ce.getJacobianTranspose().toDense(); boost::weak_ptr<Vec> w; bool own = false; for (auto& x : held[0].vars) if (std::find(calib.begin(), calib.end(), x) == calib.end()) { w = x; own = true; } const Batch* was = held[0].p; keep.reset(); held.clear(); est = py::object(); PY(c, "lifetime", py::import("gc").attr("collect")());
      if (c.check(!ref().is_none(), "lifetime", "the estimator is gone while what %s gave is held", names[which])) {
        if (which == 0) c.check(get<double>(part, "infoGainDelta") == eo.infoGainDelta, "lifetime", "options changed when their estimator was let go"); if (which == 1) c.check(get<double>(part, "maxIterations") == oo.maxIterations, "lifetime", "optimizer options changed"); if (which == 2) c.check(get<double>(part, "epsSVD") == lo.epsSVD, "lifetime", "solver options changed");
        if (which == 3) { PY(c, "lifetime", c.check(close(matrix(part.attr("toDense")()), J), "lifetime", "the Jacobian changed when its estimator was let go")); } if (which == 4) { PY(c, "lifetime", c.check(call<size_t>(part, "getNumOptimizationProblems") == batches, "lifetime", "the problem changed when its estimator was let go")); } if (which == 5) c.check(py::extract<Batch*>(part)() == was && was->numErrorTerms() == n, "lifetime", "a batch changed when its estimator was let go");
        part = py::object(); c.check(ref().is_none(), "lifetime", "the estimator is never freed"); if (own) c.check(w.expired(), "lifetime", "the batch is never freed"); } c.count("lifetimes followed"); }
    c.seen(mon::hcomb(mon::hashStr(ops), marg)); c.sample(ops);
  });
}
SECTION(problem, 2) {
  c.cases(150, [&] {
    auto& r = c.rng; py::object m = module(); std::string err, ops; py::object prob; PY(c, "construction", prob = m.attr("IncrementalOptimizationProblem")()); Inc& p = py::extract<Inc&>(prob); std::vector<VecSP> calib = {boost::make_shared<Vec>(randVec(r, 2))}; std::vector<Made> held; const int steps = 3 + (int)r.below(12);
    for (int i = 0; i < steps; ++i) {
      const double u = r.u01(); if (u < 0.55) { ops += 'a'; Made b; PY(c, "batch", b = batch(c, m, calib, 5)); PY(c, "add", prob.attr("add")(b.o)); held.push_back(b); }
      else if (u < 0.75 && !held.empty()) { ops += 'd'; const size_t k = r.below(held.size()); PY(c, "remove", prob.attr("remove")(k)); held.erase(held.begin() + k); }
      else if (u < 0.8) { ops += 'c'; PY(c, "clear", prob.attr("clear")()); held.clear(); }
      else { ops += 'x'; const size_t bad = badIndex(r, held.size()); c.check(!raised([&] { prob.attr("remove")(bad); }).empty() && !raised([&] { prob.attr("getOptimizationProblem")(bad); }).empty(), "not-refused", "batch %zu of %zu", bad, held.size()); if (!held.empty()) c.check(!raised([&] { prob.attr("add")(r.pick(held).o); }).empty(), "not-refused", "the same batch twice"); c.count("calls refused"); }
      PY(c, "count", const size_t n = call<size_t>(prob, "getNumOptimizationProblems"); c.check(n == held.size() && p.getNumOptimizationProblems() == n, "count", "%zu and %zu want %zu", n, p.getNumOptimizationProblems(), held.size())); size_t terms = 0; for (size_t k = 0; k < held.size(); ++k) { PY(c, "batches", Batch* b = py::extract<Batch*>(prob.attr("getOptimizationProblem")(k)); c.check(b == held[k].p, "batches", "batch %zu of %zu", k, held.size())); terms += held[k].p->numErrorTerms(); } c.check(p.numErrorTerms() == terms, "batches", "%zu error terms want %zu", p.numErrorTerms(), terms);
    }
    if (!held.empty()) { py::object first, ref; const Batch* was = held[0].p; PY(c, "lifetime", ref = py::import("weakref").attr("ref")(prob); first = prob.attr("getOptimizationProblem")(0)); const bool other = held[0].vars.empty(); held.clear(); prob = py::object(); (void)other; if (c.check(!ref().is_none(), "lifetime", "the problem is gone while one of its batches is held")) { c.check(py::extract<Batch*>(first)() == was, "lifetime", "a batch changed"); first = py::object(); c.check(ref().is_none(), "lifetime", "the problem is never freed"); } c.count("lifetimes followed"); }
    c.seen(mon::hashStr(ops));
  });
}
SECTION(solver, 1) {
  c.cases(200, [&] {
    auto& r = c.rng; py::object m = module(); std::string err; LinearSolverOptions o; o.columnScaling = r.coin(); o.epsNorm = r.u01(); o.epsSVD = r.u01(); o.epsQR = r.u01(); o.svdTol = r.u01(); o.qrTol = r.u01(); o.verbose = r.coin(); py::object s;
    auto put = [&](py::object p) { p.attr("columnScaling") = o.columnScaling; p.attr("epsNorm") = o.epsNorm; p.attr("epsSVD") = o.epsSVD; p.attr("epsQR") = o.epsQR; p.attr("svdTol") = o.svdTol; p.attr("qrTol") = o.qrTol; p.attr("verbose") = o.verbose; };
    if (r.coin()) { PY(c, "construction", py::object p = m.attr("LinearSolverOptions")(); put(p); s = m.attr("LinearSolver")(p)); } else { sm::PropertyTree t; t.setBool("columnScaling", o.columnScaling); t.setDouble("epsNorm", o.epsNorm); t.setDouble("epsSVD", o.epsSVD); t.setDouble("epsQR", o.epsQR); t.setDouble("svdTol", o.svdTol); t.setDouble("qrTol", o.qrTol); t.setBool("verbose", o.verbose); PY(c, "construction", s = m.attr("LinearSolver")(py::object(t))); }
    Solver& k = py::extract<Solver&>(s); py::extract<aslam::backend::LinearSystemSolver&> base(s); c.check(base.check() && &base() == &k, "base", "no linear system solver");
    auto same = [&](const char* what) { const auto& a = k.getOptions(); c.check(a.columnScaling == o.columnScaling && a.epsNorm == o.epsNorm && a.epsSVD == o.epsSVD && a.epsQR == o.epsQR && a.svdTol == o.svdTol && a.qrTol == o.qrTol && a.verbose == o.verbose, "solver-options", "after %s", what); std::string err; PY(c, "solver-options", py::object p = s.attr("getOptions")(); c.check(get<bool>(p, "columnScaling") == o.columnScaling && get<double>(p, "epsNorm") == o.epsNorm && get<double>(p, "epsSVD") == o.epsSVD && get<double>(p, "epsQR") == o.epsQR && get<double>(p, "svdTol") == o.svdTol && get<double>(p, "qrTol") == o.qrTol && get<bool>(p, "verbose") == o.verbose, "solver-options", "read after %s", what)); };
    same("construction"); for (int i = (int)r.below(6); i > 0; --i) { static const char* n[] = {"epsNorm", "epsSVD", "epsQR", "svdTol", "qrTol"}; double* f[] = {&o.epsNorm, &o.epsSVD, &o.epsQR, &o.svdTol, &o.qrTol}; const size_t q = r.below(5); *f[q] = r.u01(); PY(c, "solver-options", s.attr("getOptions")().attr(n[q]) = *f[q]); same(n[q]); }
    py::object held, ref; PY(c, "lifetime", held = s.attr("getOptions")(); ref = py::import("weakref").attr("ref")(s)); s = py::object(); if (!c.check(!ref().is_none(), "lifetime", "the solver is gone while its options are held")) return; c.check(get<double>(held, "epsSVD") == o.epsSVD, "lifetime", "options changed when their solver was let go"); c.seen(mon::hd(o.epsNorm));
  });
}
