// stationary solvers: the library's multigrid one with its iterates recorded, and one that follows a script
#include "ngsv.hpp"
#include <base_smoother.hpp>
#include <dof_map.hpp>
#include <amg_matrix.hpp>
#include <LinearSolver.hpp>
namespace ngsv
{
typedef shared_ptr<BaseMatrix> SBM;
typedef shared_ptr<BaseVector> SBV;
static VD vals (BaseVector const & v) { VD r; for (double d : v.FVDouble()) r.push_back(d); return r; }
struct Rec { VVD xs, rs; VI xst, rst; void clear () { xs.clear(); rs.clear(); xst.clear(); rst.clear(); }
  void add (BaseVector & x, BaseVector & r) { xs.push_back(vals(x)); rs.push_back(vals(r)); xst.push_back(x.GetParallelStatus()); rst.push_back(r.GetParallelStatus()); } };
template<class SV> class Recorded : public SV
{
public:
  using SV::SV;
  Rec rec;
protected:
  void InitializeSolve (BaseVector &x, const BaseVector &b, BaseVector &res, bool z) override
  { SV::InitializeSolve(x, b, res, z); rec.clear(); rec.add(x, res); }
  void DoIteration (BaseVector &x, const BaseVector &b, BaseVector &res) override
  { SV::DoIteration(x, b, res); rec.add(x, res); }
};
// residual number k is script[k]
class Scripted : public LinearSolver
{
public:
  Scripted (SBM A) : LinearSolver(A, 1, 1.0) { }
  VD script; int k = 0;
  AutoVector CreateVector () const override { return make_unique<VVector<double>>(1); }
  AutoVector CreateColVector () const override { return CreateVector(); }
  AutoVector CreateRowVector () const override { return CreateVector(); }
protected:
  void DoIteration (BaseVector &x, const BaseVector &b, BaseVector &res) override
  { k++; double e = k < (int)script.size() ? script[k] : 7.0; res.FVDouble()(0) = e; x.FVDouble()(0) = b.FVDouble()(0) - e; }
};
typedef Recorded<AMGAsLinearSolver> AMGSV;
typedef Recorded<Scripted> SCRSV;
static shared_ptr<LinearSolver> LS (SBM s) { return dynamic_pointer_cast<LinearSolver>(s); }

void ExportSolver (py::module & m)
{
  m.def("solver_amg", [](SBM amg, int steps, double tol, bool print) -> SBM { return make_shared<AMGSV>(dynamic_pointer_cast<AMGMatrix>(amg), steps, tol, print, "verif"); });
  m.def("solver_script", [](SBM A) -> SBM { return make_shared<SCRSV>(A); });
  m.def("solver_set_script", [](SBM s, VD e) { auto x = dynamic_pointer_cast<SCRSV>(s); x->script = e; x->k = 0; });
  m.def("solver_max", [](SBM s, int n) { LS(s)->SetMaxIterations(n); });
  m.def("solver_tol", [](SBM s, double t) { LS(s)->SetRelTolerance(t); });
  m.def("solver_save", [](SBM s, bool t) { LS(s)->SetSaveErrors(t); });
  m.def("solver_solve", [](SBM s, SBV x, SBV b, SBV r, bool init, bool zero, bool ru) {
    if (r) LS(s)->Solve(*x, *b, *r, init, zero, ru); else LS(s)->Solve(*x, *b, init, zero); });
  m.def("solver_report", [](SBM s) { return py::make_tuple(LS(s)->GetConverged(), LS(s)->GetNeededSteps(), tovec<double>(LS(s)->GetErrors())); });
  m.def("solver_rec", [](SBM s) {
    Rec & r = dynamic_pointer_cast<AMGSV>(s) ? dynamic_pointer_cast<AMGSV>(s)->rec : dynamic_pointer_cast<SCRSV>(s)->rec;
    return py::make_tuple(r.xs, r.xst, r.rs, r.rst); });
}
}
