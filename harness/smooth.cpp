// smoothers: uniform calls with all flags, and constructors that Python does not offer
#include "ngsv.hpp"
#include <universal_dofs.hpp>
#include <utils_sparseLA.hpp>
#include <utils_sparseMM.hpp>
#include <dyn_block.hpp>
#include <hybrid_matrix.hpp>
#include <base_smoother.hpp>
#include <hybrid_smoother.hpp>
#include <gssmoother.hpp>
#include <block_gssmoother.hpp>
#include <loc_block_gssmoother.hpp>
#include <dyn_block_smoother.hpp>
namespace ngsv
{
typedef shared_ptr<BaseMatrix> SBM;
typedef shared_ptr<BaseVector> SBV;
// the compressed-row sweep is no smoother of its own (the hybrid smoother calls it); give it the interface
template<class TM> class Gss4Smoother : public BaseSmoother
{
  GSS4<TM> gs;
  void step (bool back, BaseVector & x, const BaseVector & b, BaseVector & res, bool ru, bool ur) const
  {
    if (ru || ur) { if (!ru) { res = b; res -= *sysmat * x; } if (back) gs.SmoothBackRES(x, res); else gs.SmoothRES(x, res); }
    else if (back) gs.SmoothBack(x, b); else gs.Smooth(x, b);
  }
public:
  Gss4Smoother (shared_ptr<SparseMatrix<TM>> A, shared_ptr<BitArray> f, bool pinv) : BaseSmoother(A), gs(A, f, pinv) { ; }
  void Smooth (BaseVector & x, const BaseVector & b, BaseVector & res, bool ru, bool ur, bool xz) const override { step(false, x, b, res, ru, ur); }
  void SmoothBack (BaseVector & x, const BaseVector & b, BaseVector & res, bool ru, bool ur, bool xz) const override { step(true, x, b, res, ru, ur); }
};
template<int BS> shared_ptr<BaseSmoother> mk4 (SBM A, shared_ptr<BitArray> f, bool pinv)
{ typedef StripTM<BS,BS> TM; return make_shared<Gss4Smoother<TM>>(dynamic_pointer_cast<SparseMatrix<TM>>(A), f, pinv); }
template<int BS> shared_ptr<BaseSmoother> mkjac (SBM A, shared_ptr<BitArray> f, double om)
{ typedef StripTM<BS,BS> TM; return make_shared<JacobiSmoother<TM>>(A, f, om); }

void ExportSmooth (py::module & m)
{
  m.def("bits", &tobits);
  // op: 0 Smooth, 1 SmoothBack, 2 SmoothSymm, 3 SmoothK, 4 SmoothBackK, 5 SmoothSymmK
  m.def("smooth", [](shared_ptr<BaseMatrix> M, int op, int k, SBV x, SBV b, SBV res, bool ru, bool ur, bool xz) {
    auto sm = dynamic_pointer_cast<BaseSmoother>(M);
    if (!sm) throw Exception("harness: not a smoother");
    BaseVector & X = *x; BaseVector const & B = *b; BaseVector & R = *res;
    switch (op) {
      case 0: sm->Smooth(X, B, R, ru, ur, xz); break;
      case 1: sm->SmoothBack(X, B, R, ru, ur, xz); break;
      case 2: sm->SmoothSymm(X, B, R, ru, ur, xz); break;
      case 3: sm->SmoothK(k, X, B, R, ru, ur, xz); break;
      case 4: sm->SmoothBackK(k, X, B, R, ru, ur, xz); break;
      case 5: sm->SmoothSymmK(k, X, B, R, ru, ur, xz); break; } });
  m.def("residual", [](SBM A, SBV x, SBV b, SBV res) { *res = *b; *res -= *A * *x; });
  m.def("gss4", [](SBM A, shared_ptr<BitArray> f, bool pinv, int bs) { return bs == 1 ? mk4<1>(A, f, pinv) : bs == 2 ? mk4<2>(A, f, pinv) : mk4<3>(A, f, pinv); },
        py::arg("A"), py::arg("free"), py::arg("pinv"), py::arg("bs"));
  m.def("jacobi", [](SBM A, shared_ptr<BitArray> f, double om, int bs) { return bs == 1 ? mkjac<1>(A, f, om) : bs == 2 ? mkjac<2>(A, f, om) : mkjac<3>(A, f, om); },
        py::arg("A"), py::arg("free"), py::arg("omega"), py::arg("bs"));
  m.def("dynsm", [](SBM A, shared_ptr<BitArray> f, double om) -> shared_ptr<BaseSmoother> {
    return make_shared<DynBlockSmoother<double>>(dynamic_pointer_cast<DynBlockSparseMatrix<double>>(A), f, om); }, py::arg("A"), py::arg("free"), py::arg("omega"));
  m.def("hybdynsm", [](SBM A, shared_ptr<BitArray> f, int nloc, bool th, bool ov, double om) -> shared_ptr<BaseSmoother> {
    return make_shared<HybridDynBlockSmoother<double>>(A, f, nloc, th, ov, om); }, py::arg("A"), py::arg("free"), py::arg("nloc"), py::arg("thread"), py::arg("overlap"), py::arg("omega"));
  m.def("hiptmair", [](shared_ptr<BaseMatrix> sp, shared_ptr<BaseMatrix> sr, SBM Ap, SBM Ar, SBM D, SBM DT, bool opt, bool potFirst) -> shared_ptr<BaseSmoother> {
    return make_shared<HiptMairSmoother>(dynamic_pointer_cast<BaseSmoother>(sp), dynamic_pointer_cast<BaseSmoother>(sr), Ap, Ar, D, DT, opt, potFirst); });
  m.def("richardson", [](SBM A, SBM P, double om) -> shared_ptr<BaseSmoother> { return make_shared<RichardsonSmoother>(A, P, om); });
}
}
