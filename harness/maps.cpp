// transfers between levels, redistribution of unknowns, multigrid cycles
#include "ngsv.hpp"
#include <universal_dofs.hpp>
#include <utils_sparseLA.hpp>
#include <utils_sparseMM.hpp>
#include <dyn_block.hpp>
#include <dof_map.hpp>
#include <dof_contract.hpp>
#include <base_smoother.hpp>
#include <amg_matrix.hpp>
namespace ngsv
{
typedef shared_ptr<BaseMatrix> SBM;
typedef shared_ptr<BaseVector> SBV;
typedef shared_ptr<BaseDOFMapStep> STEP;
struct UD { UniversalDofs u; NgsAMG_Comm keep; };
struct COMM { NgsAMG_Comm c; };

static STEP prolmap (SBM P, SBM PT, UD const & f, UD const & c)
{
  STEP r;
  Iterate<AMG_MAX_SYS_DIM> ([&](auto HM) { Iterate<AMG_MAX_SYS_DIM> ([&](auto WM) {
    constexpr int H = HM + 1, W = WM + 1;
    if constexpr (isSparseMatrixCompiled<H, W>() && IsProlMapCompiled<H, W>())
      if (!r) if (auto p = dynamic_pointer_cast<SparseMat<H,W>>(P)) {
        if (PT) r = make_shared<ProlMap<StripTM<H,W>>>(p, dynamic_pointer_cast<SparseMat<W,H>>(PT), f.u, c.u);
        else r = make_shared<ProlMap<StripTM<H,W>>>(p, f.u, c.u); } }); });
  if (!r) throw Exception("harness: no such prolongation");
  return r;
}
template<int BS> STEP mkctr (UD const & f, UD const & c, VI const & group, VVI const & maps)
{
  auto m = make_shared<CtrMap<typename strip_vec<Vec<BS,double>>::type>>(f.u, c.u, toarr<int>(group), totab<int>(maps));
  m->_comm_keepalive_hack = c.keep;
  return m;
}
template<int BS> bool mksetup (STEP s)
{ if (auto m = dynamic_pointer_cast<CtrMap<typename strip_vec<Vec<BS,double>>::type>>(s)) { m->SetUpMPIStuff(); return true; } return false; }

void ExportMaps (py::module & m)
{
  py::class_<UD, shared_ptr<UD>> (m, "UD")
    .def("info", [](UD & u) { return py::make_tuple(u.u.IsValid(), u.u.IsValid() ? (int)u.u.GetND() : -1, u.u.IsValid() ? (int)u.u.GetBS() : -1, u.u.IsValid() ? (int)u.u.GetNDGlob() : -1); });
  py::class_<COMM, shared_ptr<COMM>> (m, "Comm").def("info", [](COMM & c) { return py::make_tuple(c.c.Rank(), c.c.Size()); });
  m.def("world_comm", []() { return make_shared<COMM>(COMM{world()}); });
  m.def("sub_comm", [](COMM & c, VI procs) { auto a = toarr<int>(procs); return make_shared<COMM>(COMM{c.c.CreateSubCommunicatorGlobal(a)}); });
  m.def("udofs", [](shared_ptr<COMM> c, VVI dps, int bs) {
    auto pds = CreateParallelDOFs(c->c, totab<int>(dps), bs, false, c->c.Size() > 1);
    return make_shared<UD>(UD{UniversalDofs(pds), c->c}); });
  m.def("udofs_serial", [](int n, int bs) { return make_shared<UD>(UD{UniversalDofs(n, bs), NgsAMG_Comm()}); });
  m.def("udofs_none", []() { return make_shared<UD>(UD{UniversalDofs(), NgsAMG_Comm()}); });
  m.def("udofs_pds", [](UD & u) { return u.u.GetParallelDofs(); });
  m.def("udofs_vec", [](UD & u) { return u.u.CreateSPVector(); });

  m.def("prolmap", [](SBM P, SBM PT, UD & f, UD & c) { return prolmap(P, PT, f, c); });
  m.def("dynprol", [](SBM P, UD & f, UD & c, VI fo, VI co) -> STEP {
    auto p = dynamic_pointer_cast<SparseMatrix<double>>(P); auto pt = TransposeSPMGeneric(P);
    auto off = [](VI const & o) { Array<unsigned> a(o.size()); for (auto k : Range(o.size())) a[k] = o[k]; return a; };
    DynVectorBlocking<> fb(fo.size()-1, fo.back(), off(fo)), cb(co.size()-1, co.back(), off(co));
    auto dp = make_shared<DynBlockSparseMatrix<double>>(*p, fb, cb, false);
    auto dpt = make_shared<DynBlockSparseMatrix<double>>(*dynamic_pointer_cast<SparseMatrix<double>>(pt), cb, fb, false);
    return make_shared<DynBlockProlMap<double>>(dp, dpt, f.u, c.u); });
  m.def("ctrmap", [](UD & f, UD & c, VI group, VVI maps, int bs) -> STEP {
    return bs == 1 ? mkctr<1>(f, c, group, maps) : bs == 2 ? mkctr<2>(f, c, group, maps) : mkctr<3>(f, c, group, maps); });
  m.def("setup_mpi", [](STEP s) { return mksetup<1>(s) || mksetup<2>(s) || mksetup<3>(s); });
  m.def("multimap", [](std::vector<STEP> s) -> STEP { auto a = toarr<STEP>(s); return make_shared<MultiDofMapStep>(a); });
  m.def("step_finalize", [](STEP s) { s->Finalize(); });
  m.def("step_concat", [](STEP a, STEP b) { return a->Concatenate(b); });
  m.def("step_single", [](std::vector<STEP> s) { auto a = toarr<STEP>(s); return MakeSingleStep2(a); });
  m.def("step_pullback", [](STEP a, STEP b) { return a->PullBack(b); });
  m.def("step_assemble", [](STEP s, SBM A) { return s->AssembleMatrix(A); });
  m.def("step_vec", [](STEP s, bool mapped) -> SBV { return mapped ? s->CreateMappedVector() : s->CreateVector(); });
  m.def("step_info", [](STEP s) { return py::make_tuple(string(typeid(*s).name()), s->GetBlockSize(), s->GetMappedBlockSize()); });
  // op: 0 TransferF2C, 1 AddF2C, 2 TransferC2F, 3 AddC2F
  m.def("step_op", [](STEP s, int op, double fac, SBV xf, SBV xc) {
    if (op == 0) s->TransferF2C(xf.get(), xc.get()); else if (op == 1) s->AddF2C(fac, xf.get(), xc.get());
    else if (op == 2) s->TransferC2F(xf.get(), xc.get()); else s->AddC2F(fac, xf.get(), xc.get()); });

  m.def("dofmap", [](std::vector<STEP> s, bool pre, bool fin) {
    auto d = make_shared<DOFMap>();
    if (pre) for (int k = (int)s.size() - 1; k >= 0; k--) d->PrependStep(s[k]); else for (auto x : s) d->AddStep(x);
    if (fin) d->Finalize(); return d; });
  m.def("dm_op", [](shared_ptr<DOFMap> d, int l, int op, double fac, SBV xf, SBV xc) {
    if (op == 0) d->TransferF2C(l, xf.get(), xc.get()); else if (op == 1) d->AddF2C(l, fac, xf.get(), xc.get());
    else if (op == 2) d->TransferC2F(l, xf.get(), xc.get()); else d->AddC2F(l, fac, xf.get(), xc.get()); });
  m.def("dm_atob", [](shared_ptr<DOFMap> d, int a, int b, SBV vin, SBV vout) { d->TransferAtoB(a, b, vin.get(), vout.get()); });
  m.def("dm_conc", [](shared_ptr<DOFMap> d, int a, int b, bool symbolic) { return d->ConcStep(a, b, symbolic); });
  m.def("dm_sub", [](shared_ptr<DOFMap> d, int a, int b) { return d->SubMap(a, b); });
  m.def("dm_assemble", [](shared_ptr<DOFMap> d, SBM A) { std::vector<SBM> v; for (auto x : d->AssembleMatrices(A)) v.push_back(x); return v; });
  m.def("dm_vec", [](shared_ptr<DOFMap> d, int l) -> SBV { return d->CreateVector(l); });
  // valid, unknowns here, block size, unknowns in all, ranks of the communicator, rank in it
  m.def("dm_level", [](shared_ptr<DOFMap> d, int l) { auto const & u = d->GetUDofs(l); bool v = u.IsValid();
    auto c = u.GetCommunicator();
    return py::make_tuple(v, v ? (int)u.GetND() : -1, v ? (int)u.GetBS() : -1, v ? (int)u.GetNDGlob() : -1, v ? (int)c.Size() : -1, v ? (int)c.Rank() : -1); });
  m.def("amg_smoothers", [](SBM amg, int l) { auto s = dynamic_pointer_cast<AMGMatrix>(amg)->GetSmoother(l); auto A = s ? s->GetAMatrix() : nullptr;
    return py::make_tuple(s ? (int)s->Height() : -1, A ? (int)A->Height() : -1); });
  m.def("dm_levels", [](shared_ptr<DOFMap> d) { return (int)d->GetNLevels(); });
  m.def("dm_glob", [](shared_ptr<DOFMap> d, int l) { return tovec<int>(d->GetGlobDNums(l)); });

  // ---- multigrid operator
  m.def("mat_mult", [](SBM A, SBV b, SBV x) { A->Mult(*b, *x); });
  m.def("mat_multtrans", [](SBM A, SBV b, SBV x) { A->MultTrans(*b, *x); });
  m.def("mat_multadd", [](SBM A, double f, SBV b, SBV x) { A->MultAdd(f, *b, *x); });
  m.def("mat_multtransadd", [](SBM A, double f, SBV b, SBV x) { A->MultTransAdd(f, *b, *x); });
  m.def("amg", [](shared_ptr<DOFMap> d, std::vector<SBM> sm, bool inv, SBM cinv, SBM cmat, int vwb) -> SBM {
    Array<shared_ptr<BaseSmoother>> a; for (auto s : sm) a.Append(dynamic_pointer_cast<BaseSmoother>(s));
    auto r = make_shared<AMGMatrix>(d, a); if (inv) r->SetCoarseInv(cinv, cmat); r->SetVWB(vwb); return r; });
  m.def("amg_embed", [](SBM fls, SBM amg, STEP s) -> SBM {
    return make_shared<EmbeddedAMGMatrix>(dynamic_pointer_cast<BaseSmoother>(fls), dynamic_pointer_cast<AMGMatrix>(amg), s); });
  m.def("amg_smoother", [](SBM amg, int start, bool single) -> SBM { return make_shared<AMGSmoother>(dynamic_pointer_cast<AMGMatrix>(amg), start, single); });
  m.def("amg_vwb", [](SBM amg, int vwb) { dynamic_pointer_cast<AMGMatrix>(amg)->SetVWB(vwb); });
  m.def("amg_smooth_from", [](SBM amg, int l, SBV x, SBV b, SBV r, bool ru, bool ur, bool xz) { dynamic_pointer_cast<AMGMatrix>(amg)->SmoothVFromLevel(l, *x, *b, *r, ru, ur, xz); });
  m.def("amg_bf", [](SBM amg, SBV v, int l, int dof, int comp, int rank) {
    if (auto e = dynamic_pointer_cast<EmbeddedAMGMatrix>(amg)) e->GetBF(*v, l, dof, comp, rank); else dynamic_pointer_cast<AMGMatrix>(amg)->GetBF(*v, l, dof, comp, rank, 0); });
  m.def("amg_cinv", [](SBM amg, SBV x, SBV b) {
    if (auto e = dynamic_pointer_cast<EmbeddedAMGMatrix>(amg)) e->CINV(x, b); else dynamic_pointer_cast<AMGMatrix>(amg)->CINV(x, b); });
}
}
