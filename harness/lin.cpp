// sparse matrices, their algebra, hybrid and block-compressed matrices, array helpers
#include "ngsv.hpp"
#include <universal_dofs.hpp>
#include <utils_sparseLA.hpp>
#include <utils_sparseMM.hpp>
#include <utils_arrays_tables.hpp>
#include <dyn_block.hpp>
#include <dyn_block_impl.hpp>
#include <hybrid_matrix.hpp>
namespace amg {
extern shared_ptr<BaseMatrix> restrictMatrixToBlocks(shared_ptr<BaseMatrix> A, FlatTable<int> rowBlocks, FlatTable<int> colBlocks, double const &tol);
}
namespace ngsv
{
typedef std::vector<VVD> VVVD;

// cols[i]: column numbers of row i, vals[i][k]: the entry (bh*bw numbers, row major)
template<int H, int W>
shared_ptr<BaseMatrix> mkspm (int w, VVI const & cols, VVVD const & vals)
{
  Array<int> perow(cols.size()); for (auto k : Range(cols.size())) perow[k] = cols[k].size();
  auto m = make_shared<SparseMat<H,W>>(perow, w);
  for (auto k : Range(cols.size())) {
    auto ri = m->GetRowIndices(k); auto rv = m->GetRowValues(k);
    for (auto j : Range(cols[k].size())) {
      ri[j] = cols[k][j];
      double const * p = vals[k][j].data();
      if constexpr (H == 1 && W == 1) rv[j] = p[0];
      else for (int a = 0; a < H; a++) for (int b = 0; b < W; b++) rv[j](a,b) = p[a*W+b];
    } }
  return m;
}
shared_ptr<BaseMatrix> make_spm (int w, int bh, int bw, VVI cols, VVVD vals)
{
  shared_ptr<BaseMatrix> r;
  Iterate<AMG_MAX_SYS_DIM> ([&](auto HM) { Iterate<AMG_MAX_SYS_DIM> ([&](auto WM) {
    constexpr int H = HM + 1, W = WM + 1;
    if constexpr (isSparseMatrixCompiled<H, W>()) if (bh == H && bw == W) r = mkspm<H,W>(w, cols, vals); }); });
  if (!r) throw Exception("harness: no such entry size");
  return r;
}
template<class TM> bool try_rows (BaseMatrix const & bm, py::dict & d, int H, int W)
{
  auto p = dynamic_cast<SparseMatrixTM<TM> const *>(&bm);
  if (!p) return false;
  VVI cols; VVVD vals;
  for (auto k : Range(p->Height())) {
    auto ri = p->GetRowIndices(k); auto rv = p->GetRowValues(k);
    VI c; VVD v;
    for (auto j : Range(ri)) {
      c.push_back(ri[j]); VD e;
      if constexpr (is_same<TM,double>::value) e.push_back(rv[j]);
      else for (int a = 0; a < H; a++) for (int b = 0; b < W; b++) e.push_back(rv[j](a,b));
      v.push_back(e); }
    cols.push_back(c); vals.push_back(v); }
  d["h"] = (int)p->Height(); d["w"] = (int)p->Width(); d["bh"] = H; d["bw"] = W; d["cols"] = cols; d["vals"] = vals;
  return true;
}
py::dict spm_rows (shared_ptr<BaseMatrix> m)
{
  py::dict d; bool found = false;
  BaseMatrix const & l = *GetLocalMat(m);
  if (try_rows<double>(l, d, 1, 1)) return d;
  Iterate<AMG_MAX_SYS_DIM> ([&](auto HM) { Iterate<AMG_MAX_SYS_DIM> ([&](auto WM) {
    constexpr int H = HM + 1, W = WM + 1;
    if constexpr (isSparseMatrixCompiled<H, W>() && (H > 1 || W > 1)) if (!found) found = try_rows<Mat<H,W,double>>(l, d, H, W); }); });
  if (!found) throw Exception(string("harness: not a sparse matrix: ") + typeid(l).name());
  return d;
}
// blocks of a block-compressed matrix: scalar rows, scalar columns, values
py::list dyn_blocks (shared_ptr<BaseMatrix> m)
{
  auto p = dynamic_pointer_cast<DynBlockSparseMatrix<double>>(GetLocalMat(m));
  if (!p) throw Exception("harness: not a block-compressed matrix");
  py::list out;
  Array<unsigned> rb(p->GetNumScalRows() + 10), cb(p->GetNumScalCols() + 10);
  for (auto k : Range(p->GetNumBlocks())) {
    auto [r, c, v] = p->GetBlockRCV(k, rb, cb);
    VI rr, cc; VD vv;
    for (auto x : r) rr.push_back(x); for (auto x : c) cc.push_back(x);
    for (auto i : Range(r.Size())) for (auto j : Range(c.Size())) vv.push_back(v(i,j));
    py::dict d; d["rows"] = rr; d["cols"] = cc; d["vals"] = vv; d["nze"] = (int)p->GetScalNZE(k);
    out.append(d); }
  return out;
}
static Array<unsigned> offs (VI const & o) { Array<unsigned> a(o.size()); for (auto k : Range(o.size())) a[k] = o[k]; return a; }

template<int BS> py::object mkhybrid (shared_ptr<BaseMatrix> A, shared_ptr<DCCMap<double>> d)
{ shared_ptr<BaseMatrix> r = d ? make_shared<HybridMatrix<StripTM<BS,BS>>>(A, d) : make_shared<HybridMatrix<StripTM<BS,BS>>>(A); return py::cast(r); }

void ExportLin (py::module & m)
{
  m.def("make_spm", &make_spm);
  m.def("spm_rows", &spm_rows);
  m.def("make_par", [](shared_ptr<BaseMatrix> A, shared_ptr<ParallelDofs> r, shared_ptr<ParallelDofs> c, string op) -> shared_ptr<BaseMatrix> {
    PARALLEL_OP o = op == "c2d" ? C2D : op == "c2c" ? C2C : op == "d2d" ? D2D : D2C;
    return make_shared<ParallelMatrix>(A, r, c, o); });
  m.def("local_mat", [](shared_ptr<BaseMatrix> A) { return GetLocalMat(A); });
  m.def("serial_vec", [](int n, int bs, VD vals) -> shared_ptr<BaseVector> {
    auto v = CreateSuitableSPVector(n, bs, nullptr); auto f = v->FVDouble(); for (auto k : Range(vals.size())) f(k) = vals[k]; return v; });
  // op: 0 Mult, 1 MultAdd, 2 MultTrans, 3 MultTransAdd
  m.def("apply", [](shared_ptr<BaseMatrix> A, int op, double s, shared_ptr<BaseVector> x, shared_ptr<BaseVector> y) {
    if (op == 0) A->Mult(*x, *y); else if (op == 1) A->MultAdd(s, *x, *y); else if (op == 2) A->MultTrans(*x, *y); else A->MultTransAdd(s, *x, *y); });
  m.def("mat_info", [](shared_ptr<BaseMatrix> A) { return py::make_tuple(A->VHeight(), A->VWidth(), (size_t)A->NZE()); });

  // ---- algebra
  m.def("mm", [](shared_ptr<BaseMatrix> A, shared_ptr<BaseMatrix> B) { return MatMultABGeneric(A, B); });
  m.def("transpose", [](shared_ptr<BaseMatrix> A) { return TransposeAGeneric(A); });
  m.def("transpose_spm", [](shared_ptr<BaseMatrix> A) { return TransposeSPMGeneric(A); });
  m.def("to_sparse", [](shared_ptr<BaseMatrix> A) { return BaseMatrixToSparse(A); });
  m.def("compress", [](shared_ptr<BaseMatrix> A, double tol) { return CompressAGeneric(A, tol); });
  m.def("restrict_keep", [](shared_ptr<BaseMatrix> A, shared_ptr<BaseMatrix> P, shared_ptr<BaseMatrix> PT) {
    auto [AP, PTAP] = RestrictMatrixKeepFactor(*A, *P, *PT); return py::make_tuple(AP, PTAP); });
  m.def("restrict_blocks", [](shared_ptr<BaseMatrix> A, VVI r, VVI c) { auto rt = totab<int>(r); auto ct = totab<int>(c); return restrictMatrixToBlocks(A, rt, ct, 1e-20); });
  m.def("restrict_tm", [](shared_ptr<BaseMatrix> A, shared_ptr<BaseMatrix> P) {   // transpose(P) A P, by the routine the coarse levels use
    shared_ptr<BaseMatrix> r;
    Iterate<AMG_MAX_SYS_DIM> ([&](auto HM) { Iterate<AMG_MAX_SYS_DIM> ([&](auto WM) {
      constexpr int H = HM + 1, W = WM + 1;
      if constexpr (isSparseMatrixCompiled<H, W>() && isSparseMatrixCompiled<H, H>() && IsSparseMMCompiled<W,H,H>() && IsSparseMMCompiled<W,H,W>())
        if (auto a = dynamic_pointer_cast<SparseMatTM<H,H>>(A)) if (auto p = dynamic_pointer_cast<SparseMatTM<H,W>>(P))
          { auto pt = TransposeSPMImpl<H,W>(*p); r = RestrictMatrix<H,W>(*pt, *a, *p); } }); });
    return r; });
  m.def("mm_update", [](shared_ptr<BaseMatrix> A, shared_ptr<BaseMatrix> B, shared_ptr<BaseMatrix> C) {   // new values in the known graph of the product
    bool done = false;
    if (auto a = dynamic_pointer_cast<SparseMatrixTM<double>>(A)) if (auto b = dynamic_pointer_cast<SparseMatrixTM<double>>(B)) if (auto c = dynamic_pointer_cast<SparseMatrixTM<double>>(C))
      { MatMultABUpdateValsImpl<1,1,1>(*a, *b, *c); done = true; }
    return done; });

  // ---- hybrid matrices
  m.def("hybrid", [](shared_ptr<BaseMatrix> A, shared_ptr<DCCMap<double>> d, int bs) -> py::object {
    if (bs == 1) return mkhybrid<1>(A, d); if (bs == 2) return mkhybrid<2>(A, d); if (bs == 3) return mkhybrid<3>(A, d);
    throw Exception("harness: entry size"); }, py::arg("A"), py::arg("dcc"), py::arg("bs"));
  m.def("dyn_hybrid", [](shared_ptr<BaseMatrix> A, shared_ptr<DCCMap<double>> d) -> shared_ptr<BaseMatrix> {
    if (d) return make_shared<DynamicBlockHybridMatrix<double>>(A, d); return make_shared<DynamicBlockHybridMatrix<double>>(A); });
  m.def("hybrid_parts", [](shared_ptr<BaseMatrix> H) {
    auto h = dynamic_pointer_cast<HybridBaseMatrix<double>>(H);
    if (!h) throw Exception("harness: not hybrid");
    return py::make_tuple(h->GetM(), h->GetG(), h->HasGGlobal(), h->HasGLocal()); });

  m.def("hybrid_masters", [](shared_ptr<BaseMatrix> H) { VI v; auto h = dynamic_pointer_cast<HybridBaseMatrix<double>>(H);
    auto b = h->GetDCCMap().GetMasterDOFs(); for (auto k : Range(h->GetParallelDofs()->GetNDofLocal())) v.push_back(b == nullptr || b->Test(k)); return v; });
  m.def("hybrid_dcc", [](shared_ptr<BaseMatrix> H) { return dynamic_pointer_cast<HybridBaseMatrix<double>>(H)->GetDCCMapPtr(); });

  // ---- block-compressed matrices
  m.def("to_dyn", [](shared_ptr<BaseMatrix> A) -> shared_ptr<BaseMatrix> { return ConvertToDynSPM(*A); });
  m.def("dyn_make", [](shared_ptr<BaseMatrix> A, VI rowoff, VI coloff, bool symm) -> shared_ptr<BaseMatrix> {
    auto spm = dynamic_pointer_cast<SparseMatrix<double>>(A);
    DynVectorBlocking<> rb(rowoff.size()-1, rowoff.back(), offs(rowoff)), cb(coloff.size()-1, coloff.back(), offs(coloff));
    return make_shared<DynBlockSparseMatrix<double>>(*spm, rb, cb, symm); });
  m.def("dyn_make_cols", [](shared_ptr<BaseMatrix> A, VI coloff) -> shared_ptr<BaseMatrix> {
    auto spm = dynamic_pointer_cast<SparseMatrix<double>>(A);
    DynVectorBlocking<> cb(coloff.size()-1, coloff.back(), offs(coloff));
    return make_shared<DynBlockSparseMatrix<double>>(*spm, &cb); });
  m.def("dyn_blocks", &dyn_blocks);
  m.def("dyn_info", [](shared_ptr<BaseMatrix> A) {
    auto p = dynamic_pointer_cast<DynBlockSparseMatrix<double>>(GetLocalMat(A)); py::dict d; VI ro, co;
    for (auto k : Range(p->GetNumBlockRows())) ro.push_back(p->GetRowBlocking().GetRepScalRow(k));
    for (auto k : Range(p->GetNumBlockCols())) co.push_back(p->GetColBlocking().GetRepScalRow(k));
    ro.push_back(p->GetNumScalRows()); co.push_back(p->GetNumScalCols());
    d["rowoff"] = ro; d["coloff"] = co; d["nblocks"] = (int)p->GetNumBlocks(); d["nze"] = (int)p->GetNZE();
    d["maxr"] = (int)p->GetMaxScalRowsInRowBlock(); d["maxc"] = (int)p->GetMaxScalColsInRowBlock(); return d; });

  // ---- array and table helpers
  m.def("a_find", [](int e, VI a) { auto x = toarr<int>(a); return (int)find_in_sorted_array<int>(e, x); });
  m.def("a_find_cmp", [](int e, VI a) { auto x = toarr<int>(a); return (int)find_in_sorted_array<int>(e, x, [](auto i, auto j) { return i < j; }); });
  m.def("a_mergepos", [](int e, VI a) { auto x = toarr<int>(a); return (int)merge_pos_in_sorted_array<int>(e, x); });
  m.def("a_insert", [](int e, VI a) { auto x = toarr<int>(a); insert_into_sorted_array(e, x); return tovec<int>(x); });
  m.def("a_insert_nodups", [](int e, VI a) { auto x = toarr<int>(a); bool b = insert_into_sorted_array_nodups(e, x); return py::make_tuple(b, tovec<int>(x)); });
  m.def("a_insert_unique", [](int e, VI a) { auto x = toarr<int>(a); auto [b, p] = sorted_insert_unique(e, x); return py::make_tuple(b, p, tovec<int>(x)); });
  m.def("a_remove", [](int p, VI a) { auto x = toarr<int>(a); removeEntry(p, x); return tovec<int>(x); });
  m.def("a_merge", [](VVI t) { auto x = totab<int>(t); Array<int> o; merge_arrays(x, o, [](auto i, auto j) { return i < j; }); return tovec<int>(o); });
  m.def("a_merge2", [](VI a, VI b) { auto x = toarr<int>(a), y = toarr<int>(b); Array<int> o; merge_arrays<int>(x, y, o); return tovec<int>(o); });
  m.def("a_merge_lh", [](VI a, VI b) { auto x = toarr<int>(a), y = toarr<int>(b); LocalHeap lh(100000, "v"); return tovec<int>(merge_arrays_lh<int>(x, y, lh)); });
  m.def("a_pos", [](VI a, VI b) { auto x = toarr<int>(a), y = toarr<int>(b); LocalHeap lh(100000, "v"); return tovec<int>(posSortedInSorted<int>(x, y, lh)); });
  m.def("a_isect", [](VI a, VI b) { auto x = toarr<int>(a), y = toarr<int>(b); Array<int> o; intersect_sorted_arrays(x, y, o); return tovec<int>(o); });
  m.def("a_isect_it", [](VI a, VI b) { auto x = toarr<int>(a), y = toarr<int>(b); VI o; iterate_intersection(x, y, [&](auto i, auto j) { o.push_back(x[i] == y[j] ? x[i] : -777); }); return o; });
  m.def("a_isect_empty", [](VI a, VI b) { auto x = toarr<int>(a), y = toarr<int>(b); return is_intersect_empty(x, y); });
  m.def("a_anotb", [](VI a, VI b) { auto x = toarr<int>(a), y = toarr<int>(b); VI o; iterate_anotb(x, y, [&](auto i) { o.push_back(x[i]); }); return o; });
  m.def("a_minus", [](VI a, VI b) { auto x = toarr<int>(a), y = toarr<int>(b); LocalHeap lh(100000, "v"); return tovec<int>(setMinus<int>(x, y, lh)); });
  m.def("a_abc", [](VI a, VI b) { auto x = toarr<int>(a), y = toarr<int>(b); VVI o(3);
    iterate_ABC(x, y, [&](ABC_KIND k, auto i, auto j) { o[k].push_back(k == B_NOT_A ? y[j] : x[i]); }); return o; });
  m.def("a_abc3", [](VI a, VI b) { auto x = toarr<int>(a), y = toarr<int>(b); VVI o(3);
    iterate_ABC(x, y, [&](auto i) { o[1].push_back(x[i]); }, [&](auto i) { o[2].push_back(y[i]); }, [&](auto i, auto j) { o[0].push_back(x[i]); }); return o; });
  m.def("a_partition", [](VI a, VI big, int bs) { auto x = toarr<int>(a), y = toarr<int>(big); LocalHeap lh(100000, "v"); auto [p, q] = partitionAB(x, y, lh, bs); return VVI { tovec<int>(p), tovec<int>(q) }; });
  m.def("a_perm", [](VI a, VI p) { auto x = toarr<int>(a), y = toarr<int>(p); ApplyPermutation<int>(x, y); return tovec<int>(x); });
  m.def("a_perm_keep", [](VI a, VI p) { auto x = toarr<int>(a), y = toarr<int>(p); ApplyAndKeepPermutation<int>(x, y); return VVI { tovec<int>(x), tovec<int>(y) }; });
  m.def("a_perm_buf", [](VI a, VI p) { auto x = toarr<int>(a), y = toarr<int>(p); Array<int> b(x.Size()); ApplyPermutation<int>(x, y, b); return tovec<int>(x); });
  m.def("a_inv", [](VI p) { auto x = toarr<int>(p); Array<int> y(x.Size()); InvertPermutation<int>(x, y); return tovec<int>(y); });
  m.def("a_reduce", [](VVI t, int k) { auto tt = totab<int>(t); Array<FlatArray<int>> x(t.size()); for (auto i : Range(t.size())) x[i].Assign(tt[i]); return tovec<int>(k == 0 ? sum_table(x) : k == 1 ? min_table(x) : max_table(x)); });
  m.def("a_lexless", [](VI a, VI b) { auto x = toarr<int>(a), y = toarr<int>(b); return lex_smaller<int>(x, y); });
}
}
