// classes of shared unknowns, exchanges on them, ownership maps, hybrid matrices
#include "ngsv.hpp"
#include <universal_dofs.hpp>
#include <eqchierarchy.hpp>
#include <reducetable.hpp>
#include <dcc_map.hpp>
#include <hybrid_matrix.hpp>
namespace ngsv
{
static VI red_concat (std::vector<VI> const & rows)
{ VI out; for (auto & r : rows) { out.push_back(-1); for (auto v : r) out.push_back(v); } return out; }

void ExportDist (py::module & m)
{
  m.def("make_pds", [](VVI dps, int bs, bool idle) -> shared_ptr<ParallelDofs> {
    return CreateParallelDOFs(world(), totab<int>(dps), bs, false, idle);
  }, py::arg("dps"), py::arg("bs") = 1, py::arg("idle") = false);
  m.def("is_rank0_idle", [](shared_ptr<ParallelDofs> p) { return amg::IsRankZeroIdle(p); });
  m.def("pds_info", [](shared_ptr<ParallelDofs> p) {
    VVI d; VI mast;
    for (auto k : Range(p->GetNDofLocal())) { d.push_back(tovec<int>(p->GetDistantProcs(k))); mast.push_back(p->IsMasterDof(k)); }
    return py::make_tuple(p->GetNDofLocal(), p->GetNDofGlobal(), p->GetEntrySize(), d, mast); });

  py::class_<EQCHierarchy, shared_ptr<EQCHierarchy>> (m, "EQC")
    .def("info", [](EQCHierarchy & e) {
      py::dict d; int n = e.GetNEQCS();
      d["n"] = n;
      VI ids, mast, ism, inv, leq, mrg, com, valid; VVI dps;
      for (int k = 0; k < n; k++) {
        ids.push_back(e.GetEQCID(k)); mast.push_back(e.GetMasterOfEQC(k)); ism.push_back(e.IsMasterOfEQC(k));
        inv.push_back((int)e.GetEQCOfID(e.GetEQCID(k))); dps.push_back(tovec<int>(e.GetDistantProcs(k)));
        for (int j = 0; j < n; j++) {
          leq.push_back(e.IsLEQ(k, j)); mrg.push_back(e.GetMergedEQC(k, j)); com.push_back(e.GetCommonEQC(k, j));
          valid.push_back(e.IsMergeValid(k, j));
        } }
      d["ids"] = ids; d["master"] = mast; d["ismaster"] = ism; d["inv"] = inv; d["dps"] = dps; d["leq"] = leq;
      d["merge"] = mrg; d["common"] = com; d["mergevalid"] = valid; d["all"] = tovec<int>(e.GetDistantProcs());
      d["truly"] = e.IsTrulyParallel(); d["idle"] = e.IsRankZeroIdle(); d["dummy"] = e.IsDummy();
      return d; })
    .def("find", [](EQCHierarchy & e, VI dps) { auto a = toarr<int>(dps); return (int)e.FindEQCWithDPs(a); })
    // classes of n data by their distant procs
    .def("partition", [](EQCHierarchy & e, VI cls) {
      Table<int> t = e.PartitionData<int>(cls.size(), [&](auto k) -> size_t { return cls[k] < 0 ? NO_EQC : cls[k]; }, [&](auto k) { return int(k); });
      return tovv<int>(t); })
    .def("scatter_table", [](EQCHierarchy & e, VVI rows) { return tovv<int>(ScatterEqcData<int>(totab<int>(rows), e)); })
    .def("scatter_eqc_array", [](EQCHierarchy & e, VI vals) { auto a = toarr<int>(vals); e.ScatterEQCArray<int>(a); return tovec<int>(a); })
    .def("scatter_eqc_data", [](EQCHierarchy & e, VVI rows) {
      auto t = totab<int>(rows); auto reqs = e.ScatterEQCData(t); MyMPI_WaitAll(reqs); return tovv<int>(t); })
    .def("gather", [](EQCHierarchy & e, VVI rows) {
      Array<Array<int>> b(rows.size()); for (auto k : Range(rows.size())) b[k] = toarr<int>(rows[k]);
      auto [reqs, ind] = GatherEQCData<int>(b, e); MyMPI_WaitAll(reqs);
      VVI out; for (auto & r : b) out.push_back(tovec<int>(r));
      return py::make_tuple(out, tovv<int>(ind)); })
    // gather again with sizes that are known from a first gather
    .def("gather2", [](EQCHierarchy & e, VVI rows, VVI rows2) {
      Array<Array<int>> b(rows.size()); for (auto k : Range(rows.size())) b[k] = toarr<int>(rows[k]);
      auto [reqs, ind] = GatherEQCData<int>(b, e); MyMPI_WaitAll(reqs);
      Array<Array<int>> c(rows.size());
      for (auto k : Range(rows.size())) {
        c[k].SetSize(e.IsMasterOfEQC(k) ? (int)b[k].Size() : (int)rows2[k].size());
        for (auto j : Range(rows2[k].size())) c[k][j] = rows2[k][j]; }
      auto reqs2 = GatherEQCData<int>(c, FlatTable<int>(ind), e); MyMPI_WaitAll(reqs2);
      VVI out; for (auto & r : c) out.push_back(tovec<int>(r)); return out; })
    // reductions on rows, one row per class
    .def("reduce_concat", [](shared_ptr<EQCHierarchy> e, VVI rows) {
      auto t = totab<int>(rows);
      auto r = ReduceTable<int,int>(t, e, [](auto & in) {
        VI o; for (auto row : in) { o.push_back(-1); for (auto v : row) o.push_back(v); }
        return toarr<int>(o); });
      return tovv<int>(r); })
    .def("reduce_empty", [](shared_ptr<EQCHierarchy> e, VVI rows) {
      // keeps a row only if the first member's row has an even first entry
      auto t = totab<int>(rows);
      auto r = ReduceTable<int,int>(t, e, [](auto & in) {
        VI o; bool first = true; bool keep = false;
        for (auto row : in) { if (first) { keep = row.Size() && (row[0] % 2 == 0); first = false; } if (keep) for (auto v : row) o.push_back(v); }
        return toarr<int>(o); });
      return tovv<int>(r); })
    // rows with their classes given
    .def("reduce_rows", [](shared_ptr<EQCHierarchy> e, VI cls, VVI rows) {
      auto t = totab<int>(rows); auto c = toarr<size_t>(cls);
      auto r = ReduceTable<int,int>(t, c, e, [](auto & in) {
        VI o; for (auto row : in) { o.push_back(-1); for (auto v : row) o.push_back(v); }
        return toarr<int>(o); });
      return tovv<int>(r); });

  m.def("eqc_from_pds", [](shared_ptr<ParallelDofs> p, bool cu, int maxnd, py::object sel) {
    shared_ptr<BitArray> s = sel.is_none() ? nullptr : tobits(py::cast<std::vector<int>>(sel));
    return make_shared<EQCHierarchy>(p, cu, maxnd < 0 ? size_t(-1) : size_t(maxnd), s);
  }, py::arg("pds"), py::arg("cutunion") = false, py::arg("maxnd") = -1, py::arg("sel") = py::none());
  m.def("eqc_from_table", [](VVI t, bool cu, bool idle) { return make_shared<EQCHierarchy>(totab<int>(t), world(), cu, idle); },
        py::arg("tab"), py::arg("cutunion") = false, py::arg("idle") = false);
  m.def("eqc_from_mems", [](VI dps, VVI mems, bool cu) { auto d = toarr<int>(dps); auto t = totab<int>(mems); return make_shared<EQCHierarchy>(d, t, world(), cu); });

  m.def("allreduce_dofs", [](shared_ptr<ParallelDofs> p, VI vals) {
    auto a = toarr<int>(vals); MyAllReduceDofData<int>(*p, a, [](auto & s, auto v) { s += v; }); return tovec<int>(a); });
  m.def("allreduce_dofs_order", [](shared_ptr<ParallelDofs> p, VI vals) { // not commutative: shows the order
    auto a = toarr<int>(vals); MyAllReduceDofData<int>(*p, a, [](auto & s, auto v) { s = 10 * s + v; }); return tovec<int>(a); });
  m.def("exchange_pairwise", [](VI dps, VVI send, int variant) {
    auto d = toarr<int>(dps); auto s = totab<int>(send);
    if (variant == 0) { VVI r0(send.size()); Array<int> sz(send.size()); for (auto k : Range(send.size())) sz[k] = send[k].size();
      Table<int> r(sz); ExchangePairWise(world(), d, s, r); return tovv<int>(r); }
    Array<Array<int>> r(dps.size());
    if (variant == 1) ExchangePairWise2(world(), d, s, r); else ExchangePairWise_norecbuffer(world(), d, s, r);
    VVI o; for (auto & x : r) o.push_back(tovec<int>(x)); return o; });
  // a table sent from one rank to another
  m.def("send_table", [](VVI t, int to) { auto c = world(); auto tt = totab<int>(t); c.Send(FlatTable<int>(tt), to, 77); });
  m.def("recv_table", [](int from) { auto c = world(); Table<int> t; c.Recv(t, from, 77); return tovv<int>(t); });
  m.def("bcast_table", [](VVI t, int root) { auto c = world(); auto tt = totab<int>(t); c.Bcast(tt, root); return tovv<int>(tt); });

  typedef DCCMap<double> DM;
  py::class_<DM, shared_ptr<DM>> (m, "DCCMap")
    .def("masters", [](DM & d) { VI r; auto b = d.GetMasterDOFs(); for (auto k : Range(b->Size())) r.push_back(b->Test(k)); return r; })
    .def("exdofs", [](DM & d) {
      VVI mm, g; auto n = d.GetParallelDofs()->GetDistantProcs().Size();
      for (auto k : Range(n)) { mm.push_back(tovec<int>(d.GetMDOFs(k))); g.push_back(tovec<int>(d.GetGDOFs(k))); }
      return py::make_tuple(tovec<int>(d.GetParallelDofs()->GetDistantProcs()), mm, g); })
    .def("StartDIS2CO", [](DM & d, shared_ptr<BaseVector> v) { d.StartDIS2CO(*v); })
    .def("ApplyDIS2CO", [](DM & d, shared_ptr<BaseVector> v) { d.ApplyDIS2CO(*v); })
    .def("FinishDIS2CO", [](DM & d) { d.FinishDIS2CO(); })
    .def("StartCO2CU", [](DM & d, shared_ptr<BaseVector> v) { d.StartCO2CU(*v); })
    .def("ApplyCO2CU", [](DM & d, shared_ptr<BaseVector> v) { d.ApplyCO2CU(*v); })
    .def("FinishCO2CU", [](DM & d) { d.FinishCO2CU(); })
    .def("WaitD2C", [](DM & d) { d.WaitD2C(); })
    .def("WaitM", [](DM & d) { d.WaitM(); })
    .def("WaitG", [](DM & d) { d.WaitG(); })
    .def("BufferG", [](DM & d, shared_ptr<BaseVector> v) { d.BufferG(*v); })
    .def("BufferM", [](DM & d, shared_ptr<BaseVector> v) { d.BufferM(*v); })
    .def("ApplyM", [](DM & d, shared_ptr<BaseVector> v) { d.ApplyM(*v); })
    .def("ApplyG", [](DM & d, shared_ptr<BaseVector> v) { d.ApplyG(*v); });
  m.def("basic_dcc", [](shared_ptr<ParallelDofs> p) -> shared_ptr<DM> { return make_shared<BasicDCCMap<double>>(p); });
  m.def("chunked_dcc", [](shared_ptr<EQCHierarchy> e, shared_ptr<ParallelDofs> p, int c) -> shared_ptr<DM> { return make_shared<ChunkedDCCMap<double>>(e, p, c); });

  // vectors
  m.def("make_vec", [](shared_ptr<ParallelDofs> p, VD vals, int stat) -> shared_ptr<BaseVector> {
    auto v = UniversalDofs(p).CreateSPVector(stat == 0 ? DISTRIBUTED : CUMULATED);
    auto fv = v->FVDouble(); for (auto k : Range(vals.size())) fv(k) = vals[k];
    v->SetParallelStatus(stat == 0 ? DISTRIBUTED : CUMULATED);
    return v; });
  m.def("set_vec", [](shared_ptr<BaseVector> v, VD vals, int stat) {
    auto fv = v->FVDouble(); for (auto k : Range(vals.size())) fv(k) = vals[k];
    if (stat >= 0) v->SetParallelStatus(stat == 0 ? DISTRIBUTED : stat == 1 ? CUMULATED : NOT_PARALLEL); });
  m.def("get_vec", [](shared_ptr<BaseVector> v) { VD r; auto fv = v->FVDouble(); for (auto k : Range(fv.Size())) r.push_back(fv(k)); return r; });
  m.def("vec_stat", [](shared_ptr<BaseVector> v) { auto s = v->GetParallelStatus(); return s == DISTRIBUTED ? 0 : s == CUMULATED ? 1 : 2; });
}
}
