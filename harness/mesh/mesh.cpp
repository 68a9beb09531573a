// meshes of vertices and edges, coarsening them, redistributing them, sending them
#include "../ngsv.hpp"
#include <universal_dofs.hpp>
#include <eqchierarchy.hpp>
#include <grid_contract.hpp>
#include <h1.hpp>
#include <h1_impl.hpp>
#include <agglomerate_map.hpp>
#include <spw_agg.hpp>
#include <spw_agg_map.hpp>
#include <mis_agg.hpp>
#include <mis_agg_map.hpp>
#include <plate_test_agg_map.hpp>
namespace ngsv
{
static shared_ptr<BitArray> bits (VI const & v)
{
  auto b = make_shared<BitArray>(v.size()); b->Clear();
  for (auto k : Range(v.size())) if (v[k]) b->SetBit(k);
  return b;
}
static NgsAMG_Comm all () { return NgsAMG_Comm(NG_MPI_COMM_WORLD, false); }
typedef H1AMGFactory<1> FAC;
struct Mesh { shared_ptr<BlockTM> m; VI vsort, esort; };
typedef shared_ptr<Mesh> PM;
static PM wrap (shared_ptr<TopologicMesh> t)
{
  auto b = dynamic_pointer_cast<BlockTM>(t); if (!b) return nullptr;
  auto p = make_shared<Mesh>(); p->m = b; return p;
}
static shared_ptr<H1Mesh> alg (Mesh & p) { auto a = dynamic_pointer_cast<H1Mesh>(p.m); if (!a) throw Exception("mesh without data"); return a; }
static Flags toflags (std::vector<std::tuple<string, string, string>> const & l)
{
  Flags f;
  for (auto & [k, t, v] : l)
    if (t == "num") f.SetFlag(k, std::stod(v));
    else if (t == "str") f.SetFlag(k, v);
    else f.SetFlag(k, v == "1");
  return f;
}
// topology as seen by one rank; without a hierarchy (received mesh) the classes are numbered only
static py::dict dump (BlockTM & m)
{
  py::dict d; int n = m.GetNEqcs();
  d["neqcs"] = n; d["nv"] = n ? int(m.GetNN<NT_VERTEX>()) : 0; d["ne"] = n ? int(m.GetNN<NT_EDGE>()) : 0;
  d["nvg"] = (int)m.GetNNGlobal<NT_VERTEX>(); d["neg"] = (int)m.GetNNGlobal<NT_EDGE>();
  VI vcls, vpos, ecls, epos, eid, env, ene, cne; VVI e, vrow, erow, crow;
  if (n) {
    for (auto v : m.GetNodes<NT_VERTEX>()) { vcls.push_back(m.GetEQCOfNode<NT_VERTEX>(v)); vpos.push_back(m.MapNodeToEQC<NT_VERTEX>(v)); }
    for (auto & g : m.GetNodes<NT_EDGE>()) { eid.push_back(g.id); e.push_back({g.v[0], g.v[1]}); }
    for (auto k : Range(e.size())) { ecls.push_back(m.GetEQCOfNode<NT_EDGE>(k)); epos.push_back(m.MapNodeToEQC<NT_EDGE>(k)); }
    for (auto k : Range(n)) {
      env.push_back(m.GetENN<NT_VERTEX>(k)); ene.push_back(m.GetENN<NT_EDGE>(k)); cne.push_back(m.GetCNN<NT_EDGE>(k));
      VI r, s, t; for (auto v : m.GetENodes<NT_VERTEX>(k)) r.push_back(v);
      for (auto & g : m.GetENodes<NT_EDGE>(k)) s.push_back(g.id);
      for (auto & g : m.GetCNodes<NT_EDGE>(k)) t.push_back(g.id);
      vrow.push_back(r); erow.push_back(s); crow.push_back(t);
    }
  }
  d["vcls"] = vcls; d["vpos"] = vpos; d["ecls"] = ecls; d["epos"] = epos; d["eid"] = eid; d["e"] = e;
  d["env"] = env; d["ene"] = ene; d["cne"] = cne; d["vrow"] = vrow; d["erow"] = erow; d["crow"] = crow;
  return d;
}
static py::dict dumpdata (H1Mesh & m)
{
  py::dict d;
  auto [v, e] = m.Data();
  VD a, b, c; for (auto & x : v->Data()) { a.push_back(x[0]); b.push_back(x[1]); } for (auto x : e->Data()) c.push_back(x);
  d["v0"] = a; d["v1"] = b; d["e"] = c;
  d["vst"] = int(v->GetParallelStatus() == CUMULATED); d["est"] = int(e->GetParallelStatus() == CUMULATED);
  return d;
}
static PARALLEL_STATUS stat (int s) { return s ? CUMULATED : DISTRIBUTED; }

struct Contr { shared_ptr<AlgContractMap<H1Mesh>> c; };
struct Crs { shared_ptr<BaseCoarseMap> c; shared_ptr<BaseAgglomerateCoarseMap> a; };

template<class MAP> shared_ptr<BaseAgglomerateCoarseMap> coarse (Mesh & p, FAC::Options const & o, int level)
{ auto c = make_shared<MAP>(alg(p)); c->Initialize(o, level); return c; }

static void ExportM (py::module & m)
{
  py::class_<Mesh, PM>(m, "Mesh")
    .def_readonly("vsort", &Mesh::vsort).def_readonly("esort", &Mesh::esort)
    .def("eqc", [](Mesh & p) { return p.m->GetEQCHierarchy(); })
    .def("dump", [](Mesh & p) { return dump(*p.m); })
    .def("data", [](Mesh & p) { return dumpdata(*alg(p)); })
    .def("cumulate", [](Mesh & p) { alg(p)->CumulateData(); })
    .def("distribute", [](Mesh & p) { alg(p)->DistributeData(); })
    // the same topology with data; the mesh without data is empty afterwards
    .def("attach", [](Mesh & p, VD v0, VD v1, int vst, VD e, int est) {
      Array<IVec<2, double>> va(v0.size()); for (auto k : Range(v0.size())) { va[k][0] = v0[k]; va[k][1] = v1[k]; }
      auto q = make_shared<Mesh>(); q->vsort = p.vsort; q->esort = p.esort;
      q->m = make_shared<H1Mesh>(std::move(*p.m), new H1VData(std::move(va), stat(vst)), new H1EData(toarr<double>(e), stat(est)));
      return q; })
    .def("econ", [](Mesh & p) {
      auto s = p.m->GetEdgeCM(); VVI o;
      for (auto k : Range(s->Height())) { VI r; auto c = s->GetRowIndices(k); auto x = s->GetRowValues(k); for (auto j : Range(c.Size())) { r.push_back(c[j]); r.push_back(int(x[j])); } o.push_back(r); }
      return o; })
    .def("sum", [](Mesh & p, int nt, VI v, bool loc) {
      auto a = toarr<int>(v); auto red = [](auto & in) { return std::move(sum_table(in)); };
      if (nt) p.m->AllreduceNodalData<NT_EDGE>(a, red, loc); else p.m->AllreduceNodalData<NT_VERTEX>(a, red, loc);
      return tovec<int>(a); })
    .def("scatter", [](Mesh & p, int nt, VI v) {
      auto a = toarr<int>(v); if (nt) p.m->ScatterNodalData<NT_EDGE>(a); else p.m->ScatterNodalData<NT_VERTEX>(a); return tovec<int>(a); })
    .def("send", [](Mesh & p, int dest) { all().Send(p.m, dest, 4711); });
  m.def("recv_mesh", [](int src) { shared_ptr<BlockTM> b; all().Recv(b, src, 4711); return wrap(b); });
  m.def("dummy_eqc", []() { return make_shared<EQCHierarchy>(); });
  // vertices by the other ranks that hold them; edges as pairs of vertices
  m.def("build_mesh", [](shared_ptr<EQCHierarchy> e, VVI dps, VVI edges) {
    auto p = make_shared<Mesh>(); auto b = make_shared<BlockTM>(e);
    p->vsort = VI(dps.size(), -1); p->esort = VI(edges.size(), -1);
    auto t = totab<int>(dps);
    b->SetVs(dps.size(), [&](auto i) -> FlatArray<int> { return t[i]; }, [&](auto i, auto j) { p->vsort[i] = j; });
    b->SetNodes<NT_EDGE>(edges.size(), [&](auto i) {
      int a = p->vsort[edges[i][0]], c = p->vsort[edges[i][1]]; return (decltype(AMG_Node<NT_EDGE>::v)){std::min(a, c), std::max(a, c)}; },
      [&](auto i, auto j) { p->esort[i] = j; });
    p->m = b; return p; });
  m.def("metis", [](Mesh & p, int n, bool sep) { return tovv<int>(PartitionProcsMETIS(*p.m, n, sep)); });
  py::class_<Contr>(m, "Contract")
    .def(py::init([](Mesh & p, VVI groups, bool oriented) {
      return Contr{make_shared<AlgContractMap<H1Mesh>>(totab<int>(groups), p.m, oriented)}; }))
    .def("mesh", [](Contr & c) -> PM { return c.c->IsMaster() ? wrap(c.c->GetMappedMesh()) : (c.c->GetMappedMesh(), nullptr); })
    .def("master", [](Contr & c) { return c.c->IsMaster(); })
    .def("group", [](Contr & c) { return tovec<int>(c.c->GetGroup()); })
    .def("procmap", [](Contr & c) { return tovec<int>(c.c->GetProcMap()); })
    .def("eqc", [](Contr & c) -> shared_ptr<EQCHierarchy> { return c.c->IsMaster() ? c.c->GetMappedEQCHierarchy() : nullptr; })
    .def("maps", [](Contr & c, int nt) {
      VVI o; for (auto k : Range(c.c->GetGroup().Size())) o.push_back(nt ? tovec<int>(c.c->GetNodeMap<NT_EDGE>(k)) : tovec<int>(c.c->GetNodeMap<NT_VERTEX>(k))); return o; })
    .def("flips", [](Contr & c) {
      VVI o; for (auto & b : c.c->GetFlipNodes<NT_EDGE>()) { VI r; for (auto k : Range(b.Size())) r.push_back(b.Test(k)); o.push_back(r); } return o; })
    .def("data", [](Contr & c, int nt, VD v, int st) {
      auto a = toarr<double>(v); Array<double> o;
      if (nt) c.c->MapNodeData<NT_EDGE>(FlatArray<double>(a), stat(st), &o); else c.c->MapNodeData<NT_VERTEX>(FlatArray<double>(a), stat(st), &o);
      return tovec<double>(o); });
  py::class_<Crs>(m, "Coarse")
    .def("mesh", [](Crs & c) { return wrap(c.c->GetMappedMesh()); })
    .def("map", [](Crs & c, int nt) { return nt ? tovec<int>(c.c->GetMap<NT_EDGE>()) : tovec<int>(c.c->GetMap<NT_VERTEX>()); })
    .def("c2f", [](Crs & c, int nt) { return nt ? tovv<int>(c.c->GetMapC2F<NT_EDGE>()) : tovv<int>(c.c->GetMapC2F<NT_VERTEX>()); })
    .def("nn", [](Crs & c) { return VI{int(c.c->GetNN<NT_VERTEX>()), int(c.c->GetMappedNN<NT_VERTEX>()), int(c.c->GetNN<NT_EDGE>()), int(c.c->GetMappedNN<NT_EDGE>())}; })
    .def("center", [](Crs & c) { VI r; auto b = c.a ? c.a->GetAggCenter() : nullptr; if (b) for (auto k : Range(b->Size())) r.push_back(b->Test(k)); return r; })
    .def("concat", [](Crs & c, Crs & d) { return Crs{c.c->Concatenate(d.c), nullptr}; });
  m.def("coarsen", [](Mesh & p, string alg, int level, std::vector<std::tuple<string, string, string>> fl, VI free, bool hasfree) {
    auto o = make_shared<FAC::Options>(); o->SetFromFlags(toflags(fl), "ngs_amg_");
    shared_ptr<BaseAgglomerateCoarseMap> a;
    if (alg == "spw") a = coarse<SPWAgglomerateCoarseMap<FAC::TMESH, FAC::ENERGY>>(p, *o, level);
    else if (alg == "mis") a = coarse<MISAgglomerateCoarseMap<FAC::TMESH, FAC::ENERGY>>(p, *o, level);
    else a = coarse<PlateTestAgglomerateCoarseMap<FAC::TMESH>>(p, *o, level);
    shared_ptr<BitArray> fr = hasfree ? bits(free) : nullptr;
    a->SetFreeVerts(fr);
    return Crs{a, a}; });
}
}
PYBIND11_MODULE (ngsv_mesh, m) { py::module::import("ngsv"); ngsv::ExportM(m); }
