// options: single option objects, whole option sets, and those a preconditioner ends up with
#include "../ngsv.hpp"
#include <SpecOpt.hpp>
#include <base_smoother.hpp>
#include <dof_map.hpp>
#include <amg_matrix.hpp>
#include <amg_pc.hpp>
#include <h1.hpp>
#include <vertex_factory_impl.hpp>
#include <stokes_pc.hpp>
#include <functional>
#include <map>
namespace ngsv
{
typedef std::vector<string> VS;
static const int NLEV = 6;
// ---- values as strings ----
typedef std::vector<std::pair<int, string>> EN;
template<class E> EN names ();
template<> EN names<AVG_TYPE> () { return {{MIN, "MIN"}, {GEOM, "GEOM"}, {HARM, "HARM"}, {ALG, "ALG"}, {MAX, "MAX"}}; }
typedef BaseAMGPC::Options PO;
typedef VertexAMGFactoryOptions VO;
typedef BaseAMGFactory::Options BO;
typedef BaseStokesAMGPrecond::Options SO;
template<> EN names<PO::MG_CYCLE> () { return {{PO::V_CYCLE, "V_CYCLE"}, {PO::W_CYCLE, "W_CYCLE"}, {PO::BS_CYCLE, "BS_CYCLE"}}; }
template<> EN names<PO::CLEVEL> () { return {{PO::INV_CLEV, "INV_CLEV"}, {PO::SMOOTH_CLEV, "SMOOTH_CLEV"}, {PO::NO_CLEV, "NO_CLEV"}}; }
template<> EN names<INVERSETYPE> () { return {{MASTERINVERSE, "MASTERINVERSE"}, {MUMPS, "MUMPS"}, {PARDISO, "PARDISO"}, {PARDISOSPD, "PARDISOSPD"}, {SPARSECHOLESKY, "SPARSECHOLESKY"},
  {SUPERLU, "SUPERLU"}, {SUPERLU_DIST, "SUPERLU_DIST"}, {UMFPACK, "UMFPACK"}}; }
template<> EN names<PO::SM_TYPE> () { return {{PO::GS, "GS"}, {PO::BGS, "BGS"}, {PO::JACOBI, "JACOBI"}, {PO::HIPTMAIR, "HIPTMAIR"}, {PO::AMGSM, "AMGSM"}, {PO::DYNBGS, "DYNBGS"}}; }
template<> EN names<PO::ENERGY> () { return {{PO::TRIV_ENERGY, "TRIV_ENERGY"}, {PO::ALG_ENERGY, "ALG_ENERGY"}, {PO::ELMAT_ENERGY, "ELMAT_ENERGY"}}; }
template<> EN names<PO::LOG_LEVEL_PC> () { return {{PO::LOG_LEVEL_PC::NONE, "NONE"}, {PO::LOG_LEVEL_PC::BASIC, "BASIC"}, {PO::LOG_LEVEL_PC::NORMAL, "NORMAL"}, {PO::LOG_LEVEL_PC::EXTRA, "EXTRA"}, {PO::LOG_LEVEL_PC::DBG, "DBG"}}; }
template<> EN names<BO::LOG_LEVEL> () { return {{BO::LOG_LEVEL::NONE, "NONE"}, {BO::LOG_LEVEL::BASIC, "BASIC"}, {BO::LOG_LEVEL::NORMAL, "NORMAL"}, {BO::LOG_LEVEL::EXTRA, "EXTRA"}, {BO::LOG_LEVEL::DBG, "DBG"}}; }
template<> EN names<VO::CRS_ALG> () { return {{VO::SPW, "SPW"}, {VO::MIS, "MIS"}, {VO::PLATE_TEST, "PLATE_TEST"}}; }
template<> EN names<VO::PROL_TYPE> () { return {{VO::PIECEWISE, "PIECEWISE"}, {VO::AUX_SMOOTHED, "AUX_SMOOTHED"}, {VO::SEMI_AUX_SMOOTHED, "SEMI_AUX_SMOOTHED"}}; }
template<class T> string str (T const & v)
{
  if constexpr (std::is_same<T, string>::value) return v;
  else if constexpr (std::is_same<T, bool>::value) return v ? "1" : "0";
  else if constexpr (std::is_same<T, xbool>::value) return v.IsTrue() ? "1" : v.IsFalse() ? "0" : "m";
  else if constexpr (std::is_enum<T>::value) { for (auto & p : names<T>()) if (p.first == int(v)) return p.second; return "other value " + std::to_string(int(v)); }
  else { std::ostringstream o; o.precision(12); o << v; return o.str(); }
}
template<class T> T val (string s)
{
  if constexpr (std::is_same<T, string>::value) return s;
  else if constexpr (std::is_same<T, bool>::value) return s == "1";
  else if constexpr (std::is_same<T, xbool>::value) return s == "1" ? xbool(true) : s == "0" ? xbool(false) : xbool(maybe);
  else if constexpr (std::is_enum<T>::value) { for (auto & p : names<T>()) if (p.second == s) return T(p.first); throw Exception("enumerator " + s); }
  else return T(std::stod(s));
}
template<class T> Array<T> vals (VS v) { Array<T> a(v.size()); for (auto k : Range(v.size())) a[k] = val<T>(v[k]); return a; }
// ---- flags: list of [key, kind, values] ----
typedef std::vector<std::tuple<string, string, VS>> FL;
static Flags flags (FL const & l)
{
  Flags f;
  for (auto & [k, t, v] : l)
    if (t == "num") f.SetFlag(k, std::stod(v[0]));
    else if (t == "str") f.SetFlag(k, v[0]);
    else if (t == "def") f.SetFlag(k, v[0] == "1");
    else if (t == "nums") { Array<double> a; for (auto & s : v) a.Append(std::stod(s)); f.SetFlag(k, a); }
    else if (t == "strs") { Array<string> a; for (auto & s : v) a.Append(s); f.SetFlag(k, a); }
    else throw Exception("flag kind " + t);
  return f;
}
// ---- single option objects ----
struct Obj
{
  virtual ~Obj () { }
  virtual VS get () = 0;
  virtual shared_ptr<Obj> copy (int how) = 0;
  virtual void assign (Obj & o, int how) = 0;
  virtual void assign_default (string v) = 0;
  virtual void combine (Obj & o) = 0;
  virtual void read (Flags const & f, string key, int how) = 0;
};
template<class T> struct TObj : Obj
{
  SpecOpt<T> o;
  TObj (SpecOpt<T> && x) : o(std::move(x)) { }
  TObj () { }
  VS get () override { VS r; for (int k = 0; k < NLEV; k++) r.push_back(str<T>(o.GetOpt(k))); return r; }
  shared_ptr<Obj> copy (int how) override
  {
    if (how == 0) { const SpecOpt<T> & c = o; SpecOpt<T> n(c); return make_shared<TObj<T>>(std::move(n)); }
    auto r = make_shared<TObj<T>>(); r->o = o; return r;
  }
  void assign (Obj & x, int how) override { auto & y = dynamic_cast<TObj<T>&>(x); if (how == 0) o = y.o; else { SpecOpt<T> t(y.o); o = std::move(t); } }
  void assign_default (string v) override { o = val<T>(v); }
  void combine (Obj & x) override { o |= dynamic_cast<TObj<T>&>(x).o; }
  void read (Flags const & f, string key, int how) override
  {
    if constexpr (std::is_enum<T>::value) {
      Array<string> n({"min", "geom", "harm", "alg", "max"}); Array<T> e({T(MIN), T(GEOM), T(HARM), T(ALG), T(MAX)});
      if (how == 0) o.SetFromFlagsEnum(f, key, FlatArray<string>(n), FlatArray<T>(e)); else o.SetFromFlagsEnum(f, key, std::move(n), std::move(e));
    }
    else o.SetFromFlags(f, key);
  }
  static shared_ptr<Obj> make (string g, VS l, int how)
  {
    Array<T> a = vals<T>(l); T d = val<T>(g);
    if (how == 0) { SpecOpt<T> s(d); if (a.Size()) { s.spec_opt.SetSize(a.Size()); for (auto k : Range(a)) s.spec_opt[k] = a[k]; } return make_shared<TObj<T>>(std::move(s)); }
    if (how == 1 || a.Size()) return make_shared<TObj<T>>(SpecOpt<T>(d, Array<T>(a)));
    SpecOpt<T> s = d; return make_shared<TObj<T>>(std::move(s));
  }
};
static shared_ptr<Obj> make (string t, string g, VS l, int how)
{
  if (t == "bool") return TObj<bool>::make(g, l, how);
  if (t == "int") return TObj<int>::make(g, l, how);
  if (t == "double") return TObj<double>::make(g, l, how);
  if (t == "string") return TObj<string>::make(g, l, how);
  if (t == "xbool") return TObj<xbool>::make(g, l, how);
  return TObj<AVG_TYPE>::make(g, l, how);
}
// ---- option sets ----
struct Field { std::function<VS()> get; std::function<void(string, VS)> set; };
typedef std::map<string, Field> Fields;
template<class T> void add (Fields & m, string n, SpecOpt<T> & o)
{
  m[n] = { [&o] { VS r; for (int k = 0; k < NLEV; k++) r.push_back(str<T>(o.GetOpt(k))); return r; },
           [&o] (string g, VS l) { o.default_opt = val<T>(g); auto a = vals<T>(l); o.spec_opt.SetSize(a.Size()); for (auto k : Range(a)) o.spec_opt[k] = a[k]; } };
}
template<class T> void add (Fields & m, string n, T & o)
{ m[n] = { [&o] { return VS(NLEV, str<T>(o)); }, [&o] (string g, VS l) { o = val<T>(g); } }; }
#define F(x) add(m, #x, o.x);
static void base (Fields & m, BO & o)
{
  F(max_n_levels) F(max_meas) F(min_meas) F(enable_multistep) F(enable_dyn_crs) F(aaf) F(first_aaf) F(aaf_scale) F(enable_redist) F(rdaf) F(first_rdaf) F(rdaf_scale)
  F(rd_crs_thresh) F(rd_loc_thresh) F(rd_pfac) F(rd_min_nv_th) F(rd_min_nv_gl) F(rd_seq_nv) F(rd_loc_gl) F(sp_needs_cmap) F(sp_min_frac) F(sp_max_per_row) F(sp_omega) F(use_emb_sp)
  F(keep_grid_maps) F(check_kvecs) F(log_level) F(print_log) F(log_file)
}
static void vertex (Fields & m, VO & o)
{
  base(m, o);
  F(edge_thresh) F(vert_thresh) F(crs_robust) F(ecw_stab_hack) F(print_aggs) F(print_vmap) F(check_iso)
  F(numRounds) F(robustPick) F(neibBoost) F(scalAvg) F(orphanRound) F(checkBigSOC) F(bigSOCBlockDiagSM) F(bigSOCRobust) F(bigSOCCheckHackThresh) F(diagStabBoost) F(printParams) F(printSummary)
  F(mis_neib_boost) F(lazy_neib_boost) F(agg_minmax_avg) F(ecw_minmax) F(mis_dist2) F(ecw_geom)
  F(crs_alg) F(prol_type) F(sp_max_per_row_classic) F(improve_avgs) F(sp_improve_its) F(sp_use_roots) F(sp_use_asb) F(improve_c_aux_mats) F(rot_scale) F(use_aux_mat) F(check_aux_mats)
}
static void pcopts (Fields & m, PO & o)
{
  F(mg_cycle) F(clev) F(cinv_type) F(cinv_type_loc) F(sm_type) F(sm_steps) F(sm_steps_loc) F(sm_symm) F(sm_symm_loc) F(sm_NG_MPI_overlap) F(sm_NG_MPI_thread) F(sm_shm) F(sm_sl2) F(sm_use_fes_blocks)
  F(sync) F(do_test) F(test_levels) F(test_2level) F(test_smoothers) F(smooth_lo_only) F(regularize_cmats) F(force_ass_flmat) F(smooth_after_emb) F(energy) F(log_level_pc) F(print_log_pc) F(log_file_pc)
}
static void stokes (Fields & m, SO & o) { pcopts(m, o); F(sm_type_pot) F(sm_type_range) F(amg_sm_single_fls) }
#undef F
struct Set { Fields m; VO v; PO p; SO s; };
typedef std::map<string, VS> Dump;
static Dump dump (Fields & m) { Dump d; for (auto & [n, f] : m) d[n] = f.get(); return d; }
static py::tuple apply (string set, std::vector<std::tuple<string, string, VS>> defaults, FL fl)
{
  auto s = make_shared<Set>();
  if (set == "vertex") vertex(s->m, s->v); else if (set == "pc") pcopts(s->m, s->p); else stokes(s->m, s->s);
  for (auto & [n, g, l] : defaults) s->m.at(n).set(g, l);
  Dump a = dump(s->m);
  Flags f = flags(fl);
  if (set == "vertex") s->v.SetFromFlags(f, "ngs_amg_"); else if (set == "pc") s->p.SetFromFlags(nullptr, nullptr, f, "ngs_amg_"); else s->s.SetFromFlags(nullptr, nullptr, f, "ngs_amg_");
  return py::make_tuple(a, dump(s->m));
}
// ---- what a preconditioner uses ----
struct Peek : BaseAMGPC { static shared_ptr<Options> of (BaseAMGPC & p) { return p.*(&Peek::options); } };
static void ExportOpts (py::module & m)
{
  py::class_<Obj, shared_ptr<Obj>>(m, "Opt").def("get", &Obj::get).def("copy", &Obj::copy).def("assign", &Obj::assign).def("assign_default", &Obj::assign_default).def("combine", &Obj::combine)
    .def("read", [](Obj & o, FL f, string key, int how) { o.read(flags(f), key, how); });
  m.def("opt_make", &make);
  m.def("opt_apply", &apply);
  m.def("pc_options", [](shared_ptr<Preconditioner> pc) {
    auto p = dynamic_pointer_cast<BaseAMGPC>(pc);
    auto o = Peek::of(*p);
    Fields f;
    if (auto s = dynamic_pointer_cast<SO>(o)) stokes(f, *s); else pcopts(f, *o);
    if (auto v = std::dynamic_pointer_cast<VO>(o)) vertex(f, *v); else if (auto b = std::dynamic_pointer_cast<BO>(o)) base(f, *b);
    return dump(f); });
}
}
PYBIND11_MODULE (ngsv_opts, m) { ngsv::ExportOpts(m); }
