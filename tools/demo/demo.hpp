#include <base.hpp>
#include <python_ngstd.hpp>
#include <universal_dofs.hpp>
#include <eqchierarchy.hpp>
#include <reducetable.hpp>
#include <dcc_map.hpp>
#include <hybrid_matrix.hpp>
using namespace amg;
typedef std::vector<int> VI; typedef std::vector<VI> VVI; typedef std::vector<double> VD;
template<class T> std::vector<T> tov (FlatArray<T> a) { std::vector<T> v; for (auto k : Range(a.Size())) v.push_back(a[k]); return v; }
template<class T> std::vector<std::vector<T>> tovv (FlatTable<T> a) { std::vector<std::vector<T>> v; for (auto k : Range(a.Size())) v.push_back(tov<T>(a[k])); return v; }
inline Table<int> totab (VVI const & v) { Array<int> s(v.size()); for (auto k : Range(v.size())) s[k] = v[k].size(); Table<int> t(s);
  for (auto k : Range(v.size())) for (auto j : Range(v[k].size())) t[k][j] = v[k][j]; return t; }
inline NgsAMG_Comm world () { return NgsAMG_Comm(NG_MPI_COMM_WORLD, false); }
