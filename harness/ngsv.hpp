#ifndef NGSV_HPP
#define NGSV_HPP
// Verification harness: a Python extension module that exposes the parts of NgsAMG which have no
// Python interface of their own, so that scenarios can be scripted and traces recorded.
#include <base.hpp>
#include <python_ngstd.hpp>
#include <vector>
#include <string>
namespace ngsv
{
using namespace amg;
typedef std::vector<int> VI;
typedef std::vector<VI> VVI;
typedef std::vector<double> VD;
typedef std::vector<VD> VVD;

template<class T> std::vector<T> tovec (FlatArray<T> a)
{ std::vector<T> v; for (auto k : Range(a.Size())) v.push_back(a[k]); return v; }
template<class T> std::vector<std::vector<T>> tovv (FlatTable<T> a)
{ std::vector<std::vector<T>> v; for (auto k : Range(a.Size())) v.push_back(tovec<T>(a[k])); return v; }
template<class T, class S> Table<T> totab (std::vector<std::vector<S>> const & v)
{
  Array<int> s(v.size()); for (auto k : Range(v.size())) s[k] = v[k].size();
  Table<T> t(s);
  for (auto k : Range(v.size())) for (auto j : Range(v[k].size())) t[k][j] = v[k][j];
  return t;
}
template<class T, class S> Array<T> toarr (std::vector<S> const & v)
{ Array<T> a(v.size()); for (auto k : Range(v.size())) a[k] = v[k]; return a; }

shared_ptr<BitArray> tobits (std::vector<int> const & v);
NgsAMG_Comm world ();

void ExportHooks (py::module & m);
void ExportDist (py::module & m);
void ExportSmooth (py::module & m);
void ExportLin (py::module & m);
void ExportMaps (py::module & m);
void ExportMisc (py::module & m);
void ExportMesh (py::module & m);
void ExportPC (py::module & m);
void ExportSolver (py::module & m);
}
#endif
