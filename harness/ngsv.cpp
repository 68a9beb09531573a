#include "ngsv.hpp"
namespace ngsv
{
shared_ptr<BitArray> tobits (std::vector<int> const & v)
{
  auto b = make_shared<BitArray>(v.size()); b->Clear();
  for (auto k : Range(v.size())) if (v[k]) b->SetBit(k);
  return b;
}
NgsAMG_Comm world () { return NgsAMG_Comm(NG_MPI_COMM_WORLD, false); }
}
PYBIND11_MODULE (ngsv, m)
{
  ngsv::ExportHooks(m);
  ngsv::ExportDist(m); ngsv::ExportLin(m); ngsv::ExportSmooth(m); ngsv::ExportMaps(m); ngsv::ExportSolver(m);
}
