// Hooks on the MPI entry points (function pointers of the wrapper in libngcore): they count
// messages and open requests and can delay calls, so that other orders of arrival are seen.
#include "ngsv.hpp"
#include <unistd.h>
#include <mutex>
#include <random>
#include <atomic>
#include <thread>
#include <map>
namespace ngsv
{
static std::mutex mtx;
static std::atomic<long> n_send{0}, n_recv{0}, n_start{0};
static std::map<uintptr_t, int> open_reqs;     // plain non-blocking requests
static std::map<uintptr_t, int> active_pers;   // persistent requests that were started
static std::map<uintptr_t, int> pers;
static long restarted_active = 0;
static int delay_max = 0;                       // microseconds
static std::mt19937 rng(1);

static decltype(NG_MPI_Isend) o_isend; static decltype(NG_MPI_Irecv) o_irecv;
static decltype(NG_MPI_Send) o_send; static decltype(NG_MPI_Recv) o_recv;
static decltype(NG_MPI_Startall) o_startall; static decltype(NG_MPI_Waitall) o_waitall;
static decltype(NG_MPI_Wait) o_wait; static decltype(NG_MPI_Waitany) o_waitany;
static decltype(NG_MPI_Request_free) o_rfree;
static decltype(NG_MPI_Send_init) o_sinit; static decltype(NG_MPI_Recv_init) o_rinit;

static void delay ()
{
  if (!delay_max) return;
  int d; { std::lock_guard<std::mutex> g(mtx); d = std::uniform_int_distribution<int>(0, 3)(rng) ? 0 : std::uniform_int_distribution<int>(0, delay_max)(rng); }
  if (d) usleep(d);
}
static void opened (uintptr_t r) { std::lock_guard<std::mutex> g(mtx); open_reqs[r]++; }
static void closed (uintptr_t r)
{
  std::lock_guard<std::mutex> g(mtx);
  if (pers.count(r)) { active_pers.erase(r); return; }
  open_reqs.erase(r);
}

static int h_isend (void* b, int n, NG_MPI_Datatype t, int d, int tag, NG_MPI_Comm c, NG_MPI_Request* r)
{ delay(); n_send++; int e = o_isend(b,n,t,d,tag,c,r); opened(r->value); return e; }
static int h_irecv (void* b, int n, NG_MPI_Datatype t, int d, int tag, NG_MPI_Comm c, NG_MPI_Request* r)
{ delay(); n_recv++; int e = o_irecv(b,n,t,d,tag,c,r); opened(r->value); return e; }
static int h_send (void* b, int n, NG_MPI_Datatype t, int d, int tag, NG_MPI_Comm c)
{ delay(); n_send++; return o_send(b,n,t,d,tag,c); }
static int h_recv (void* b, int n, NG_MPI_Datatype t, int d, int tag, NG_MPI_Comm c, NG_MPI_Status* s)
{ delay(); n_recv++; return o_recv(b,n,t,d,tag,c,s); }
static int h_startall (int n, NG_MPI_Request* r)
{
  delay(); n_start += n;
  { std::lock_guard<std::mutex> g(mtx);
    for (int k = 0; k < n; k++) { if (active_pers.count(r[k].value)) restarted_active++; active_pers[r[k].value] = 1; } }
  return o_startall(n, r);
}
static int h_waitall (int n, NG_MPI_Request* r, NG_MPI_Status* s)
{
  delay();
  std::vector<uintptr_t> v; for (int k = 0; k < n; k++) v.push_back(r[k].value);
  for (auto x : v) closed(x);   // before the call: the library may reuse the handle afterwards
  return o_waitall(n, r, s);
}
static int h_wait (NG_MPI_Request* r, NG_MPI_Status* s)
{ delay(); closed(r->value); return o_wait(r, s); }
static int h_waitany (int n, NG_MPI_Request* r, int* i, NG_MPI_Status* s)
{
  delay();
  std::vector<uintptr_t> v; for (int k = 0; k < n; k++) v.push_back(r[k].value);
  int e = o_waitany(n, r, i, s);
  if (*i >= 0 && *i < n) closed(v[*i]);
  return e;
}
static int h_rfree (NG_MPI_Request* r)
{ { std::lock_guard<std::mutex> g(mtx); open_reqs.erase(r->value); pers.erase(r->value); } return o_rfree(r); }
static int h_sinit (void* b, int n, NG_MPI_Datatype t, int d, int tag, NG_MPI_Comm c, NG_MPI_Request* r)
{ int e = o_sinit(b,n,t,d,tag,c,r); std::lock_guard<std::mutex> g(mtx); pers[r->value] = 1; return e; }
static int h_rinit (void* b, int n, NG_MPI_Datatype t, int d, int tag, NG_MPI_Comm c, NG_MPI_Request* r)
{ int e = o_rinit(b,n,t,d,tag,c,r); std::lock_guard<std::mutex> g(mtx); pers[r->value] = 1; return e; }

void ExportHooks (py::module & m)
{
  m.def("install_hooks", []() {
    static bool done = false; if (done) return; done = true;
    o_isend = NG_MPI_Isend; NG_MPI_Isend = h_isend; o_irecv = NG_MPI_Irecv; NG_MPI_Irecv = h_irecv;
    o_send = NG_MPI_Send; NG_MPI_Send = h_send; o_recv = NG_MPI_Recv; NG_MPI_Recv = h_recv;
    o_startall = NG_MPI_Startall; NG_MPI_Startall = h_startall;
    o_waitall = NG_MPI_Waitall; NG_MPI_Waitall = h_waitall; o_wait = NG_MPI_Wait; NG_MPI_Wait = h_wait;
    o_waitany = NG_MPI_Waitany; NG_MPI_Waitany = h_waitany;
    o_rfree = NG_MPI_Request_free; NG_MPI_Request_free = h_rfree;
    o_sinit = NG_MPI_Send_init; NG_MPI_Send_init = h_sinit; o_rinit = NG_MPI_Recv_init; NG_MPI_Recv_init = h_rinit;
  });
  m.def("set_delay", [](int maxus, int seed) { delay_max = maxus; rng.seed(seed); });
  m.def("reset_counters", []() { std::lock_guard<std::mutex> g(mtx); n_send = n_recv = n_start = 0; open_reqs.clear(); active_pers.clear(); restarted_active = 0; });
  m.def("counters", []() {
    py::dict d; d["send"] = n_send.load(); d["recv"] = n_recv.load(); d["start"] = n_start.load();
    { std::lock_guard<std::mutex> g(mtx); d["open"] = (int)open_reqs.size(); d["active"] = (int)active_pers.size(); d["restarted"] = restarted_active; }
    return d; });
  m.def("barrier", []() { world().Barrier(); });
  // is any message waiting here that nobody asked for?
  m.def("stray", []() -> int {
    int flag = 0; NG_MPI_Status st;
    NG_MPI_Iprobe(NG_MPI_ANY_SOURCE, NG_MPI_ANY_TAG, NG_MPI_COMM_WORLD, &flag, &st);
    return flag; });
  m.def("rank", []() { return world().Rank(); });
  m.def("size", []() { return world().Size(); });
}
}
