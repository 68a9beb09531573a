// The background thread of the distributed smoothers, driven through schedules: every lock, wait,
// notify and unlock it does passes a gate that holds it back (for a short time at most) until the
// schedule says that it is this thread's turn.
#include "hybrid_base_smoother.cpp"
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>
#include <unistd.h>
#include <atomic>
#include <pthread.h>
namespace py = pybind11;

static std::atomic<bool> armed{false};
static std::atomic<int> pos{0};
static std::string sched;
static std::thread::id main_id;
static thread_local bool inside = false;
static std::atomic<int> nlog{0};
static std::pair<const char*, int> logv[1000];
static std::atomic<int> hits{0};
static int limit_us = 4000;
static void log (const char* what, int k) { int i = nlog++; if (i < 1000) logv[i] = { what, k }; }

static void gate ()
{
  if (!armed) return;
  bool const ismain = std::this_thread::get_id() == main_id;
  if (ismain && !inside) return;
  char const me = ismain ? 'M' : 'W';
  for (int t = 0; t <= limit_us; t += 50)
  {
    int p = pos;
    if (p >= (int)sched.size()) return;
    if (sched[p] == me) { if (pos.compare_exchange_strong(p, p + 1)) { hits++; return; } continue; }
    usleep(50);
  }
}
extern "C" {
int __real_pthread_mutex_lock (pthread_mutex_t*);
int __wrap_pthread_mutex_lock (pthread_mutex_t* m) { gate(); return __real_pthread_mutex_lock(m); }
int __real_pthread_mutex_unlock (pthread_mutex_t*);
int __wrap_pthread_mutex_unlock (pthread_mutex_t* m) { gate(); return __real_pthread_mutex_unlock(m); }
void __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE (std::condition_variable*, std::unique_lock<std::mutex>&);
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE (std::condition_variable* c, std::unique_lock<std::mutex>& l)
{ gate(); __real__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(c, l); }
void __real__ZNSt18condition_variable10notify_oneEv (std::condition_variable*);
void __wrap__ZNSt18condition_variable10notify_oneEv (std::condition_variable* c) { gate(); __real__ZNSt18condition_variable10notify_oneEv(c); }
void __real__ZNSt18condition_variable10notify_allEv (std::condition_variable*);
void __wrap__ZNSt18condition_variable10notify_allEv (std::condition_variable* c) { gate(); __real__ZNSt18condition_variable10notify_allEv(c); }
}

PYBIND11_MODULE(ngsv_thread, m)
{
  // runs a program ("start", "wait", "destroy") under a schedule; jobs take jobus[k] microseconds
  m.def("run", [](std::vector<std::string> prog, std::string s, std::vector<int> jobus, int limit) {
    main_id = std::this_thread::get_id(); sched = s; pos = 0; nlog = 0; hits = 0; limit_us = limit;
    int box = 0, k = 0;
    std::vector<int> seen;
    {
      py::gil_scoped_release rel;
      armed = true; inside = true;
      auto t = std::make_unique<amg::BackgroundMPIThread>();
      for (auto const & op : prog)
      {
        gate();      // the call itself
        if (op == "start")
        {
          int j = ++k, us = jobus.empty() ? 0 : jobus[(j - 1) % jobus.size()];
          log("hand", j);
          t->StartInThread([&box, j, us]() { inside = true; log("begin", j); if (us) usleep(us); box = 10 * box + j; log("end", j); });
        }
        else if (op == "wait") { t->WaitForThread(); log("ret", box); }
        else if (op == "destroy") { log("destroy", 0); t.reset(); }
      }
      log("over", box);
      armed = false; inside = false;
      t.reset();
    }
    py::list l;
    for (int i = 0; i < nlog && i < 1000; i++) { py::dict d; d["op"] = logv[i].first; d["k"] = logv[i].second; l.append(d); }
    py::dict r; r["ev"] = l; r["hits"] = hits.load(); r["len"] = (int)sched.size();
    return r;
  });
}
