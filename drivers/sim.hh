// Deterministic simulation of the threads of /repo: included in front of every source (-include), it replaces the
// synchronisation classes of the standard library.  One simulated thread runs at a time; at every operation on a mutex,
// a condition variable, a thread or the clock the seed decides who continues.
#ifndef VERIF_SIM
#define VERIF_SIM
#include "harness.hh"
#include <iomanip>
#include <list>
#include <optional>
#include <random>
#include <regex>
#include <shared_mutex>
#include <stack>
#include <typeinfo>
#include <variant>
#include <array>
#include <ucontext.h>
#include <boost/filesystem.hpp>
#include <boost/program_options.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/map.hpp>
#include <boost/serialization/set.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include <yaml-cpp/yaml.h>
#include <flint/flint.h>
#include <flint/fmpz.h>
#include <flint/ulong_extras.h>
#include <flint/nmod_poly.h>
#include <flint/nmod_poly_factor.h>
#include <flint/fq_nmod.h>
#include <flint/fq_nmod_poly.h>
#include <flint/fq_nmod_poly_factor.h>

class Thread;
namespace Sim {
struct Task {
  int id, proc; ucontext_t ctx; char * stack = 0; std::function<void()> fn;
  enum { RUN, BLOCK, SLEEP, DONE } st = RUN;
  std::function<bool()> ready; const char * what = ""; int64_t wake = 0; bool spurious = false; void * user = 0;
};
inline std::vector<std::unique_ptr<Task>> tasks;
inline Task * cur = 0;
inline ucontext_t sched_ctx;
inline int64_t now_ms = 0;
inline uint64_t steps = 0, limit = 300000, switches = 0;
inline unsigned p_switch = 100;                 // per cent
inline uint64_t stop_at = 0;                    // abandon the run at this step (0: never)
inline bool jumpy = false;
inline unsigned concurrency = 2;
inline std::string broken;                      // what went wrong
inline std::function<void()> at_step;           // invariant, checked at every scheduling point
inline std::function<void(Task *, void *)> on_thread;
enum Result { FINISHED, STUCK, TOOLONG, STOPPED, BROKEN };
inline bool active() { return cur != 0; }
inline void die(const std::string & s) { if (broken.empty()) broken = s; }
inline void back() { Task * t = cur; swapcontext(&t->ctx, &sched_ctx); }
inline void point() { if (!cur) return; cur->st = Task::RUN; back(); }
inline void block(const char * what, std::function<bool()> ready, bool spurious = false) {
  cur->st = Task::BLOCK; cur->what = what; cur->ready = ready; cur->spurious = spurious; back(); cur->ready = nullptr;
}
inline void sleep_until_ms(int64_t t) { if (!cur) return; cur->st = Task::SLEEP; cur->what = "sleep"; cur->wake = t; back(); }
inline void trampoline() {
  Task * t = cur;
  try { t->fn(); } catch (const std::exception & e) { die(std::string("exception in a thread: ") + e.what()); } catch (...) { die("exception in a thread"); }
  t->fn = nullptr; t->st = Task::DONE;
  swapcontext(&t->ctx, &sched_ctx);
}
inline std::vector<char *> free_stacks;
constexpr size_t STACK = 1 << 19;
inline Task * spawn(std::function<void()> fn, int proc) {
  tasks.emplace_back(new Task); Task * t = tasks.back().get();
  t->id = tasks.size() - 1; t->proc = proc; t->fn = fn;
  if (free_stacks.empty()) t->stack = (char *)malloc(STACK); else { t->stack = free_stacks.back(); free_stacks.pop_back(); }
  getcontext(&t->ctx); t->ctx.uc_stack.ss_sp = t->stack; t->ctx.uc_stack.ss_size = STACK; t->ctx.uc_link = 0;
  makecontext(&t->ctx, trampoline, 0);
  return t;
}
// runs until all tasks have ended
inline Result run() {
  steps = 0; broken.clear(); Task * last = 0; H::beat = H::elapsed();
  for (;;) {
    if (at_step) at_step();
    if (!broken.empty()) return BROKEN;
    ++steps; if ((steps & 1023) == 0) H::beat = H::elapsed();
    if (steps > limit) return TOOLONG;
    if (stop_at && steps >= stop_at) return STOPPED;
    std::vector<Task *> en, sl, sp; bool live = false;
    for (auto & t : tasks) switch (t->st) {
      case Task::RUN: en.push_back(t.get()); live = true; break;
      case Task::BLOCK: live = true; if (t->ready()) en.push_back(t.get()); else if (t->spurious) sp.push_back(t.get()); break;
      case Task::SLEEP: live = true; sl.push_back(t.get()); break;
      case Task::DONE: break;
    }
    if (!live) return FINISHED;
    Task * n = 0;
    if (!sl.empty() && (en.empty() || H::below(12) == 0)) {
      n = sl[0]; for (auto t : sl) if (t->wake < n->wake) n = t;
      now_ms = std::max(now_ms, n->wake);
    } else if (en.empty()) return STUCK;
    else if (!sp.empty() && H::below(25) == 0) n = sp[H::below(sp.size())];
    else if (last && std::find(en.begin(), en.end(), last) != en.end() && H::below(100) >= p_switch) n = last;
    else n = en[H::below(en.size())];
    if (n != last) ++switches;
    last = n; n->st = Task::RUN; cur = n; swapcontext(&sched_ctx, &n->ctx); cur = 0;
  }
}
inline std::string blocked() { std::string s; for (auto & t : tasks) if (t->st != Task::DONE) s += " thread " + std::to_string(t->id) + (t->st == Task::BLOCK ? std::string(" waits for ") + t->what : t->st == Task::SLEEP ? " sleeps" : " runs") + ";"; return s; }
// forget everything (threads of a stopped run are abandoned)
inline void reset() { for (auto & t : tasks) if (t->st == Task::DONE) free_stacks.push_back(t->stack); else { t->fn = nullptr; t->ready = nullptr; } for (auto & t : tasks) t.release(); tasks.clear(); cur = 0; at_step = nullptr; stop_at = 0; }
inline int proc() { return cur ? cur->proc : 0; }
}

namespace std {
class VerifMutex {
  Sim::Task * owner = 0; bool held = false;
public:
  VerifMutex() {} VerifMutex(const VerifMutex &) = delete; VerifMutex & operator=(const VerifMutex &) = delete;
  void lock() { if (Sim::active()) { Sim::point(); while (held) Sim::block("a mutex", [this] { return !held; }); } held = true; owner = Sim::cur; }
  bool try_lock() { Sim::point(); if (held) return false; held = true; owner = Sim::cur; return true; }
  void unlock() { if (!held || owner != Sim::cur) Sim::die("a mutex is unlocked by a thread that does not hold it"); held = false; owner = 0; Sim::point(); }
  template<class D> bool try_lock_for(const D &) { return try_lock(); }
  template<class D> bool try_lock_until(const D &) { return try_lock(); }
  void lock_shared() { lock(); } void unlock_shared() { unlock(); } bool try_lock_shared() { return try_lock(); }
  bool verif_held() const { return held && owner == Sim::cur; }
  void verif_release() { held = false; owner = 0; }
};
class VerifRecursiveMutex {
  Sim::Task * owner = 0; unsigned n = 0;
public:
  void lock() { if (Sim::active()) { Sim::point(); while (n && owner != Sim::cur) Sim::block("a mutex", [this] { return !n; }); } ++n; owner = Sim::cur; }
  bool try_lock() { Sim::point(); if (n && owner != Sim::cur) return false; ++n; owner = Sim::cur; return true; }
  void unlock() { if (!n || owner != Sim::cur) Sim::die("a mutex is unlocked by a thread that does not hold it"); if (!--n) owner = 0; Sim::point(); }
};
namespace chrono {
struct VerifClock {
  typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef std::chrono::time_point<VerifClock> time_point;
  static constexpr bool is_steady = true;
  static time_point now() { if (Sim::active() && Sim::jumpy && H::below(12) == 0) Sim::now_ms += H::below(9) * 60000; return time_point(std::chrono::milliseconds(1000000000 + Sim::now_ms)); }
  static time_t to_time_t(time_point t) { return std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count(); }
};
}
class VerifCV {
  struct W { bool notified = false; };
  std::vector<std::shared_ptr<W>> waiters;
  template<class L> bool wait_ms(L & l, int64_t until) {
    if (!Sim::active()) { Sim::die("wait outside a thread"); return false; }
    Sim::point();                                      // between testing the condition and going to sleep
    auto w = std::make_shared<W>(); waiters.push_back(w);
    auto * m = l.mutex(); if (!l.owns_lock() || !m->verif_held()) Sim::die("wait without holding the mutex");
    m->verif_release();
    if (until >= 0 && H::below(3) == 0) { Sim::sleep_until_ms(until); }
    else Sim::block("a condition variable", [w] { return w->notified; }, true);
    for (size_t i = 0; i < waiters.size(); ++i) if (waiters[i] == w) { waiters.erase(waiters.begin() + i); break; }
    m->lock();
    return w->notified;
  }
public:
  VerifCV() {} VerifCV(const VerifCV &) = delete;
  void notify_one() { Sim::point(); std::vector<W *> v; for (auto & w : waiters) if (!w->notified) v.push_back(w.get()); if (!v.empty()) v[H::below(v.size())]->notified = true; Sim::point(); }
  void notify_all() { Sim::point(); for (auto & w : waiters) w->notified = true; Sim::point(); }
  template<class L> void wait(L & l) { wait_ms(l, -1); }
  template<class L, class P> void wait(L & l, P p) { while (!p()) wait_ms(l, -1); }
  template<class L, class D> std::cv_status wait_for(L & l, const D & d) { return wait_ms(l, Sim::now_ms + std::chrono::duration_cast<std::chrono::milliseconds>(d).count()) ? std::cv_status::no_timeout : std::cv_status::timeout; }
  template<class L, class D, class P> bool wait_for(L & l, const D & d, P p) { int64_t e = Sim::now_ms + std::chrono::duration_cast<std::chrono::milliseconds>(d).count(); while (!p()) if (Sim::now_ms >= e) return p(); else wait_ms(l, e); return true; }
  template<class L, class T> std::cv_status wait_until(L & l, const T & t) { return wait_for(l, t - T::clock::now()); }
  template<class L, class T, class P> bool wait_until(L & l, const T & t, P p) { return wait_for(l, t - T::clock::now(), p); }
};
class VerifThread {
  Sim::Task * t = 0;
public:
  struct id { int v = -1; bool operator==(const id & o) const { return v == o.v; } bool operator!=(const id & o) const { return v != o.v; } bool operator<(const id & o) const { return v < o.v; } friend std::ostream & operator<<(std::ostream & s, const id & i) { return s << i.v; } };
  VerifThread() noexcept {}
  template<class F, class... A, class = std::enable_if_t<!std::is_same_v<std::decay_t<F>, VerifThread>>> explicit VerifThread(F && f, A &&... a) {
    auto tup = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
    t = Sim::spawn([tup]() mutable { auto c = std::move(tup); std::apply([](auto &... x) { return std::invoke(std::move(x)...); }, *c); }, Sim::proc());
    if (Sim::on_thread) std::apply([&](auto &, auto &... x) { (Sim::on_thread(t, VerifThread::ptr(x)), ...); }, *tup);
    Sim::point();
  }
  static void * ptr(const std::shared_ptr<::Thread> & p) { return (void *)p.get(); }
  static void * ptr(::Thread * p) { return (void *)p; }
  template<class X> static void * ptr(const X &) { return 0; }
  VerifThread(VerifThread && o) noexcept : t(o.t) { o.t = 0; }
  VerifThread & operator=(VerifThread && o) noexcept { if (t) Sim::die("a running thread is overwritten"); t = o.t; o.t = 0; return *this; }
  VerifThread(const VerifThread &) = delete;
  ~VerifThread() { if (t) Sim::die("a running thread is destroyed without being joined"); }
  bool joinable() const { return t; }
  void join() { if (!t) { Sim::die("join without a thread"); return; } Sim::point(); auto x = t; if (Sim::active()) { if (x == Sim::cur) Sim::die("a thread joins itself"); while (x->st != Sim::Task::DONE) Sim::block("a thread to end", [x] { return x->st == Sim::Task::DONE; }); } t = 0; }
  void detach() { t = 0; }
  id get_id() const { return id{t ? t->id : -1}; }
  static unsigned hardware_concurrency() { return Sim::concurrency; }
  void swap(VerifThread & o) { std::swap(t, o.t); }
};
namespace VerifThisThread {
inline VerifThread::id get_id() { return VerifThread::id{Sim::cur ? Sim::cur->id : -1}; }
inline void yield() { Sim::point(); }
template<class D> void sleep_for(const D & d) { Sim::sleep_until_ms(Sim::now_ms + std::chrono::duration_cast<std::chrono::milliseconds>(d).count()); }
template<class T> void sleep_until(const T & t) { sleep_for(t - T::clock::now()); }
}
}
#define mutex VerifMutex
#define timed_mutex VerifMutex
#define shared_mutex VerifMutex
#define recursive_mutex VerifRecursiveMutex
#define condition_variable VerifCV
#define condition_variable_any VerifCV
#define thread VerifThread
#define this_thread VerifThisThread
#define system_clock VerifClock
#define steady_clock VerifClock
#define high_resolution_clock VerifClock
#include "store/store_factory.hh"
const std::shared_ptr<StoreFactoryInterface> verif_store_factory(StoreType);
#define create_store_factory verif_store_factory
#endif
