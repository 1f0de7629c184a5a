// Replay and contract-execution harness: the postconditions of the contracts, executed on the real code of /repo.
#ifndef VERIF_HARNESS
#define VERIF_HARNESS
#include <algorithm>
#include <atomic>
#include <chrono>
#include <climits>
#include <cmath>
#include <condition_variable>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <future>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>

namespace H {
inline uint64_t seed = 1, state = 1;
inline double budget = 20;
inline bool thorough = false;
inline std::vector<uint64_t> lits;             // integer literals of the code under test, with neighbours
inline std::string only;                       // run only this section
inline char cur[1 << 16] = "start";
inline uint64_t evals = 0, nontriv = 0;
inline std::set<size_t> distinct;
inline std::map<std::string, uint64_t> sect;
inline std::vector<std::string> samples;
inline int fails = 0;
inline std::chrono::steady_clock::time_point t0;
inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
inline double hang = 40;                        // seconds without progress that count as not terminating
inline std::atomic<double> beat{0};

inline uint64_t rnd() { uint64_t z = (state += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
inline uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
inline int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
template<class T> const T & pick(const std::vector<T> & v) { return v[below(v.size())]; }
inline uint64_t lit() { return lits.empty() ? below(64) : pick(lits); }

inline void stats() {
  printf("STAT evaluations %llu\nSTAT distinct %zu\n", (unsigned long long)evals, distinct.size());
  for (auto & s : sect) printf("STAT section:%s %llu\n", s.first.c_str(), (unsigned long long)s.second);
  for (auto & s : samples) printf("SAMPLE %s\n", s.c_str());
  fflush(stdout);
}
// announce the case that is about to run
inline void input(const char * f, ...) __attribute__((format(printf, 1, 2)));
inline void input(const char * f, ...) {
  va_list a; va_start(a, f); vsnprintf(cur, sizeof cur, f, a); va_end(a);
  for (char * c = cur; *c; ++c) if ((unsigned char)*c < 32 || (unsigned char)*c > 126) *c = *c == '\n' ? '|' : '?';
  ++evals; beat = elapsed();
  size_t h = std::hash<std::string>()(cur); distinct.insert(h);
  std::string s(cur); auto p = s.find(':'); ++sect[s.substr(0, p == std::string::npos ? 24 : p)];
  if (samples.size() < 3 || (samples.size() < 12 && sect[s.substr(0, p == std::string::npos ? 24 : p)] == 1)) samples.push_back(s.substr(0, 300));
}
inline void input(const std::string & s) { input("%s", s.c_str()); }
inline void out(const char * kind, const std::string & msg) {
  printf("%s input{%s} %s\n", kind, cur, msg.c_str()); fflush(stdout);
}
inline void fail(const std::string & msg) { out("FAIL", msg); if (++fails >= 3) { stats(); fflush(stdout); _exit(1); } }
inline void crash(int sig) {
  static char b[1 << 17];
  int n = snprintf(b, sizeof b, "\nFAIL input{%s} killed by signal %d\n", cur, sig);
  if (n > 0) { ssize_t r = write(1, b, std::min((size_t)n, sizeof b - 1)); (void)r; }
  _exit(1);
}
inline void terminated() {
  std::string w = "terminate";
  if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception & x) { w = std::string("exception ") + x.what(); } catch (...) { w = "unknown exception"; } }
  out("FAIL", w); _exit(1);
}
inline bool more(double frac = 1.0) { return elapsed() < budget * frac; }
inline void init(int argc, char ** argv) {
  t0 = std::chrono::steady_clock::now();
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = strtoull(v().c_str(), 0, 10);
    else if (a == "--budget") budget = atof(v().c_str());
    else if (a == "--thorough") thorough = true;
    else if (a == "--only") only = v();
    else if (a == "--lits") { std::stringstream s(v()); std::string x; while (std::getline(s, x, ',')) if (!x.empty()) { uint64_t n = strtoull(x.c_str(), 0, 10); lits.push_back(n); lits.push_back(n + 1); if (n) lits.push_back(n - 1); } }
  }
  state = seed * 0x2545f4914f6cdd1dull + 77;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, crash);
  std::set_terminate(terminated);
  setvbuf(stdout, 0, _IOLBF, 1 << 16);
  beat = elapsed();
  std::thread([] { for (;;) { std::this_thread::sleep_for(std::chrono::milliseconds(500)); if (elapsed() - beat > hang) { printf("FAIL input{%s} does not finish within %.0f s\n", cur, hang); fflush(stdout); _exit(1); } } }).detach();
}
inline bool want(const char * s) { return only.empty() || only == s; }
inline int finish() { stats(); printf("DONE %d\n", fails); fflush(stdout); _exit(fails ? 1 : 0); }

template<class A> std::string str(const A & a) { std::ostringstream s; s << a; return s.str(); }
inline std::string str(const std::string & a) { return a; }
template<class A, class B> std::string str(const std::pair<A, B> & a);
template<class... A> std::string str(const std::tuple<A...> & a);
template<class A> std::string str(const std::vector<A> & a) { std::string s = "["; for (size_t i = 0; i < a.size(); ++i) s += (i ? "," : "") + str(a[i]); return s + "]"; }
template<class A> std::string str(const std::set<A> & a) { std::string s = "{"; bool f = true; for (auto & x : a) { s += (f ? "" : ",") + str(x); f = false; } return s + "}"; }
template<class K, class V> std::string str(const std::map<K, V> & a) { std::string s = "{"; bool f = true; for (auto & x : a) { s += (f ? "" : ",") + str(x.first) + "=" + str(x.second); f = false; } return s + "}"; }
template<class A, class B> std::string str(const std::pair<A, B> & a) { return "(" + str(a.first) + "," + str(a.second) + ")"; }
template<class... A> std::string str(const std::tuple<A...> & a) { std::string s = "("; bool f = true; std::apply([&](auto &... x) { ((s += (f ? "" : ",") + str(x), f = false), ...); }, a); return s + ")"; }
// a scratch directory below the system's temporary directory, removed at the end
struct Scratch {
  std::string path;
  Scratch() { char t[] = "/tmp/hycu-verif-XXXXXX"; path = mkdtemp(t); }
  ~Scratch() { if (path.rfind("/tmp/hycu-verif-", 0) == 0) { std::string c = "rm -rf '" + path + "'"; if (system(c.c_str())) {} } }
};
}
#endif
