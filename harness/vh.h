// Support for the executable oracles: random choices, case bookkeeping, crash reporting.
#pragma once
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <sstream>
#include <set>
#include <string>
#include <fcntl.h>
#include <unistd.h>
#include <vector>
namespace vh {
inline uint64_t rng_state = 88172645463325252ull;
inline uint64_t rnd() { rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17; return rng_state * 2685821657736338717ull >> 11; }
inline int ri(int lo, int hi) { return lo + int(rnd() % uint64_t(hi - lo + 1)); }
inline double rd(double lo, double hi) { return lo + (hi - lo) * (double(rnd() % 1000003) / 1000003.0); }
inline bool chance(int pct) { return ri(1, 100) <= pct; }
inline long cases = 0, nontrivial = 0;
inline std::set<uint64_t> seen;
inline std::string current;
inline std::vector<std::string> samples;
inline time_t t_end = 0;
inline uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
inline void begin(const std::string& desc, bool interesting = true) {
  current = desc; cases++;
  if (interesting && seen.insert(hash(desc)).second) { nontrivial++; if (samples.size() < 5 && (nontrivial == 1 || nontrivial % 37 == 0)) samples.push_back(desc.substr(0, 400)); }
  alarm(20);
}
inline int out_fd = 1;   // the code under test may print on stdout; the report goes here
inline void put(const std::string& s) { size_t o = 0; while (o < s.size()) { ssize_t n = write(out_fd, s.data() + o, s.size() - o); if (n <= 0) break; o += n; } }
inline void (*on_exit_hook)() = nullptr; inline pid_t main_pid = 0;
[[noreturn]] inline void fail(const std::string& what) {
  put("@FAIL " + what + "\ninput: " + current + "\n"); if (on_exit_hook && getpid() == main_pid) on_exit_hook(); _exit(1);
}
inline void expect(bool ok, const std::string& what) { if (!ok) fail(what); }
inline void on_signal(int s) {
  put(std::string("@FAIL the program ") + (s == SIGALRM ? "does not finish" : "crashes (signal " + std::to_string(s) + ")") + "\ninput: " + current + "\n"); if (on_exit_hook && getpid() == main_pid) on_exit_hook(); _exit(1);
}
inline void init(int argc, char** argv) {
  // argv: mode seed seconds
  uint64_t seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1;
  rng_state = seed * 0x9E3779B97F4A7C15ull + 0x1234567ull; for (int i = 0; i < 8; i++) rnd();
  t_end = time(0) + (argc > 3 ? atoi(argv[3]) : 3);
  main_pid = getpid(); out_fd = dup(1); for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGALRM, SIGBUS, SIGILL}) signal(s, on_signal);
  int nul = open("/dev/null", 1); dup2(nul, 1); dup2(nul, 2);
}
inline bool more(long min_cases, long max_cases) { return cases < max_cases && (cases < min_cases || time(0) < t_end); }
inline int done() {
  std::string s = "@DONE " + std::to_string(cases) + " " + std::to_string(nontrivial) + "\n";
  for (auto& x : samples) { std::string y = x; for (auto& c : y) if (c == '\n') c = '|'; s += "@SAMPLE " + y + "\n"; }
  put(s); _exit(0);
}
template <class... T> std::string str(const T&... t) { std::ostringstream o; o.precision(17); (void)std::initializer_list<int>{(o << t, 0)...}; return o.str(); }
}  // namespace vh
