// Driver skeleton: replays behaviours generated from a TLA+ specification against the real library.
#pragma once
#include "vjson.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include <cmath>
#include <cstring>
#include <sys/time.h>
#include <sched.h>
struct Mismatch : std::runtime_error { explicit Mismatch(const std::string& m) : std::runtime_error(m) {} };
static long long g_cmp = 0;
static std::string g_ctx;
template <class A, class B> void expectEq(const A& got, const B& want, const std::string& what) {
  ++g_cmp;
  if (!(got == want)) { std::ostringstream s; s << g_ctx << " " << what << ": got " << got << ", specification says " << want; throw Mismatch(s.str()); }
}
inline void expectTrue(bool c, const std::string& what) {
  ++g_cmp;
  if (!c) throw Mismatch(g_ctx + " " + what);
}
template <class F> int replayMain(int argc, char** argv, F run) {
  if (argc < 2) { printf("@ERROR usage\n"); return 3; }
  std::ifstream in(argv[1]);
  if (const char* p = getenv("VERIF_PART")) { long n = sysconf(_SC_NPROCESSORS_ONLN); cpu_set_t s; CPU_ZERO(&s); CPU_SET(atoi(p) % (n > 0 ? n : 1), &s); sched_setaffinity(0, sizeof s, &s); }
  std::string line; int i = 0;
  while (std::getline(in, line)) {
    if (line.empty()) continue;
    printf("@B %d\n", i); fflush(stdout);
    // a behaviour takes well under a second: 60 s of CPU or 240 s of waiting means it does not terminate
    itimerval tv = {{0, 0}, {60, 0}}; setitimer(ITIMER_PROF, &tv, 0); alarm(240);
    try {
      J beh = JP(line.c_str()).val();
      g_ctx.clear();
      run(beh);
    } catch (Mismatch& m) {
      std::string s = m.what(); for (auto& c : s) if (c == '\n') c = ' ';
      printf("@MISMATCH %d %s\n", i, s.c_str()); fflush(stdout);
    } catch (std::logic_error& e) {
      if (!strncmp(e.what(), "@ERROR", 6)) { printf("%s\n", e.what()); return 3; }
      printf("@MISMATCH %d %s unexpected exception: %s\n", i, g_ctx.c_str(), e.what());
    } catch (std::exception& e) {
      printf("@MISMATCH %d %s unexpected exception: %s\n", i, g_ctx.c_str(), e.what());
    } catch (...) {
      printf("@MISMATCH %d %s unexpected exception\n", i, g_ctx.c_str());
    }
    ++i;
  }
  printf("@CMP %lld\n@DONE %d\n", g_cmp, i);
  fflush(stdout);
  return 0;
}
