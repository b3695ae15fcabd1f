// Shared by the harness binaries: forked execution of behaviours, JSON text building.
#ifndef HARNESS_COMMON_H
#define HARNESS_COMMON_H
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
extern "C" int usleep(useconds_t) { return 0; }  // Init() sleeps "for thread sync"; nothing to wait for here.

namespace hc {
typedef std::vector<std::string> Words;
inline double num(const std::string& s) {
  if (s == "nan") return NAN;
  if (s == "inf") return INFINITY;
  return strtod(s.c_str(), 0);
}
inline long inum(const std::string& s) { return strtol(s.c_str(), 0, 10); }
struct J {  // tiny JSON object builder
  std::string s;
  bool first = true;
  J& raw(const std::string& k, const std::string& v) {
    s += (first ? "" : ",");
    s += "\"" + k + "\":" + v;
    first = false;
    return *this;
  }
  J& n(const std::string& k, long long v) { return raw(k, std::to_string(v)); }
  J& str(const std::string& k, const std::string& v) { return raw(k, "\"" + v + "\""); }
  std::string done() const { return "{" + s + "}"; }
};
inline std::string arr(const std::vector<std::string>& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + v[i];
  return s + "]";
}
// Bounded rounding so that every logged number is a 32-bit integer.
inline long long rnd(double x, double scale) {
  double y = x * scale;
  if (!(y == y)) return 2000000001LL;
  if (y > 2e9) return 2000000002LL;
  if (y < -2e9) return -2000000002LL;
  return llround(y);
}
// Input: behaviours separated by lines "B ..." and "E". Each runs in a forked child (the code under
// test keeps function-local statics). Output: one JSON line per behaviour.
typedef std::function<std::string(const Words& head, const std::vector<Words>& ops)> RunFn;
inline int drive(int argc, char** argv, RunFn fn) {
  if (argc < 3) { fprintf(stderr, "usage: %s in out\n", argv[0]); return 2; }
  std::ifstream in(argv[1]);
  int out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  if (!in || out < 0) { perror("open"); return 2; }
  int nul = open("/dev/null", O_WRONLY);
  dup2(nul, 1);
  if (!getenv("HARNESS_STDERR")) dup2(nul, 2);
  std::string line;
  Words head;
  std::vector<Words> ops;
  int timeout = getenv("HARNESS_TIMEOUT") ? atoi(getenv("HARNESS_TIMEOUT")) : 30;
  while (std::getline(in, line)) {
    std::istringstream ss(line);
    Words w;
    std::string x;
    while (ss >> x) w.push_back(x);
    if (w.empty()) continue;
    if (w[0] == "B") { head = w; ops.clear(); continue; }
    if (w[0] != "E") { ops.push_back(w); continue; }
    pid_t pid = fork();
    if (pid < 0) return 2;
    if (pid == 0) {
      alarm(timeout);
      std::string r = fn(head, ops) + "\n";
      const char* p = r.c_str();
      size_t n = r.size();
      while (n) {
        ssize_t k = write(out, p, n);
        if (k <= 0) _exit(9);
        p += k;
        n -= k;
      }
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
      std::string r = "{\"id\":" + head[1] + ",\"crash\":" +
          std::to_string(WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)) + ",\"ops\":[]}\n";
      if (write(out, r.c_str(), r.size()) < 0) return 2;
    }
  }
  return 0;
}
}  // namespace hc
#endif
