// Runtime contract checks on the real code: every violated clause is printed
// as 'FAIL <key> <detail>' with the concrete input.
#ifndef DV_H
#define DV_H
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <random>
#include <string>
namespace dv
{
  inline std::map<std::string, int> &fails() { static std::map<std::string, int> m; return m; }
  inline std::map<std::string, long> &stats() { static std::map<std::string, long> m; return m; }
  inline unsigned seed() { const char *s = getenv("VERIF_SEED"); return s ? (unsigned)atol(s) : 1u; }
  inline std::mt19937_64 &rng() { static std::mt19937_64 g(seed() * 7919u + 13u); return g; }
  inline double uni(double a, double b) { return std::uniform_real_distribution<double>(a, b)(rng()); }
  inline int    irand(int a, int b) { return std::uniform_int_distribution<int>(a, b)(rng()); }
  inline void fail(const std::string &key, const char *fmt, ...)
  {
    if (fails()[key]++ >= 3)
      return;
    char    buf[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    for (char *p = buf; *p; ++p)
      if (*p == '\n')
        *p = ' ';
    printf("\nFAIL %s %s\n", key.c_str(), buf);
    fflush(stdout);
  }
  inline void stat(const std::string &k, long n = 1) { stats()[k] += n; }
  inline int  done()
  {
    printf("\n");
    for (auto &s : stats())
      printf("STAT %s %ld\n", s.first.c_str(), s.second);
    printf("DONE\n");
    fflush(stdout);
    return 0;
  }
  // MPI runs: printed once the processes are up
  inline void started() { printf("\nSTART\n"); fflush(stdout); }
  inline bool thorough(int argc, char **argv) { return argc > 1 && std::string(argv[argc - 1]) == "thorough"; }
  inline bool close(double a, double b, double scale, double tol = 1e-9)
  {
    return std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= tol * (std::fabs(scale) + 1e-300);
  }
} // namespace dv
#endif
