#ifndef VERIF_PHASEIFACE_H
#define VERIF_PHASEIFACE_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <string>
#include <unistd.h>
struct phase_value
{
  const char* name;
  std::string (*get)();
  const char* expect;
  std::size_t expect_len;
};
typedef void (*phase_fn)(const char*);

// Everything here is constant-initialised, so that it works in every phase itself.
static void phase_line(const char* kind, const char* unit, const char* phase, const char* name, const std::string& got)
{
  std::string s = std::string(kind) + " " + unit + " " + phase + " " + name + " ";
  for (std::size_t i = 0; i < got.size(); ++i)
  {
    unsigned char c = (unsigned char)got[i];
    char b[8];
    if (c < 33 || c > 126 || c == '%') { std::sprintf(b, "%%%02x", c); s += b; } else s += (char)c;
  }
  s += "\n";
  if (write(1, s.data(), s.size()) < 0) _exit(99);
}
static void phase_check(const char* unit, const char* phase, const phase_value* v, int n)
{
  for (int i = 0; i < n; ++i)
  {
    std::string got = v[i].get();
    if (got.size() != v[i].expect_len || std::memcmp(got.data(), v[i].expect, v[i].expect_len) != 0) phase_line("F", unit, phase, v[i].name, got);
  }
  char b[32];
  std::sprintf(b, "%d", n);
  phase_line("P", unit, phase, b, "");
  const char* e = std::getenv("VERIF_PHASE_EXIT");
  if (e && std::string(e) == std::string(unit) + "." + phase) std::exit(7);
}
#endif
