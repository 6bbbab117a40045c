#include "phaseiface.h"
#include <dlfcn.h>
#include <sstream>
#include <new>
extern "C" phase_fn __start_phase_main[] __attribute__((weak));
extern "C" phase_fn __stop_phase_main[] __attribute__((weak));
// A string that has been destroyed has no value any more: whoever still reads it is to notice, and not to find what happens
// to be left of it. The destructors of strings with static or thread storage duration are registered under this name.
extern "C" void _ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEED1Ev(char** s)
{
  if (*s != reinterpret_cast<char*>(s + 2)) ::operator delete(*s);
  for (int i = 0; i < 4; ++i) s[i] = reinterpret_cast<char*>(0xdbdbdbdbdbdbdbdbul);
  __asm__ volatile("" : : "r"(s) : "memory");
}
static void* in_thread(void*)
{
  for (phase_fn* f = __start_phase_main; f < __stop_phase_main; ++f) (*f)("thread");
  return 0;
}
static void all(const char* p) { for (phase_fn* f = __start_phase_main; f < __stop_phase_main; ++f) (*f)(p); }
static void quick() { all("quick-exit"); }
int main(int, char** argv)
{
  all("main");
  pthread_t t;
  if (pthread_create(&t, 0, in_thread, 0)) return 3;
  pthread_join(t, 0);
  // the loader is locked while it runs the constructors of a library: no threads there
  setenv("VERIF_PHASE_DL", "1", 1);
  std::istringstream libs(argv[1]);
  std::string l;
  while (std::getline(libs, l, ':'))
    if (!l.empty())
    {
      void* h = dlopen(l.c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!h) { std::fprintf(stderr, "%s\n", dlerror()); _exit(98); }
      if (l.find("/close.") != std::string::npos) dlclose(h);
    }
  std::string how = argv[2];
  if (how == "quick") { std::at_quick_exit(quick); std::quick_exit(0); }
  return 0;
}
