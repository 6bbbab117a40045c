#ifndef VERIF_DBGIFACE_H
#define VERIF_DBGIFACE_H
#include <cstddef>
struct dbg_scenario
{
  const char* name;
  void (*run)(int form);  // creates the object; calls dbg_after() behind it
  const char* expect;
  std::size_t expect_len;
};
extern "C" void dbg_after();
extern "C" const dbg_scenario dbg_scenarios[];
extern "C" const int dbg_scenario_count;
#endif
