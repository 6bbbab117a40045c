// Interface between the simulator core and the code under test (plain enough for C++98).
#ifndef VERIF_SIMIFACE_H
#define VERIF_SIMIFACE_H
#include <cstddef>
#include <string>
struct sim_text
{
  const char* name;      // what is asked for
  std::string (*get)();  // asks the library for the text
  const char* expect;    // the reference text
  std::size_t expect_len;
};
extern "C" const sim_text sim_texts[];
extern "C" const int sim_text_count;
#endif
