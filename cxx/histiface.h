#ifndef VERIF_HISTIFACE_H
#define VERIF_HISTIFACE_H
#include <string>
struct hist_row
{
  const char* name;
  std::string (*get)();
};
#endif
