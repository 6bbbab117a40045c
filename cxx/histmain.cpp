// Asks every query of every linked translation unit, in an order that follows from the seed, twice.
#include "histiface.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <vector>
extern "C" hist_row __start_hist_rows[] __attribute__((weak));
extern "C" hist_row __stop_hist_rows[] __attribute__((weak));
int main(int, char** argv)
{
  uint64_t s = strtoull(argv[1], 0, 10);
  std::vector<hist_row*> rows;
  for (int k = 0; k < 2; ++k)
    for (hist_row* r = __start_hist_rows; r < __stop_hist_rows; ++r) if (r->get) rows.push_back(r);
  for (size_t i = rows.size(); i > 1; --i)
  {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    std::swap(rows[i - 1], rows[(s >> 33) % i]);
  }
  for (hist_row* r : rows)
  {
    std::string o = r->get();
    printf("%s ", r->name);
    for (unsigned char c : o) if (c < 33 || c > 126 || c == '%') printf("%%%02x", c); else putchar(c);
    putchar('\n');
  }
  return 0;
}
