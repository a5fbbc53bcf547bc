// One-off: dumps the Bidi class and combining-mark tables that the library
// carried at the pinned commit, to record where they lag behind Unicode 17.
#include <cstdint>
#include <cstdio>
#include "../src/idna.cpp"
using namespace ada::idna;
int main() {
  if (!ensure_tables()) return 1;
  for (uint32_t c = 0; c <= 0x10ffff; c++) {
    if (c >= 0xd800 && c < 0xe000) continue;
    int m = 0;
    for (size_t i = 0; i < combining_range_count; i++)
      if (c >= combining_ranges[i][0] && c <= combining_ranges[i][1]) m = 1;
    printf("%x %d %d\n", c, (int)find_direction(c), m);
  }
}
