// plan <plan>: writes the bytes of a plan (see common.c)
#include "hrk.h"
#include <stdio.h>
int main(int argc, char **argv)
{
  size_t n;
  uint8_t *p = plan_build(argc > 1 ? argv[1] : "", &n);
  return fwrite(p, 1, n, stdout) == n ? 0 : 1;
}
