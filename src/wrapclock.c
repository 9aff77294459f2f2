
#include <time.h>
long gkv_clock_step = 0, gkv_clock_now = 0, gkv_clock_reads = 0;
void (*gkv_clock_hook)(long nr) = 0;
extern clock_t __real_clock(void);
clock_t __wrap_clock(void) {
  gkv_clock_reads++;
  if (gkv_clock_hook) gkv_clock_hook(gkv_clock_reads);
  if (!gkv_clock_step) return __real_clock();
  gkv_clock_now += gkv_clock_step;
  return (clock_t)gkv_clock_now;
}
