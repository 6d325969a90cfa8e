/* Preloaded into a simulator: time goes fast (three calls a second, from
   FAST_T0 on), waiting costs nothing; FAST_DIE: ends at that call of time(). */
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
static long calls, ticks;
time_t time(time_t *t) {
   static time_t t0;
   if (!t0) t0 = getenv("FAST_T0") ? atol(getenv("FAST_T0")) : 1700000000;
   time_t v = t0 + calls++ / 3;
   if (getenv("FAST_DIE") && calls == atol(getenv("FAST_DIE"))) _exit(86);
   if (t) *t = v;
   return v;
}
clock_t clock(void) { return ticks += CLOCKS_PER_SEC / 10; }
unsigned sleep(unsigned s) { return 0; }
int usleep(useconds_t s) { return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { return 0; }
