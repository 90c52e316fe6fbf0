// On a machine that has been suspended, a deadline in the past makes a condition wait return without the mutex.
#include <a0/empty.h>
#include <a0/err.h>
#include <a0/mtx.h>
#include <a0/time.h>

#include <errno.h>
#include <stdio.h>
#include <syscall.h>
#include <time.h>
#include <unistd.h>

// The clock that counts time asleep is a week ahead of the one that does not.
int clock_gettime(clockid_t clk, struct timespec* ts) {
  int r = syscall(SYS_clock_gettime, clk, ts);
  if (clk == CLOCK_BOOTTIME) {
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, ts);
    ts->tv_sec += 7 * 24 * 3600;
  }
  return r;
}

int main() {
  a0_mtx_t mtx = A0_EMPTY;
  a0_cnd_t cnd = A0_EMPTY;
  a0_time_mono_t t;
  a0_time_mono_now(&t);
  t.ts.tv_sec = 3600;
  a0_mtx_lock(&mtx);
  a0_err_t err = a0_cnd_timedwait(&cnd, &mtx, &t);
  int code = a0_err_syscode;
  int owned = !a0_mtx_unlock(&mtx);
  printf("err %d code %d, owns the mutex on return: %d\n", err, code, owned);
  return !(owned && code == ETIMEDOUT);
}
