// link: -Wl,--wrap=a0_tid
// A thread that asks for the switch while it is free, sees it taken by another in the meantime, and
// announces itself just after that other has released it, must not sleep: nobody is left to wake it.
// The thread is stepped instruction by instruction to put the release at each point in turn.
#define _GNU_SOURCE
#include <a0/deadman_mtx.h>
#include <a0/err.h>
#include <a0/tid.h>
#include <a0/time.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <ucontext.h>

static a0_deadman_mtx_shared_token_t stkn;
static volatile int want, have;
static __thread int victim;
static volatile int armed, left;

static void* holder(void* unused) {
  (void)unused;
  a0_deadman_mtx_t d;
  a0_deadman_mtx_init(&d, &stkn);
  for (;;) {
    if (want == 1 && have == 0) {
      a0_deadman_mtx_trylock(&d);
      have = 1;
    } else if (want == 0 && have == 1) {
      a0_deadman_mtx_unlock(&d);
      have = 0;
    } else if (want == 2) {
      return NULL;
    }
  }
}

static void step(int sig, siginfo_t* info, void* uc) {
  (void)sig;
  (void)info;
  if (--left <= 0) {
    want = 0;
    while (have != 0) {
    }
    ((ucontext_t*)uc)->uc_mcontext.gregs[REG_EFL] &= ~0x100LL;
  }
}

uint32_t __real_a0_tid(void);
uint32_t __wrap_a0_tid(void) {
  uint32_t tid = __real_a0_tid();
  if (victim && armed) {
    armed = 0;
    want = 1;
    while (have != 1) {
    }
    __asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
  }
  return tid;
}

int main() {
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = step;
  sa.sa_flags = SA_SIGINFO;
  sigaction(SIGTRAP, &sa, NULL);
  pthread_t t;
  pthread_create(&t, NULL, holder, NULL);
  int lost = 0;
  for (int k = 1; k <= 120; k++) {
    memset(&stkn, 0, sizeof(stkn));
    a0_deadman_mtx_t d;
    a0_deadman_mtx_init(&d, &stkn);
    victim = 1;
    left = k;
    armed = 1;
    a0_time_mono_t end;
    a0_time_mono_now(&end);
    a0_time_mono_add(end, 200000000, &end);
    a0_err_t err = a0_deadman_mtx_timedlock(&d, &end);
    victim = 0;
    if (err) {
      printf("released at step %d: the switch is free and the locker slept to its deadline\n", k);
      lost++;
    } else {
      a0_deadman_mtx_unlock(&d);
    }
    want = 0;
    while (have) {
    }
  }
  want = 2;
  pthread_join(t, NULL);
  return lost != 0;
}
