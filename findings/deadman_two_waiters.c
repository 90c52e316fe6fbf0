// C10: the death of a deadman's holder must be noticed by every thread waiting for the release.
#include <a0/deadman_mtx.h>
#include <pthread.h>
#include <stdio.h>
#include <unistd.h>
static a0_deadman_mtx_shared_token_t tok;
static int back;
static void* waiter(void* u) {
  a0_deadman_mtx_t d;
  a0_deadman_mtx_init(&d, &tok);
  a0_deadman_mtx_wait_unlocked(&d, *(uint64_t*)u);
  __atomic_add_fetch(&back, 1, __ATOMIC_SEQ_CST);
  return NULL;
}
static void* holder(void* u) {
  a0_deadman_mtx_t d;
  a0_deadman_mtx_init(&d, &tok);
  a0_deadman_mtx_lock(&d);
  usleep(300000);
  return NULL;  // dies holding the switch
}
int main() {
  pthread_t h, w[3];
  pthread_create(&h, NULL, holder, NULL);
  a0_deadman_mtx_t d;
  a0_deadman_mtx_init(&d, &tok);
  uint64_t tkn;
  a0_deadman_mtx_wait_locked(&d, &tkn);
  for (int i = 0; i < 3; i++) pthread_create(&w[i], NULL, waiter, &tkn);
  pthread_join(h, NULL);
  usleep(500000);
  printf("%d of 3 waiters noticed\n", back);
  return back != 3;
}
