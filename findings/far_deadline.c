// A deadline far in the future is treated as one that has passed.
#include <a0/deadman_mtx.h>
#include <a0/empty.h>
#include <a0/event.h>
#include <a0/mtx.h>
#include <a0/time.h>
#include <a0/transport.h>

#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

static void* set_later(void* e) {
  usleep(50000);
  a0_event_set((a0_event_t*)e);
  return NULL;
}

static char data[4096];
static a0_transport_t transport;

static void* append_later(void* unused) {
  (void)unused;
  usleep(50000);
  a0_transport_locked_t lk;
  if (a0_transport_lock(&transport, &lk)) {
    exit(3);
  }
  a0_transport_frame_t frame;
  if (a0_transport_alloc(lk, 8, &frame) || a0_transport_commit(lk) || a0_transport_unlock(lk)) {
    exit(3);
  }
  return NULL;
}

int main() {
  int bad = 0;
  int64_t secs[] = {INT64_MAX, INT64_MAX / 1000000000 + 1, 18446744074};
  for (int i = 0; i < 3; i++) {
    a0_time_mono_t far = A0_EMPTY;
    far.ts.tv_sec = secs[i];

    a0_event_t e = A0_EMPTY;
    pthread_t thr;
    pthread_create(&thr, NULL, set_later, &e);
    a0_err_t err = a0_event_timedwait(&e, &far);
    pthread_join(thr, NULL);
    printf("event, deadline %ld s: %s\n", (long)secs[i], err ? "gave up" : "ok");
    bad |= !!err;

    a0_arena_t arena = {{(uint8_t*)data, sizeof(data)}, A0_ARENA_MODE_SHARED};
    for (unsigned k = 0; k < sizeof(data); k++) {
      data[k] = 0;
    }
    a0_transport_locked_t lk;
    if (a0_transport_init(&transport, arena) || a0_transport_lock(&transport, &lk)) {
      return 3;
    }
    pthread_create(&thr, NULL, append_later, NULL);
    err = a0_transport_timedwait(lk, a0_transport_nonempty_pred(&lk), &far);
    a0_transport_unlock(lk);
    pthread_join(thr, NULL);
    printf("transport, deadline %ld s: %s\n", (long)secs[i], err ? "gave up" : "ok");
    bad |= !!err;
  }
  return bad;
}
