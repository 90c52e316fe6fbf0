// C02: locking a transport again from the thread that holds it reports success although the mutex refused.
#include <a0/arena.h>
#include <a0/transport.h>
#include <stdio.h>
#include <stdlib.h>
int main() {
  a0_arena_t arena = {{calloc(1, 4096), 4096}, A0_ARENA_MODE_SHARED};
  a0_transport_t a, b;
  a0_transport_init(&a, arena);
  a0_transport_init(&b, arena);
  a0_transport_locked_t la, lb;
  if (a0_transport_lock(&a, &la)) return 2;
  a0_transport_frame_t* f;
  a0_transport_alloc(la, 8, &f);
  uint64_t before, after;
  a0_transport_seq_high(la, &before);
  int err = a0_transport_lock(&b, &lb);
  a0_transport_seq_high(la, &after);
  printf("second lock: %d, seq_high %lu -> %lu\n", err, before, after);
  return !(err && before == after);
}
