// C04: a size close to 2^64 wraps around and is accepted.
#include <a0/arena.h>
#include <a0/transport.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
int main() {
  a0_arena_t arena = {{calloc(1, 4096), 4096}, A0_ARENA_MODE_SHARED};
  a0_transport_t a;
  a0_transport_init(&a, arena);
  a0_transport_locked_t la;
  a0_transport_lock(&a, &la);
  a0_transport_frame_t* f;
  int e1 = a0_transport_alloc(la, SIZE_MAX - 50, &f);
  int e2 = a0_transport_alloc(la, SIZE_MAX - 200, &f);
  bool out;
  int e3 = a0_transport_alloc_evicts(la, SIZE_MAX - 50, &out);
  printf("%d %d %d\n", e1, e2, e3);
  return !(e1 && e2 && e3);
}
