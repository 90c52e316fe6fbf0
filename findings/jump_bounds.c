// C05: jumping into the arena header, or to an offset whose end wraps around, is accepted.
#include <a0/arena.h>
#include <a0/transport.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
int main() {
  // A mapping with a readable page before it, so that wrapping reads do not fault.
  uint8_t* p = mmap(0, 3 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  a0_arena_t arena = {{p + 4096, 4096}, A0_ARENA_MODE_SHARED};
  a0_transport_t a;
  a0_transport_init(&a, arena);
  a0_transport_locked_t la;
  a0_transport_lock(&a, &la);
  a0_transport_frame_t* f;
  a0_transport_alloc(la, 8, &f);
  int e1 = a0_transport_jump(la, 96);
  int e2 = a0_transport_jump(la, (size_t)-32);
  f->hdr.data_size = (size_t)-64;
  int e3 = a0_transport_jump(la, f->hdr.off);
  printf("%d %d %d\n", e1, e2, e3);
  return !(e1 && e2 && e3);
}
