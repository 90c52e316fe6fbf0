// C05: random access at the offset of an evicted message hands the callback an uninitialised frame.
#include <a0/arena.h>
#include <a0/reader.h>
#include <a0/transport.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int called;
static void cb(void* d, a0_transport_locked_t tlk, a0_flat_packet_t f) { (void)d; (void)tlk; (void)f; called++; }
__attribute__((noinline)) static void dirty() { volatile char b[4096]; memset((void*)b, 0x5a, sizeof(b)); }
int main() {
  a0_arena_t arena = {{calloc(1, 8192), 8192}, A0_ARENA_MODE_SHARED};
  a0_transport_t a;
  a0_transport_init(&a, arena);
  a0_transport_locked_t la;
  a0_transport_lock(&a, &la);
  a0_transport_frame_t* f;
  a0_transport_alloc(la, 8, &f);
  size_t off = f->hdr.off;
  a0_transport_commit(la);
  a0_transport_clear(la);
  a0_transport_unlock(la);
  dirty();
  int err = a0_read_random_access(arena, off, (a0_zero_copy_callback_t){NULL, cb});
  printf("err=%d called=%d\n", err, called);
  return !(err && !called);
}
