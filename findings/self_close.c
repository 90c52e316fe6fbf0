// C13: closing a threaded reader from its own callback must be refused, not hang.
#include <a0/arena.h>
#include <a0/alloc.h>
#include <a0/packet.h>
#include <a0/reader.h>
#include <a0/transport.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
static a0_reader_t r;
static volatile int err = -1;
static void cb(void* d, a0_packet_t p) { (void)d; (void)p; err = a0_reader_close(&r); }
static a0_err_t al(void* u, size_t n, a0_buf_t* out) { (void)u; *out = (a0_buf_t){malloc(n), n}; return A0_OK; }
static a0_err_t de(void* u, a0_buf_t b) { (void)u; free(b.data); return A0_OK; }
int main() {
  alarm(5);
  a0_arena_t arena = {{calloc(1, 8192), 8192}, A0_ARENA_MODE_SHARED};
  a0_alloc_t alloc = {NULL, al, de};
  if (a0_reader_init(&r, arena, alloc, A0_READER_OPTIONS_DEFAULT, (a0_packet_callback_t){NULL, cb})) return 2;
  a0_transport_t a;
  a0_transport_init(&a, arena);
  a0_transport_locked_t la;
  a0_transport_lock(&a, &la);
  a0_alloc_t ta;
  a0_transport_allocator(&la, &ta);
  a0_packet_t p;
  a0_packet_init(&p);
  a0_packet_serialize(p, ta, NULL);
  a0_transport_commit(la);
  a0_transport_unlock(la);
  while (err < 0) usleep(1000);
  printf("close from callback: %d\n", err);
  return !err;
}
