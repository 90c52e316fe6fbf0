// C16: a write-if-empty that fails still reports that it wrote.
#include <a0/arena.h>
#include <a0/middleware.h>
#include <a0/packet.h>
#include <a0/writer.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
int main() {
  a0_arena_t arena = {{calloc(1, 4096), 4096}, A0_ARENA_MODE_SHARED};
  a0_writer_t w, wrapped;
  if (a0_writer_init(&w, arena)) return 2;
  bool written = false;
  a0_writer_wrap(&w, a0_write_if_empty(&written), &wrapped);
  a0_packet_t p;
  a0_packet_init(&p);
  p.payload = (a0_buf_t){calloc(1, 8000), 8000};
  int err = a0_writer_write(&wrapped, p);
  printf("failed write (%d): written=%d\n", err, written);
  return !err || written;
}
