// C14: writing a message that does not fit reports success and commits.
#include <a0/arena.h>
#include <a0/packet.h>
#include <a0/transport.h>
#include <a0/writer.h>
#include <stdio.h>
#include <stdlib.h>
int main() {
  a0_arena_t arena = {{calloc(1, 4096), 4096}, A0_ARENA_MODE_SHARED};
  a0_writer_t w;
  if (a0_writer_init(&w, arena)) return 2;
  a0_packet_t p;
  a0_packet_init(&p);
  p.payload = (a0_buf_t){calloc(1, 8000), 8000};
  int err = a0_writer_write(&w, p);
  printf("write of an oversized message: %d\n", err);
  return !err;
}
