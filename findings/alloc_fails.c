// C17/C23: an allocator that reports failure is ignored by serialise, deserialise and deep copy.
#include <a0/alloc.h>
#include <a0/packet.h>
#include <stdio.h>
#include <stdlib.h>
static char scratch[4096];
static a0_err_t no(void* u, size_t n, a0_buf_t* out) { (void)u; (void)n; *out = (a0_buf_t){(uint8_t*)scratch, 0}; return A0_ERR_RANGE; }
static a0_err_t yes(void* u, size_t n, a0_buf_t* out) { (void)u; *out = (a0_buf_t){malloc(n), n}; return A0_OK; }
int main() {
  a0_alloc_t bad = {NULL, no, NULL}, good = {NULL, yes, NULL};
  a0_packet_t p, q;
  a0_packet_init(&p);
  a0_flat_packet_t f;
  a0_buf_t b;
  int e1 = a0_packet_serialize(p, bad, &f);
  int e2 = a0_packet_deep_copy(p, bad, &q, &b);
  a0_packet_serialize(p, good, &f);
  int e3 = a0_packet_deserialize(f, bad, &q, &b);
  printf("%d %d %d\n", e1, e2, e3);
  return !(e1 && e2 && e3);
}
