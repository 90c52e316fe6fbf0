// C18: a blocking request that times out, or a request that cannot be written, stays registered.
#include <a0/alloc.h>
#include <a0/map.h>
#include <a0/packet.h>
#include <a0/rpc.h>
#include <a0/time.h>
#include <stdio.h>
#include <stdlib.h>
static a0_err_t al(void* u, size_t n, a0_buf_t* out) { *out = (a0_buf_t){malloc(n), n}; return A0_OK; }
static a0_err_t de(void* u, a0_buf_t b) { free(b.data); return A0_OK; }
int main() {
  a0_alloc_t alloc = {NULL, al, de};
  a0_rpc_topic_t topic = {.name = "timeout_entry", .file_opts = NULL};
  a0_rpc_client_t c;
  if (a0_rpc_client_init(&c, topic, alloc)) return 2;
  for (int k = 0; k < 5; k++) {
    a0_packet_t req, out;
    a0_packet_init(&req);
    a0_time_mono_t t;
    a0_time_mono_now(&t);
    a0_time_mono_add(t, 1000000, &t);
    if (!a0_rpc_client_send_blocking_timeout(&c, req, &t, alloc, &out)) return 3;
  }
  size_t timed_out, n;
  a0_map_size(&c._outstanding_requests, &timed_out);
  a0_packet_t big;
  a0_packet_init(&big);
  big.payload = (a0_buf_t){calloc(1, 64 << 20), 64 << 20};
  int err = a0_rpc_client_send(&c, big, (a0_packet_callback_t){0});
  a0_map_size(&c._outstanding_requests, &n);
  printf("registered after 5 timeouts: %zu, after a failed send (%d): %zu\n", timed_out, err, n);
  return n != 0;
}
