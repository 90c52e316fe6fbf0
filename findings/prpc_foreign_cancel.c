// C19: a cancellation packet of another client is delivered as progress.
#include <a0/alloc.h>
#include <a0/packet.h>
#include <a0/prpc.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
static volatile int calls;
static void progress(void* u, a0_packet_t p, bool done) { calls++; }
static void conn(void* u, a0_prpc_connection_t c) {}
static a0_err_t al(void* u, size_t n, a0_buf_t* out) { *out = (a0_buf_t){malloc(n), n}; return A0_OK; }
static a0_err_t de(void* u, a0_buf_t b) { free(b.data); return A0_OK; }
int main() {
  a0_alloc_t alloc = {NULL, al, de};
  a0_prpc_topic_t topic = {.name = "foreign_cancel", .file_opts = NULL};
  a0_prpc_client_t a, b;
  if (a0_prpc_client_init(&a, topic, alloc) || a0_prpc_client_init(&b, topic, alloc)) return 2;
  a0_packet_t req;
  a0_packet_init(&req);
  if (a0_prpc_client_connect(&a, req, (a0_prpc_progress_callback_t){.user_data = NULL, .fn = progress})) return 3;
  usleep(100000);
  if (a0_prpc_client_cancel(&b, req.id)) return 4;
  usleep(300000);
  printf("no server, no progress sent: progress callback ran %d times\n", calls);
  return calls != 0;
}
