// An endpoint closed from its own callback must be refused, not torn down under the thread that uses it.
#include <a0/pubsub.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>

static a0_subscriber_t sub;
static volatile int err = -1, count;

static a0_err_t on_alloc(void* u, size_t size, a0_buf_t* out) {
  *out = (a0_buf_t){malloc(size), size};
  return A0_OK;
}

static a0_err_t on_dealloc(void* u, a0_buf_t buf) {
  free(buf.data);
  return A0_OK;
}

static void on(void* u, a0_packet_t pkt) {
  if (!count++) {
    err = a0_subscriber_close(&sub);
  }
}

int main() {
  a0_publisher_t pub;
  a0_publisher_init(&pub, (a0_pubsub_topic_t){"cic", NULL});
  a0_alloc_t alloc = {.user_data = NULL, .alloc = on_alloc, .dealloc = on_dealloc};
  a0_subscriber_init(&sub, (a0_pubsub_topic_t){"cic", NULL}, alloc, (a0_reader_options_t){A0_INIT_OLDEST, A0_ITER_NEXT}, (a0_packet_callback_t){NULL, on});
  for (int i = 0; i < 2; i++) {
    a0_packet_t pkt;
    a0_packet_init(&pkt);
    a0_publisher_pub(&pub, pkt);
    usleep(100000);
  }
  int later = a0_subscriber_close(&sub);
  printf("close in callback=%d packets=%d close later=%d\n", err, count, later);
  return !(err > 0 && count == 2 && !later);
}
