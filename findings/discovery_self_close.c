// Discovery closed from its own callback must be refused, not torn down under the thread that uses it.
#include <a0/discovery.h>
#include <a0/file.h>
#include <stdio.h>
#include <unistd.h>

static a0_discovery_t d;
static volatile int err = -1, count;

static void on(void* u, const char* path) {
  if (!count++) {
    usleep(50000);
    err = a0_discovery_close(&d);
  }
}

int main() {
  a0_file_t file;
  a0_file_open("dsc/a.x", NULL, &file);
  a0_discovery_init(&d, "dsc/*.x", (a0_discovery_callback_t){NULL, on});
  usleep(200000);
  a0_file_open("dsc/b.x", NULL, &file);
  usleep(200000);
  int later = err > 0 ? a0_discovery_close(&d) : -1;
  printf("close in callback=%d reports=%d close later=%d\n", err, count, later);
  return !(err > 0 && count == 2 && !later);
}
