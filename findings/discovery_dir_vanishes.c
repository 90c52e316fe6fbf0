// A directory that is gone by the time it is scanned must not bring discovery down.
#include <a0/discovery.h>
#include <a0/file.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static volatile int seen;

static void on(void* u, const char* path) {
  if (strstr(path, "first")) {
    usleep(200000);
  }
  if (strstr(path, "last")) {
    seen = 1;
  }
}

int main() {
  a0_file_t file;
  mkdir("root/van", 0777);
  a0_discovery_t d;
  a0_discovery_init(&d, "van/**/*.x", (a0_discovery_callback_t){NULL, on});
  usleep(100000);
  a0_file_open("van/first.x", NULL, &file);
  usleep(50000);
  mkdir("root/van/gone", 0777);
  rmdir("root/van/gone");
  a0_file_open("van/last.x", NULL, &file);
  usleep(500000);
  printf("later file seen=%d\n", seen);
  a0_discovery_close(&d);
  return !seen;
}
