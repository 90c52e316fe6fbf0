// Files in a directory that was removed and made again must still be reported.
#include <a0/discovery.h>
#include <a0/file.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static volatile int seen;

static void on(void* u, const char* path) {
  if (strstr(path, "new.x")) {
    seen++;
  }
}

int main() {
  a0_file_t file;
  mkdir("root/rec", 0777);
  mkdir("root/rec/dir", 0777);
  a0_discovery_t d;
  a0_discovery_init(&d, "rec/**/*.x", (a0_discovery_callback_t){NULL, on});
  usleep(100000);
  rmdir("root/rec/dir");
  usleep(100000);
  mkdir("root/rec/dir", 0777);
  usleep(100000);
  a0_file_open("rec/dir/new.x", NULL, &file);
  usleep(200000);
  printf("seen=%d\n", seen);
  a0_discovery_close(&d);
  return seen != 1;
}
