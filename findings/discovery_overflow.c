// More files at once than the kernel queues events for must still all be reported.
#include <a0/discovery.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static volatile int seen, hold = 1;

static void on(void* u, const char* path) {
  if (strstr(path, "first")) {
    while (hold) {
      usleep(1000);
    }
  } else {
    seen++;
  }
}

int main() {
  int max = 16384;
  FILE* f = fopen("/proc/sys/fs/inotify/max_queued_events", "r");
  if (f) {
    fscanf(f, "%d", &max);
  }
  int total = max + 100;
  mkdir("root/ovf", 0777);
  a0_discovery_t d;
  a0_discovery_init(&d, "ovf/**/*.x", (a0_discovery_callback_t){NULL, on});
  usleep(100000);
  close(open("root/ovf/first.x", O_CREAT | O_RDWR, 0666));
  usleep(100000);
  for (int i = 0; i < total; i++) {
    char name[64];
    sprintf(name, "root/ovf/%d.x", i);
    close(open(name, O_CREAT | O_RDWR, 0666));
  }
  hold = 0;
  for (int i = 0; i < 100 && seen < total; i++) {
    usleep(50000);
  }
  printf("created=%d seen=%d\n", total, seen);
  return seen != total;
}
