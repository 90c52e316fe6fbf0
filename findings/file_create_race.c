// Losing the race to create a file must not leak the mapping of the file that was not needed.
#include <a0/file.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>

static int lost;

int link(const char* from, const char* to) {
  if (!lost) {
    lost = 1;
    int fd = open(to, O_CREAT | O_RDWR, 0666);
    ftruncate(fd, 1 << 20);
    close(fd);
  }
  return linkat(AT_FDCWD, from, AT_FDCWD, to, 0);
}

int main() {
  a0_file_t file;
  int err = a0_file_open("create_race", NULL, &file);
  char line[1024];
  int maps = 0;
  FILE* f = fopen("/proc/self/maps", "r");
  while (fgets(line, sizeof(line), f)) {
    maps += strstr(line, "mkstemp") != NULL;
  }
  printf("err=%d lost=%d leaked mappings=%d\n", err, lost, maps);
  return !(!err && lost && !maps);
}
