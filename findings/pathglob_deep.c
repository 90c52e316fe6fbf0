// A pattern with more parts than are supported must be refused.
#include <a0/pathglob.h>
#include <stdio.h>
#include <string.h>

int main() {
  char path[256] = "";
  for (int i = 0; i < 40; i++) {
    strcat(path, "/a");
  }
  struct {
    a0_pathglob_t glob;
    char guard[4096];
  } s;
  memset(&s, 0, sizeof(s));
  int err = a0_pathglob_init(&s.glob, path);
  int touched = 0;
  for (int i = 0; i < 4096; i++) {
    touched |= s.guard[i];
  }
  printf("err=%d overwritten=%d\n", err, touched != 0);
  return !err || touched;
}
