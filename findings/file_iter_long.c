// A path that does not fit must be refused, not written past the end of the buffer.
#include <a0/file.h>
#include <limits.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

int main() {
  char root[PATH_MAX];
  realpath("root", root);
  chdir(root);
  char path[2 * PATH_MAX];
  strcpy(path, root);
  char name[251];
  memset(name, 'd', 250);
  name[250] = '\0';
  while (strlen(path) + 1 + 250 < PATH_MAX - 10) {
    mkdir(name, 0777);
    chdir(name);
    strcat(path, "/");
    strcat(path, name);
  }
  memset(name, 'e', 250);
  mkdir(name, 0777);
  struct {
    a0_file_iter_t iter;
    char guard[1024];
  } s;
  memset(&s, 0, sizeof(s));
  a0_file_iter_entry_t entry;
  int err = a0_file_iter_init(&s.iter, path);
  DIR* dir = s.iter._dir;
  size_t len = s.iter._path_len;
  if (!err) {
    err = a0_file_iter_next(&s.iter, &entry);
  }
  int bad = s.iter._dir != dir || s.iter._path_len != len;
  printf("err=%d overwritten=%d\n", err, bad);
  return bad || !err;
}
