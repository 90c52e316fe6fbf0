// A failed creation must leave no temporary file behind.
#include <a0/file.h>
#include <dirent.h>
#include <stdio.h>
#include <string.h>

int main() {
  a0_file_options_t opts = A0_FILE_OPTIONS_DEFAULT;
  opts.create_options.size = 0;  // Cannot be mapped.
  a0_file_t file;
  int err = a0_file_open("tmp_left/x", &opts, &file);
  int left = 0;
  DIR* d = opendir("root/tmp_left");
  struct dirent* e;
  while ((e = readdir(d))) {
    left += e->d_name[0] == '.' && strlen(e->d_name) > 2;
  }
  printf("err=%d left=%d\n", err, left);
  return !(err && !left);
}
