// A relative name means one under the root, for every operation.
#include <a0/file.h>
#include <stdio.h>
#include <unistd.h>

int main() {
  a0_file_t file;
  a0_file_open("rel_dir/x", NULL, &file);
  a0_file_close(&file);
  int err = a0_file_remove_all("rel_dir");
  int there = !access("root/rel_dir", F_OK);
  printf("err=%d still there=%d\n", err, there);
  return !(!err && !there);
}
