// A child forked after the parent generated an id must not generate the parent's next ids.
#include <a0/uuid.h>
#include <stdio.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

int main() {
  a0_uuid_t first, mine, theirs;
  a0_uuidv4(first);
  int p[2];
  if (pipe(p)) {
    return 2;
  }
  if (!fork()) {
    a0_uuid_t id;
    a0_uuidv4(id);
    _exit(write(p[1], id, sizeof(id)) != sizeof(id));
  }
  a0_uuidv4(mine);
  if (read(p[0], theirs, sizeof(theirs)) != sizeof(theirs)) {
    return 2;
  }
  wait(NULL);
  printf("parent %s child %s\n", mine, theirs);
  return !memcmp(mine, theirs, sizeof(mine));
}
