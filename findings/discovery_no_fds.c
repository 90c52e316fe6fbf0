// Discovery that cannot watch anything must say so.
#include <a0/discovery.h>
#include <fcntl.h>
#include <stdio.h>
#include <sys/resource.h>
#include <unistd.h>

static void on(void* u, const char* path) {
}

int main() {
  int bad = 0;
  for (int spare = 0; spare < 3; spare++) {
    struct rlimit old, lim;
    getrlimit(RLIMIT_NOFILE, &old);
    int top = open("/dev/null", O_RDONLY);
    close(top);
    lim = old;
    lim.rlim_cur = top + spare;
    setrlimit(RLIMIT_NOFILE, &lim);
    a0_discovery_t d;
    int err = a0_discovery_init(&d, "nofd/*.x", (a0_discovery_callback_t){NULL, on});
    setrlimit(RLIMIT_NOFILE, &old);
    int again = open("/dev/null", O_RDONLY);
    close(again);
    printf("spare=%d err=%d leaked=%d ", spare, err, again - top);
    bad |= !err || again != top;
  }
  printf("\n");
  return bad;
}
