// C10: a wait for release must end when the switch changes hands, wherever the waiter and the new holder are.
// The new holder is stopped after each of its instructions at which it owns the switch, then the waiter
// is stopped after each of its first instructions, then both go on.
#include <a0/deadman_mtx.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/ptrace.h>
#include <sys/wait.h>
#include <unistd.h>
static a0_deadman_mtx_shared_token_t* tok;
static pid_t start(int who) {
  pid_t p = fork();
  if (p) {
    int st;
    waitpid(p, &st, 0);
    return p;
  }
  a0_deadman_mtx_t d;
  a0_deadman_mtx_init(&d, tok);
  ptrace(PTRACE_TRACEME, 0, 0, 0);
  raise(SIGSTOP);
  if (who) {
    a0_deadman_mtx_wait_unlocked(&d, 0);
    _exit(0);
  }
  a0_deadman_mtx_trylock(&d);
  for (;;) pause();
}
// false: it went to sleep
static int step(pid_t p) {
  int st;
  ptrace(PTRACE_SINGLESTEP, p, 0, 0);
  for (int i = 0; i < 5000; i++) {
    if (waitpid(p, &st, WNOHANG) == p) return 1;
    if (i > 100) usleep(10);
  }
  return 0;
}
static void stop(pid_t p) {
  int st;
  kill(p, SIGKILL);
  while (waitpid(p, &st, 0) == p && !WIFSIGNALED(st) && !WIFEXITED(st)) {
  }
}
int main() {
  tok = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int k = 1; k < 300; k++) {
    memset(tok, 0, sizeof(*tok));
    pid_t o = start(0);
    while (!tok->_mtx.ftx) step(o);  // owns it, token not yet renewed
    if (tok->_tkn) return 2;
    pid_t w = start(1);
    int st, gone = 0, asleep = 0;
    for (int i = 0; i < k && !asleep; i++) asleep = !step(w);
    ptrace(PTRACE_DETACH, o, 0, 0);
    for (int i = 0; i < 100 && !tok->_tkn; i++) usleep(1000);
    usleep(2000);
    if (asleep) {
      for (int i = 0; i < 200 && waitpid(w, &st, WNOHANG) != w; i++) usleep(1000);
    }
    ptrace(PTRACE_DETACH, w, 0, 0);
    for (int i = 0; i < 200 && !gone; i++) {
      gone = waitpid(w, &st, WNOHANG) == w;
      if (!gone) usleep(1000);
    }
    if (!gone) stop(w);
    stop(o);
    if (!gone) {
      printf("waiter stopped after %d instructions never noticed the new holder\n", k);
      return 1;
    }
    if (asleep) break;
  }
  return 0;
}
