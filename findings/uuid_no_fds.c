// Two threads that generate their first id while no descriptor is free must not generate the same one.
#include <a0/uuid.h>
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <sys/resource.h>

static void* gen(void* out) {
  a0_uuidv4((char*)out);
  return NULL;
}

int main() {
  struct rlimit r = {3, 3};
  setrlimit(RLIMIT_NOFILE, &r);
  a0_uuid_t a, b;
  pthread_t t;
  pthread_create(&t, NULL, gen, a);
  pthread_join(t, NULL);
  pthread_create(&t, NULL, gen, b);
  pthread_join(t, NULL);
  printf("%s %s\n", a, b);
  return !memcmp(a, b, sizeof(a));
}
