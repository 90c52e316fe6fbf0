// C20/C23: a reader whose thread cannot be started reports success, and closing it then hangs.
#include <a0/arena.h>
#include <a0/reader.h>
#include <pthread.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* d) { (void)t; (void)a; (void)f; (void)d; return EAGAIN; }
static void cb(void* d, a0_transport_locked_t tlk, a0_flat_packet_t f) { (void)d; (void)tlk; (void)f; }
int main() {
  a0_arena_t arena = {{calloc(1, 8192), 8192}, A0_ARENA_MODE_SHARED};
  a0_reader_zc_t r;
  int err = a0_reader_zc_init(&r, arena, A0_READER_OPTIONS_DEFAULT, (a0_zero_copy_callback_t){NULL, cb});
  printf("init: %d\n", err);
  return !err;
}
