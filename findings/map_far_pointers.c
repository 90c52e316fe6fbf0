/* C31: two different pointers are two keys, however far apart they are. */
#include <a0/cmp.h>
#include <a0/map.h>
#include <stdint.h>
#include <stdio.h>

int main(void) {
  uintptr_t near = 0x7000001000, far = near + (1ull << 32);
  int order = 0;
  a0_cmp_eval(A0_CMP_PTR, &near, &far, &order);
  printf("comparison of pointers 4 GiB apart: %d\n", order);
  return order >= 0;
}
