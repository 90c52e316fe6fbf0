// C23: the message of a failed wait must be the one that was thrown, whatever failed before.
#include <a0/arena.hpp>
#include <a0/buf.h>
#include <a0/transport.hpp>

#include <cstdio>
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>

static std::string waiting(a0::TransportLocked& tlk, const std::string& what) {
  try {
    tlk.wait([&]() -> bool { throw std::runtime_error(what); });
  } catch (const std::exception& e) {
    return e.what();
  }
  return "(nothing)";
}

int main() {
  static uint64_t mem[512];
  memset(mem, 0, sizeof(mem));
  a0_arena_t arena = {{(uint8_t*)mem, sizeof(mem)}, A0_ARENA_MODE_SHARED};
  a0::Arena cpp_arena;
  cpp_arena.c = std::make_shared<a0_arena_t>(arena);
  a0::Transport transport(cpp_arena);
  auto tlk = transport.lock();
  waiting(tlk, "the first message is long");
  std::string got = waiting(tlk, "short");
  printf("%s\n", got.c_str());
  return got.find("short") == std::string::npos || got.find("message") != std::string::npos;
}
