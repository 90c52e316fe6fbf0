// Methods of a C++ object that was never constructed throw; they do not crash.
#include <a0/cfg.hpp>
#include <a0/rpc.hpp>
#include <a0/prpc.hpp>
#include <cstdio>
#include <stdexcept>
template <typename F> int throws(const char* what, F f) {
  try { f(); } catch (const std::runtime_error&) { return 0; }
  printf("%s did not throw\n", what);
  return 1;
}
int main() {
  a0::Cfg cfg;
  return throws("read", [&] { cfg.read(); }) | throws("write", [&] { cfg.write("x"); }) |
         throws("server", [&] { a0::RpcRequest().server(); }) | throws("server", [&] { a0::PrpcConnection().server(); });
}
