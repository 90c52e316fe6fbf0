// A cancel does not end the process of a C++ server made without a cancel handler.
#include <a0/rpc.hpp>
#include <chrono>
#include <string>
#include <thread>
int main() {
  a0::RpcServer server("nocancel", [](a0::RpcRequest) {}, nullptr);
  a0::RpcClient client("nocancel");
  a0::Packet pkt("x");
  client.send(pkt, [](a0::Packet) {});
  client.cancel(pkt.id());
  std::this_thread::sleep_for(std::chrono::milliseconds(300));
}
