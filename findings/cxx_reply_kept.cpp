// A reply kept past its callback keeps its payload when further replies arrive.
#include <a0/rpc.hpp>
#include <cstdio>
#include <string>
int main() {
  a0::RpcServer server("kept", [](a0::RpcRequest req) { req.reply(std::string(req.pkt().payload())); }, nullptr);
  a0::RpcClient client("kept");
  auto a = client.send("first").get();
  client.send("other").get();
  std::string got(a.payload());
  printf("%s\n", got.c_str());
  return got != "first";
}
