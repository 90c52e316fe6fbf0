// C27: a name given as a part of a longer text must not reach beyond that part.
#include <a0/file.hpp>
#include <a0/string_view.hpp>
#include <a0/topic.hpp>

#include <cstdio>
#include <string>
#include <unistd.h>

int main() {
  const char text[] = "tree/kept_or_not";
  a0::File keep("tree/kept_or_not");
  a0::string_view part(text, sizeof("tree/kept") - 1);
  a0::File other(part);
  printf("opened %s\n", other.path().c_str());
  bool bad = other.path() == keep.path();
  a0::File::remove(part);
  if (access(keep.path().c_str(), F_OK)) {
    printf("removing tree/kept removed %s\n", keep.path().c_str());
    bad = true;
  }
  std::string path = a0::topic_path("{topic}.x", a0::string_view("onetwo", 3));
  printf("topic one is %s\n", path.c_str());
  return bad || path != "one.x";
}
