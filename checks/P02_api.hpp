#include <array>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
typedef std::vector<std::array<size_t,3>> Hits;
struct Api {
  const char *name;
  uint64_t (*cpu)();
  void (*hw)(uint64_t);
  void *(*make)(const std::string&);
  void (*drop)(void*);
  void (*find)(void*, const std::string&, char*, Hits&);
  void (*reads)(void*, const std::string&, const std::vector<uint8_t>&, Hits&);
};
