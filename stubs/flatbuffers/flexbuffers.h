// Dependency stand-in for flatbuffers/flexbuffers.h: a map from key to int32.
#ifndef STUB_FLEXBUFFERS_H_
#define STUB_FLEXBUFFERS_H_
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <cstring>
#include <string>
#include <vector>
namespace flexbuffers {
struct Reference {
  const std::int32_t* v = nullptr;
  bool IsNull() const { return v == nullptr; }
  std::int32_t AsInt32() const { return v ? *v : 0; }
  Reference() {}
  explicit Reference(const std::int32_t* p) : v(p) {}
};
struct Map {
  std::map<std::string, std::int32_t> m;
  Reference operator[](const char* k) const {
    auto it = m.find(k);
    return it == m.end() ? Reference() : Reference(&it->second);
  }
};
std::map<std::string, std::int32_t> ReadBuffer(const std::uint8_t* p, std::size_t n);
// A buffer of size 0 stands for a pointer to the map itself.
struct Root {
  const std::uint8_t* p;
  std::size_t n;
  Map AsMap() const {
    return Map{n ? ReadBuffer(p, n) : *reinterpret_cast<const std::map<std::string, std::int32_t>*>(p)};
  }
};
// Writes key, NUL, and the value as 8 little-endian bytes for every entry of one map;
// like the library, insists on one map, distinct keys, and Finish before GetBuffer.
class Builder {
 public:
  template <typename F> std::size_t Map(F f) { need(stage == 0); stage = 1; f(); stage = 2; return 0; }
  void Int(const char* key, std::int64_t i) {
    need(stage == 1 && seen[key]++ == 0);
    for (const char* c = key; *c; c++) buf.push_back((std::uint8_t)*c);
    buf.push_back(0);
    for (int k = 0; k < 8; k++) buf.push_back((std::uint8_t)((std::uint64_t)i >> (8 * k)));
  }
  void Finish() { need(stage == 2); stage = 3; }
  const std::vector<std::uint8_t>& GetBuffer() const { need(stage == 3); return buf; }
 private:
  static void need(bool b) { if (!b) abort(); }
  std::vector<std::uint8_t> buf;
  std::map<std::string, int> seen;
  int stage = 0;
};
inline std::map<std::string, std::int32_t> ReadBuffer(const std::uint8_t* b, std::size_t n) {
  std::map<std::string, std::int32_t> m;
  for (std::size_t p = 0; p < n;) {
    std::string k;
    while (p < n && b[p]) k += (char)b[p++];
    p++;
    std::uint64_t v = 0;
    for (int i = 0; i < 8 && p < n; i++) v |= (std::uint64_t)b[p++] << (8 * i);
    m[k] = (std::int32_t)(std::int64_t)v;
  }
  return m;
}
inline Root GetRoot(const std::uint8_t* p, std::size_t n) { return Root{p, n}; }
}  // namespace flexbuffers
#endif
