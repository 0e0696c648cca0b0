// Dependency stand-in: absl::Span.
#ifndef STUB_ABSL_SPAN_H_
#define STUB_ABSL_SPAN_H_
#include <cstddef>
#include <vector>
namespace absl {
template <class T> class Span {
 public:
  Span() : p_(nullptr), n_(0) {}
  Span(T* p, std::size_t n) : p_(p), n_(n) {}
  template <class V> explicit Span(V& v) : p_(v.data()), n_(v.size()) {}
  T* begin() const { return p_; }
  T* end() const { return p_ + n_; }
  std::size_t size() const { return n_; }
 private:
  T* p_; std::size_t n_;
};
}
#endif
