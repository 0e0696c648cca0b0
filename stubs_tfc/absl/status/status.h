// Dependency stand-in: absl::Status (a code and a message) and tsl::StatusOr.
#ifndef STUB_ABSL_STATUS_H_
#define STUB_ABSL_STATUS_H_
#include <string>
#include <string_view>
#include <utility>
namespace absl {
class Status {
 public:
  Status() : ok_(true) {}
  Status(bool ok, std::string m) : ok_(ok), m_(std::move(m)) {}
  bool ok() const { return ok_; }
  std::string_view message() const { return m_; }
 private:
  bool ok_; std::string m_;
};
inline Status OkStatus() { return Status(); }
inline Status InternalError(std::string_view m) { return Status(false, std::string(m)); }
inline Status InvalidArgumentError(std::string_view m) { return Status(false, std::string(m)); }
template <class T> class StatusOr {
 public:
  StatusOr(Status s) : s_(std::move(s)) {}
  StatusOr(T v) : v_(std::move(v)) {}
  bool ok() const { return s_.ok(); }
  const Status& status() const { return s_; }
  T& value() { return v_; }
 private:
  Status s_; T v_;
};
}
namespace tsl { using absl::Status; using absl::StatusOr; }
namespace tensorflow {
using absl::Status; using absl::StatusOr;
inline Status OkStatus() { return absl::OkStatus(); }
namespace errors { inline Status InvalidArgument(std::string_view m) { return absl::InvalidArgumentError(m); } }
}
#endif
