// Model of mpc_utils::Status / StatusOr and the status macros.
#pragma once
#include <cstdlib>
#include <optional>
#include <ostream>
#include <string>
#include <utility>
#include "sx.h"
namespace mpc_utils {
enum class StatusCode { kOk = 0, kCancelled = 1, kUnknown = 2, kInvalidArgument = 3, kDeadlineExceeded = 4, kNotFound = 5, kAlreadyExists = 6, kPermissionDenied = 7,
  kResourceExhausted = 8, kFailedPrecondition = 9, kAborted = 10, kOutOfRange = 11, kUnimplemented = 12, kInternal = 13, kUnavailable = 14, kDataLoss = 15 };
class Status {
 public:
  Status() : code_(StatusCode::kOk) {}
  Status(StatusCode c, std::string m) : code_(c), msg_(std::move(m)) {}
  bool ok() const { return code_ == StatusCode::kOk; }
  StatusCode code() const { return code_; }
  const std::string& message() const { return msg_; }
  void IgnoreError() const {}
  void Update(const Status& s) { if (ok()) *this = s; }
  friend bool operator==(const Status& a, const Status& b) { return a.code_ == b.code_ && a.msg_ == b.msg_; }
  friend bool operator!=(const Status& a, const Status& b) { return !(a == b); }
 private:
  StatusCode code_;
  std::string msg_;
};
inline Status OkStatus() { return Status(); }
#define SX_ERR(name) \
  inline Status name##Error(std::string m = "") { return Status(StatusCode::k##name, std::move(m)); } \
  inline bool Is##name(const Status& s) { return s.code() == StatusCode::k##name; }
SX_ERR(Cancelled) SX_ERR(Unknown) SX_ERR(InvalidArgument) SX_ERR(DeadlineExceeded) SX_ERR(NotFound) SX_ERR(AlreadyExists) SX_ERR(PermissionDenied)
SX_ERR(ResourceExhausted) SX_ERR(FailedPrecondition) SX_ERR(Aborted) SX_ERR(OutOfRange) SX_ERR(Unimplemented) SX_ERR(Internal) SX_ERR(Unavailable) SX_ERR(DataLoss)
#undef SX_ERR
template <typename T>
class StatusOr {
  template <typename U> friend class StatusOr;
 public:
  StatusOr() : st_(StatusCode::kUnknown, "") {}
  StatusOr(const Status& s) : st_(s) { if (s.ok()) sx_fail("StatusOr built from an OK status"); }
  StatusOr(Status&& s) : st_(std::move(s)) { if (st_.ok()) sx_fail("StatusOr built from an OK status"); }
  StatusOr(const T& v) : v_(v) {}
  StatusOr(T&& v) : v_(std::move(v)) {}
  StatusOr(const StatusOr&) = default;
  StatusOr(StatusOr&&) = default;
  StatusOr& operator=(const StatusOr&) = default;
  StatusOr& operator=(StatusOr&&) = default;
  template <typename U>
  StatusOr(const StatusOr<U>& o) : st_(o.st_) { if (o.v_) v_ = T(*o.v_); }
  template <typename U>
  StatusOr(StatusOr<U>&& o) : st_(std::move(o.st_)) { if (o.v_) v_ = T(std::move(*o.v_)); }
  bool ok() const { return st_.ok(); }
  const Status& status() const { return st_; }
  const T& ValueOrDie() const& { chk(); return *v_; }
  T& ValueOrDie() & { chk(); return *v_; }
  T&& ValueOrDie() && { chk(); return std::move(*v_); }
  const T& value() const& { chk(); return *v_; }
  T& value() & { chk(); return *v_; }
  T&& value() && { chk(); return std::move(*v_); }
  const T& operator*() const& { chk(); return *v_; }
  T& operator*() & { chk(); return *v_; }
  T&& operator*() && { chk(); return std::move(*v_); }
  const T* operator->() const { chk(); return &*v_; }
  T* operator->() { chk(); return &*v_; }
 private:
  void chk() const { if (!v_) { sx_fail("value of a failed StatusOr used"); abort(); } }
  Status st_;
  std::optional<T> v_;
};
}  // namespace mpc_utils
#define SX_CAT2(a, b) a##b
#define SX_CAT(a, b) SX_CAT2(a, b)
#define RETURN_IF_ERROR(...)                          \
  do {                                                \
    const ::mpc_utils::Status sx_st_ = (__VA_ARGS__); \
    if (!sx_st_.ok()) return sx_st_;                  \
  } while (0)
#define SX_AOR(tmp, lhs, ...)          \
  auto tmp = (__VA_ARGS__);            \
  if (!tmp.ok()) return tmp.status();  \
  lhs = std::move(tmp).ValueOrDie()
#define ASSIGN_OR_RETURN(lhs, ...) SX_AOR(SX_CAT(sx_so_, __LINE__), lhs, __VA_ARGS__)
