// Texts only reach error messages: numbers are rendered as "#".
#pragma once
#include <initializer_list>
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
class AlphaNum {  // by value: an argument that is a static constant is not odr-used
 public:
  template <typename T, typename = typename std::enable_if<std::is_arithmetic<T>::value || std::is_enum<T>::value>::type>
  AlphaNum(T) : p_("#"), n_(1) {}
  AlphaNum(const char* s) : p_(s), n_(std::char_traits<char>::length(s)) {}
  AlphaNum(const std::string& s) : p_(s.data()), n_(s.size()) {}
  AlphaNum(absl::string_view s) : p_(s.data()), n_(s.size()) {}
  const char* p_;
  size_t n_;
};
namespace sx_detail {
inline void app(std::string& r, std::initializer_list<AlphaNum> l) {
  for (const AlphaNum& a : l) r.append(a.p_, a.n_);
}
}  // namespace sx_detail
inline std::string StrCat() { return std::string(); }
inline std::string StrCat(const AlphaNum& a) { std::string r; sx_detail::app(r, {a}); return r; }
inline std::string StrCat(const AlphaNum& a, const AlphaNum& b) { std::string r; sx_detail::app(r, {a, b}); return r; }
inline std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c) { std::string r; sx_detail::app(r, {a, b, c}); return r; }
inline std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d) { std::string r; sx_detail::app(r, {a, b, c, d}); return r; }
template <typename... R>
std::string StrCat(const AlphaNum& a, const AlphaNum& b, const AlphaNum& c, const AlphaNum& d, const AlphaNum& e, const R&... r) {
  std::string s;
  sx_detail::app(s, {a, b, c, d, e, static_cast<const AlphaNum&>(r)...});
  return s;
}
template <typename... R>
void StrAppend(std::string* d, const AlphaNum& a, const R&... r) { sx_detail::app(*d, {a, static_cast<const AlphaNum&>(r)...}); }
}  // namespace absl
