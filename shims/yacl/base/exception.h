#pragma once
#include <algorithm>
#include "absl/strings/str_join.h"
#include <array>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>
#include <stdexcept>
#include <string>
#include <vector>
#include "fmt/format.h"
namespace yacl {
class Exception : public std::exception {
 public:
  Exception() {}
  explicit Exception(std::string m) : m_(std::move(m)) {}
  explicit Exception(const char* m) : m_(m) {}
  const char* what() const noexcept override { return m_.c_str(); }
  const std::string& stack_trace() const noexcept { return m_; }
 private:
  std::string m_;
};
class RuntimeError : public Exception { public: using Exception::Exception; };
class LogicError : public Exception { public: using Exception::Exception; };
class EnforceNotMet : public Exception { public: using Exception::Exception; EnforceNotMet() {} };
class IoError : public RuntimeError { public: using RuntimeError::RuntimeError; };
class NetworkError : public Exception { public: using Exception::Exception; NetworkError() {} };
class InvalidFormat : public Exception { public: using Exception::Exception; };
class ArgumentError : public Exception { public: using Exception::Exception; };
class LinkError : public Exception { public: using Exception::Exception; };
namespace internal {
inline std::string Fmt() { return {}; }
template <class F, class... A> inline std::string Fmt(const F& f, const A&... a) { return fmt::format(f, a...); }
}
template <class T> inline T CheckNotNull(T&& t) { if (t == nullptr) throw EnforceNotMet("must be non NULL"); return std::forward<T>(t); }
}
#define YACL_ERROR_MSG(...) ::yacl::internal::Fmt(__VA_ARGS__)
#define YACL_THROW(...) throw ::yacl::Exception(::yacl::internal::Fmt(__VA_ARGS__))
#define YACL_THROW_WITH_STACK(...) throw ::yacl::Exception(::yacl::internal::Fmt(__VA_ARGS__))
#define YACL_THROW_HELPER(E, S, ...) throw E(::yacl::internal::Fmt(__VA_ARGS__))
#define YACL_THROW_LOGIC_ERROR(...) throw ::yacl::Exception(::yacl::internal::Fmt(__VA_ARGS__))
#define YACL_THROW_IO_ERROR(...) throw ::yacl::Exception(::yacl::internal::Fmt(__VA_ARGS__))
#define YACL_THROW_NETWORK_ERROR(...) throw ::yacl::NetworkError(::yacl::internal::Fmt(__VA_ARGS__))
#define YACL_THROW_INVALID_FORMAT(...) throw ::yacl::InvalidFormat(::yacl::internal::Fmt(__VA_ARGS__))
#define YACL_THROW_ARGUMENT_ERROR(...) throw ::yacl::ArgumentError(::yacl::internal::Fmt(__VA_ARGS__))
#define YACL_ENFORCE(C, ...) do { if (!(C)) throw ::yacl::EnforceNotMet(::yacl::internal::Fmt(__VA_ARGS__)); } while (false)
#define YACL_ENFORCE_OP_(a, op, b, ...) do { if (!((a) op (b))) throw ::yacl::EnforceNotMet(::yacl::internal::Fmt(__VA_ARGS__)); } while (false)
#define YACL_ENFORCE_EQ(a, b, ...) YACL_ENFORCE_OP_(a, ==, b, ##__VA_ARGS__)
#define YACL_ENFORCE_NE(a, b, ...) YACL_ENFORCE_OP_(a, !=, b, ##__VA_ARGS__)
#define YACL_ENFORCE_LT(a, b, ...) YACL_ENFORCE_OP_(a, <, b, ##__VA_ARGS__)
#define YACL_ENFORCE_LE(a, b, ...) YACL_ENFORCE_OP_(a, <=, b, ##__VA_ARGS__)
#define YACL_ENFORCE_GT(a, b, ...) YACL_ENFORCE_OP_(a, >, b, ##__VA_ARGS__)
#define YACL_ENFORCE_GE(a, b, ...) YACL_ENFORCE_OP_(a, >=, b, ##__VA_ARGS__)
// as in a release build
#define WEAK_ENFORCE(C, ...) do { (void)sizeof(bool(C)); } while (false)
