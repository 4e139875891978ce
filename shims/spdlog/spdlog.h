#pragma once
// logging has no effect on any property; arguments are still evaluated as in
// the real macros of an enabled level
#include <mutex>
#include <thread>
#include "fmt/format.h"
namespace spdlog {
namespace level { enum level_enum { trace, debug, info, warn, err, critical, off }; }
namespace detail { template <class... A> inline void eat(const A&...) {} }
inline void set_level(level::level_enum) {}
inline void flush_on(level::level_enum) {}
template <class... A> inline void info(const A&...) {}
template <class... A> inline void warn(const A&...) {}
template <class... A> inline void error(const A&...) {}
template <class... A> inline void debug(const A&...) {}
namespace details { namespace os { inline size_t thread_id() { return 0; } inline int pid() { return 1; } } }
}
#define SPDLOG_TRACE(...) (void)0
#define SPDLOG_DEBUG(...) (void)0
#define SPDLOG_INFO(...) ::spdlog::detail::eat(__VA_ARGS__)
#define SPDLOG_WARN(...) ::spdlog::detail::eat(__VA_ARGS__)
#define SPDLOG_ERROR(...) ::spdlog::detail::eat(__VA_ARGS__)
#define SPDLOG_CRITICAL(...) ::spdlog::detail::eat(__VA_ARGS__)
#define SPDLOG_LEVEL_TRACE 0
#define SPDLOG_LEVEL_DEBUG 1
#define SPDLOG_LEVEL_INFO 2
#define SPDLOG_LEVEL_WARN 3
#define SPDLOG_LEVEL_ERROR 4
#define SPDLOG_LEVEL_CRITICAL 5
#define SPDLOG_LEVEL_OFF 6
