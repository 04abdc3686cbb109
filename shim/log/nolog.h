// Stands in for kio/core/async_logger.h: logging has no effect on the properties checked with it.
#pragma once
#define KIO_ASYNC_LOGGER_H
#include <array>
#include <cerrno>
#include <chrono>
#include <cstring>
#include <format>
#include <functional>
#include <iostream>
#include <memory>
#include <source_location>
#include <span>
#include <string>
#include <string_view>
#include <syncstream>
#include <sys/eventfd.h>
#include <thread>
#include <unistd.h>
#include <kio/sync/mpsc_queue.h>
namespace kio {
enum class LogLevel : uint8_t { Disabled = 0, Trace, Debug, Info, Warn, Error };
inline int64_t get_thread_id() noexcept { return 1; }
namespace alog {
inline void configure(size_t = 1024, LogLevel = LogLevel::Info, std::ostream& = std::cout) {}
template <class... A> void trace(const std::source_location&, std::format_string<A...>, A&&...) {}
template <class... A> void debug(const std::source_location&, std::format_string<A...>, A&&...) {}
template <class... A> void info(const std::source_location&, std::format_string<A...>, A&&...) {}
template <class... A> void warn(const std::source_location&, std::format_string<A...>, A&&...) {}
template <class... A> void error(const std::source_location&, std::format_string<A...>, A&&...) {}
}
}
#define KSE_NOLOG(f, ...) do { if (false) ::kio::alog::f(std::source_location::current(), __VA_ARGS__); } while (0)
#define ALOG_TRACE(...) KSE_NOLOG(trace, __VA_ARGS__)
#define ALOG_DEBUG(...) KSE_NOLOG(debug, __VA_ARGS__)
#define ALOG_INFO(...) KSE_NOLOG(info, __VA_ARGS__)
#define ALOG_WARN(...) KSE_NOLOG(warn, __VA_ARGS__)
#define ALOG_ERROR(...) KSE_NOLOG(error, __VA_ARGS__)
