#ifndef STUB_ROS_CONSOLE_H
#define STUB_ROS_CONSOLE_H
#include <cstdio>
#include <iostream>
#define STUB_LOGF(...) do { char stub_buf_[512]; snprintf(stub_buf_, sizeof stub_buf_, __VA_ARGS__); std::cerr << stub_buf_ << std::endl; } while (0)
#define STUB_LOGS(x) do { std::cerr << x << std::endl; } while (0)
#define ROS_DEBUG(...) STUB_LOGF(__VA_ARGS__)
#define ROS_INFO(...) STUB_LOGF(__VA_ARGS__)
#define ROS_WARN(...) STUB_LOGF(__VA_ARGS__)
#define ROS_ERROR(...) STUB_LOGF(__VA_ARGS__)
#define ROS_FATAL(...) STUB_LOGF(__VA_ARGS__)
#define ROS_INFO_ONCE(...) STUB_LOGF(__VA_ARGS__)
#define ROS_WARN_ONCE(...) STUB_LOGF(__VA_ARGS__)
#define ROS_INFO_THROTTLE(r, ...) STUB_LOGF(__VA_ARGS__)
#define ROS_WARN_THROTTLE(r, ...) STUB_LOGF(__VA_ARGS__)
#define ROS_ERROR_THROTTLE(r, ...) STUB_LOGF(__VA_ARGS__)
#define ROS_DEBUG_STREAM(x) STUB_LOGS(x)
#define ROS_INFO_STREAM(x) STUB_LOGS(x)
#define ROS_WARN_STREAM(x) STUB_LOGS(x)
#define ROS_ERROR_STREAM(x) STUB_LOGS(x)
#define ROS_FATAL_STREAM(x) STUB_LOGS(x)
#define ROS_INFO_STREAM_ONCE(x) STUB_LOGS(x)
#define ROS_WARN_STREAM_ONCE(x) STUB_LOGS(x)
#define ROS_ERROR_STREAM_ONCE(x) STUB_LOGS(x)
#define ROS_LOG_STREAM_THROTTLE(r, x) STUB_LOGS(x)
#define ROS_INFO_STREAM_THROTTLE(r, x) STUB_LOGS(x)
#define ROS_WARN_STREAM_THROTTLE(r, x) STUB_LOGS(x)
#define ROS_ERROR_STREAM_THROTTLE(r, x) STUB_LOGS(x)
#define ROS_INFO_COND(c, ...) do { if (c) STUB_LOGF(__VA_ARGS__); } while (0)
#define ROS_WARN_COND(c, ...) ROS_INFO_COND(c, __VA_ARGS__)
#define ROS_INFO_STREAM_COND(c, x) do { if (c) STUB_LOGS(x); } while (0)
#define ROS_WARN_STREAM_COND(c, x) do { if (c) STUB_LOGS(x); } while (0)
#define ROS_ERROR_STREAM_COND(c, x) do { if (c) STUB_LOGS(x); } while (0)
#define ROS_ASSERT(c)
#define ROS_ASSERT_MSG(c, ...)
#endif
