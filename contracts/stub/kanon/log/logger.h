// Replaces kanon/log/logger.h in the extraction of the network code: log statements are
// dropped (their operands are not evaluated); a FATAL statement ends the execution, as the
// real one does (it aborts the process).
#ifndef KANON_LOGGER_H
#define KANON_LOGGER_H
#include <functional>
#include "kanon/string/string_view.h"
#include "kanon/util/macro.h"
#include "kanon/util/noncopyable.h"
#include "kv.h"
namespace kanon {
struct KvLog { template <class T> KvLog const &operator<<(T const &) const { return *this; } };
struct KvFatal { KvFatal() { kv_pathend(); } template <class T> KvFatal const &operator<<(T const &) const { return *this; } };
struct Logger : noncopyable {           // defined by the contracts that need it
  using OutputCallback = std::function<void(char const *, size_t)>;
  using FlushCallback = std::function<void()>;
  static void SetColor(bool);
  static void SetOutputCallback(OutputCallback);
  static void SetFlushCallback(FlushCallback);
};
inline char const *strerror_tl(int) { return ""; }
inline void SetKanonLog(bool) {}
inline void EnableAllLog(bool) {}
#define KV_NOLOG while (false) kanon::KvLog()
#define LOG_TRACE KV_NOLOG
#define LOG_DEBUG KV_NOLOG
#define LOG_INFO KV_NOLOG
#define LOG_WARN KV_NOLOG
#define LOG_ERROR KV_NOLOG
#define LOG_SYSERROR KV_NOLOG
#define LOG_FATAL kanon::KvFatal()
#define LOG_SYSFATAL kanon::KvFatal()
#define LOG_TRACE_KANON KV_NOLOG
#define LOG_DEBUG_KANON KV_NOLOG
#define LOG_INFO_KANON KV_NOLOG
#define LOG_WARN_KANON KV_NOLOG
#define LOG_ERROR_KANON KV_NOLOG
#define LOG_SYSERROR_KANON KV_NOLOG
}
#endif
