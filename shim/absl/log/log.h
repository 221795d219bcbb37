// Minimal stand-in for absl/log (the sandbox's Abseil 20220623 predates it).
// Only the macros ceres-solver uses.  Semantics follow Abseil's documentation:
//   LOG(FATAL) and failed CHECKs write the message to stderr and abort();
//   LOG(severity) below FATAL and VLOG(n) are filtered (but the streamed
//   expressions of an enabled statement are evaluated);
//   DCHECKs are CHECKs unless NDEBUG is defined.
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_

#include <cstdlib>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <type_traits>

namespace verif_shim {

enum Severity { kINFO = 0, kWARNING = 1, kERROR = 2, kFATAL = 3 };

// Process-wide settings a harness may change.
inline int& MinLogLevel() { static int v = 3; return v; }   // below: discarded
inline int& VLogLevel() { static int v = -1; return v; }
inline long& LogCounter(int severity) { static long c[4] = {0, 0, 0, 0}; return c[severity]; }

class Null {
 public:
  template <typename T> Null& operator<<(const T&) { return *this; }
  Null& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};

class Message {
 public:
  Message(const char* file, int line, int severity)
      : severity_(severity) {
    stream_ << "[" << "IWEF"[severity] << " " << file << ":" << line << "] ";
  }
  Message(const char* file, int line, int severity, const std::string& text)
      : Message(file, line, severity) { stream_ << text; }
  ~Message() {
    if (severity_ != kFATAL) {
      __atomic_add_fetch(&LogCounter(severity_), 1, __ATOMIC_RELAXED);
    }
    if (severity_ >= MinLogLevel()) {
      stream_ << "\n";
      const std::string s = stream_.str();
      fwrite(s.data(), 1, s.size(), stderr);
      fflush(stderr);
    }
    if (severity_ == kFATAL) abort();
  }
  std::ostream& stream() { return stream_; }
  template <typename T> Message& operator<<(const T& v) { stream_ << v; return *this; }
  Message& operator<<(std::ostream& (*f)(std::ostream&)) { stream_ << f; return *this; }

 private:
  int severity_;
  std::ostringstream stream_;
};

struct FatalMessage : Message {
  using Message::Message;
  [[noreturn]] ~FatalMessage() {
    stream() << "\n";
    const std::string s = static_cast<std::ostringstream&>(stream()).str();
    fwrite(s.data(), 1, s.size(), stderr);
    fflush(stderr);
    abort();
  }
};

struct Voidify {
  template <typename T> void operator&&(const T&) const {}
};

template <typename T, typename = void> struct Printable : std::false_type {};
template <typename T>
struct Printable<T, std::void_t<decltype(std::declval<std::ostream&>() << std::declval<const T&>())>> : std::true_type {};

template <typename T>
void Print(std::ostream& os, const T& v) {
  if constexpr (std::is_same_v<T, std::nullptr_t>) os << "(null)";
  else if constexpr (Printable<T>::value) os << v;
  else os << "?";
}

// Returns null when the check passed, otherwise the failure text.
template <typename A, typename B>
std::string* FailText(const A& a, const B& b, const char* expr) {
  std::ostringstream os;
  os << "Check failed: " << expr << " (";
  Print(os, a); os << " vs. "; Print(os, b); os << ") ";
  return new std::string(os.str());
}
#define VERIF_SHIM_DEFINE_OP(name, op)                                      \
  template <typename A, typename B>                                         \
  inline std::string* Check##name(const A& a, const B& b, const char* e) {  \
    if (__builtin_expect(!!(a op b), 1)) return nullptr;                    \
    return FailText(a, b, e);                                               \
  }
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wsign-compare"
VERIF_SHIM_DEFINE_OP(EQ, ==)
VERIF_SHIM_DEFINE_OP(NE, !=)
VERIF_SHIM_DEFINE_OP(LE, <=)
VERIF_SHIM_DEFINE_OP(LT, <)
VERIF_SHIM_DEFINE_OP(GE, >=)
VERIF_SHIM_DEFINE_OP(GT, >)
#pragma GCC diagnostic pop

}  // namespace verif_shim

#define VERIF_SHIM_LOG_INFO ::verif_shim::Message(__FILE__, __LINE__, ::verif_shim::kINFO)
#define VERIF_SHIM_LOG_WARNING ::verif_shim::Message(__FILE__, __LINE__, ::verif_shim::kWARNING)
#define VERIF_SHIM_LOG_ERROR ::verif_shim::Message(__FILE__, __LINE__, ::verif_shim::kERROR)
#define VERIF_SHIM_LOG_FATAL ::verif_shim::FatalMessage(__FILE__, __LINE__, ::verif_shim::kFATAL)
#define VERIF_SHIM_LOG_QFATAL VERIF_SHIM_LOG_FATAL

#define LOG(severity) VERIF_SHIM_LOG_##severity
#define LOG_IF(severity, cond) \
  switch (0) case 0: default: !(cond) ? (void)0 : ::verif_shim::Voidify() && LOG(severity)
#define VLOG_IS_ON(n) ((n) <= ::verif_shim::VLogLevel())
#define VLOG(n) \
  switch (0) case 0: default: !VLOG_IS_ON(n) ? (void)0 : ::verif_shim::Voidify() && LOG(INFO)
#define DLOG(severity) LOG(severity)

#endif
