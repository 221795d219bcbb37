// A small property-based testing engine.
//
// Every generated case is a pure function of a "tape": the finite sequence of
// bounded integers the generator drew.  While searching, tape values come from
// a PRNG seeded by (VERIF_SEED, sub-property, case index); a failing tape is
// shrunk (internal shrinking: delete / zero / lower tape values and re-run),
// and the shrunk tape is the replay file.  Cases run in forked workers, so
// aborts, signals and hangs are failures of the case, not of the harness.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Discard {};
struct Failure {
  std::string tag;  // which oracle clause failed (identifies a known finding)
  std::string msg;
};

class Case {
 public:
  // ---- choices -----------------------------------------------------------
  uint64_t draw(uint64_t max);                   // uniform in [0, max]
  int range(int lo, int hi) {                    // uniform, shrinks to lo
    if (hi <= lo) return lo;
    return lo + static_cast<int>(draw(static_cast<uint64_t>(static_cast<int64_t>(hi) - lo)));
  }
  bool coin() { return draw(1) == 1; }           // shrinks to false
  // true with probability num/den; shrinks to false.
  bool chance(int num, int den) {
    return draw(static_cast<uint64_t>(den) - 1) >= static_cast<uint64_t>(den - num);
  }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
  template <typename T> T pick(std::initializer_list<T> v) { return v.begin()[draw(v.size() - 1)]; }
  double unit() { return static_cast<double>(draw((1ull << 40) - 1)) / static_cast<double>(1ull << 40); }  // [0,1)
  // A symmetric scalar in [-scale, scale]; mixes "nice" values and uniforms.
  double sym(double scale = 1.0);
  // Uniform in [lo, hi), shrinks to lo.
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
  // Log-uniform magnitude in [lo, hi].
  double logreal(double lo, double hi) {
    return std::exp(std::log(lo) + (std::log(hi) - std::log(lo)) * unit());
  }
  double gauss() {  // roughly normal, bounded: sum of uniforms
    double s = 0;
    for (int i = 0; i < 4; ++i) s += unit() - 0.5;
    return s * 1.7320508;
  }
  // A size in [lo, hi] that tends to be small early in a run.
  int size(int lo, int hi) {
    int h = lo + static_cast<int>(static_cast<int64_t>(hi - lo) * (15 + size_) / 115.0 + 0.5);
    if (h > hi) h = hi;
    if (h < lo) h = lo;
    return range(lo, h);
  }
  std::vector<int> permutation(int n);

  // ---- classification ----------------------------------------------------
  void label(const std::string& s) { if (quiet_) return; ++labels_[s]; }
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void discard() { throw Discard(); }
  // Human-readable description of the case, shown in samples and replays.
  std::ostream& note() { return notes_; }

  // ---- verdict -----------------------------------------------------------
  [[noreturn]] void fail(const std::string& tag, const std::string& msg) { throw Failure{tag, msg}; }

  // ---- engine ------------------------------------------------------------
  uint64_t rng_ = 0;
  bool replay_ = false;
  size_t pos_ = 0;
  std::vector<uint64_t> tape_;       // recorded, or the source when replaying
  int size_ = 100;
  bool quiet_ = false;
  bool nontrivial_ = false;
  bool thorough_ = false;
  int64_t index_ = 0;
  std::map<std::string, int64_t> labels_;
  std::ostringstream notes_;
  void (*on_draw_)(uint64_t) = nullptr;
};

struct Sub {
  const char* name;
  int64_t quick;      // cases in the quick tier
  int64_t thorough;   // cases in the thorough tier
  void (*fn)(Case&);
  bool schedule;      // depends on real thread schedules: confirm by repetition
};
std::vector<Sub>& Subs();
struct Register {
  Register(const char* n, int64_t q, int64_t t, void (*f)(Case&), bool schedule = false) {
    Subs().push_back({n, q, t, f, schedule});
  }
};

int Main(int argc, char** argv, const char* property, const char* rule);

inline std::string Str() { return {}; }
template <typename... A>
std::string Str(const A&... a) {
  std::ostringstream os;
  os.precision(17);
  ((os << a), ...);
  return os.str();
}

// Relative-or-absolute closeness: |a-b| <= tol * max(scale, |a|, |b|).
inline bool Close(double a, double b, double tol, double scale = 1.0) {
  if (a == b) return true;
  if (!(std::isfinite(a) && std::isfinite(b))) {
    return (std::isnan(a) && std::isnan(b));
  }
  double m = std::fabs(scale);
  if (std::fabs(a) > m) m = std::fabs(a);
  if (std::fabs(b) > m) m = std::fabs(b);
  return std::fabs(a - b) <= tol * m;
}

}  // namespace pbt

#define PBT_PROP_(name, quick, thorough, sched)                          \
  static void pbt_##name(pbt::Case& c);                                  \
  static pbt::Register pbt_reg_##name(#name, quick, thorough, pbt_##name, sched); \
  static void pbt_##name(pbt::Case& c)
#define PBT_PROP(name, quick, thorough) PBT_PROP_(name, quick, thorough, false)
#define PBT_SCHEDULE_PROP(name, quick, thorough) PBT_PROP_(name, quick, thorough, true)
#define PBT_MAIN(property, rule) \
  int main(int argc, char** argv) { return pbt::Main(argc, argv, property, rule); }

// Fails the case when cond is false; `tag` names the oracle clause.
#define REQUIRE(tag, cond, ...)                                                   \
  do {                                                                            \
    if (!(cond)) c.fail(tag, pbt::Str(#cond, " is false; ", __VA_ARGS__));        \
  } while (0)
#define REQUIRE_CLOSE(tag, a, b, tol, scale, ...)                                 \
  do {                                                                            \
    const double pbt_a = (a), pbt_b = (b), pbt_t = (tol), pbt_s = (scale);        \
    if (!pbt::Close(pbt_a, pbt_b, pbt_t, pbt_s))                                  \
      c.fail(tag, pbt::Str(#a, "=", pbt_a, " vs ", #b, "=", pbt_b, " tol ", pbt_t, \
                           " scale ", pbt_s, "; ", __VA_ARGS__));                 \
  } while (0)

#endif
