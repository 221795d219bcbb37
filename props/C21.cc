// C21: trust-region steps obey the model they come from.
// pbt-build: flavor=asan
#include "block_gen.h"
#include "ceres/context_impl.h"
#include "ceres/dense_sparse_matrix.h"
#include "ceres/linear_solver.h"
#include "ceres/trust_region_step_evaluator.h"
#include "ceres/trust_region_strategy.h"
#include "pbt.h"

using namespace ceres;
using namespace ceres::internal;
using pbt::Case;
using LD = long double;

namespace {

ContextImpl* Ctx() {
  static ContextImpl* ctx = [] { auto* c = new ContextImpl; c->EnsureMinimumThreads(4); return c; }();
  return ctx;
}

using LVec = std::vector<LD>;

struct System {
  Matrix J;
  Vector r;
  int m() const { return J.rows(); }
  int n() const { return J.cols(); }
  LVec Times(const LVec& x) const {
    LVec y(m(), 0);
    for (int i = 0; i < m(); ++i) for (int j = 0; j < n(); ++j) y[i] += (LD)J(i, j) * x[j];
    return y;
  }
  LVec Gradient() const {
    LVec g(n(), 0);
    for (int i = 0; i < m(); ++i) for (int j = 0; j < n(); ++j) g[j] += (LD)J(i, j) * r(i);
    return g;
  }
  // Change of the model 1/2 |J s + r|^2.
  LD Model(const LVec& s) const {
    const LVec js = Times(s);
    LD v = 0;
    for (int i = 0; i < m(); ++i) v += js[i] * (js[i] / 2 + r(i));
    return v;
  }
};

LD Dot(const LVec& a, const LVec& b) { LD s = 0; for (size_t i = 0; i < a.size(); ++i) s += a[i] * b[i]; return s; }
LD Norm(const LVec& a) { return sqrtl(Dot(a, a)); }

// (J'J + D^2)^-1 J'r by Givens-free modified Gram-Schmidt on the stacked matrix, in long double.
LVec Damped(const System& s, const LVec& D) {
  const int n = s.n(), m = s.m() + n;
  std::vector<LVec> q(n, LVec(m, 0));
  LVec b(m, 0), x(n, 0);
  std::vector<LVec> R(n, LVec(n, 0));
  for (int j = 0; j < n; ++j) { for (int i = 0; i < s.m(); ++i) q[j][i] = s.J(i, j); q[j][s.m() + j] = D[j]; }
  for (int i = 0; i < s.m(); ++i) b[i] = s.r(i);
  for (int j = 0; j < n; ++j) {
    for (int pass = 0; pass < 2; ++pass)
      for (int k = 0; k < j; ++k) {
        const LD d = Dot(q[k], q[j]);
        R[k][j] += d;
        for (int i = 0; i < m; ++i) q[j][i] -= d * q[k][i];
      }
    R[j][j] = Norm(q[j]);
    for (LD& v : q[j]) v /= R[j][j];
  }
  for (int j = 0; j < n; ++j) { const LD d = Dot(q[j], b); x[j] = d; for (int i = 0; i < m; ++i) b[i] -= d * q[j][i]; }
  for (int j = n - 1; j >= 0; --j) { for (int k = j + 1; k < n; ++k) x[j] -= R[j][k] * x[k]; x[j] /= R[j][j]; }
  return x;
}

// Solves exactly, records what it was asked, and fails on request.
class RecordingSolver final : public LinearSolver {
 public:
  enum Mode { kSolve, kFail, kFatal, kNaN };
  const System* system = nullptr;
  std::vector<Mode> plan;  // modes of the next calls
  struct Call { LVec D; double q, r; LVec x; };
  std::vector<Call> calls;
  bool wrong_input = false;

  Summary Solve(LinearOperator* A, const double* b, const PerSolveOptions& o, double* x) final {
    const Mode mode = calls.size() < plan.size() ? plan[calls.size()] : kSolve;
    const int n = system->n();
    Call c;
    c.q = o.q_tolerance;
    c.r = o.r_tolerance;
    wrong_input |= A->num_rows() != system->m() || A->num_cols() != n || o.D == nullptr;
    for (int i = 0; i < system->m(); ++i) wrong_input |= b[i] != system->r(i);
    if (o.D) c.D.assign(o.D, o.D + n);
    Summary s;
    s.num_iterations = 3 + calls.size();
    s.residual_norm = 0.25;
    if (mode == kFail || mode == kFatal) {
      s.termination_type = mode == kFail ? LinearSolverTerminationType::FAILURE : LinearSolverTerminationType::FATAL_ERROR;
    } else {
      s.termination_type = LinearSolverTerminationType::SUCCESS;
      c.x = Damped(*system, c.D);
      for (int i = 0; i < n; ++i) x[i] = (double)c.x[i];
      if (mode == kNaN) x[n / 2] = NAN;
      for (int i = 0; i < n; ++i) c.x[i] = x[i];
    }
    calls.push_back(c);
    return s;
  }
};

System GenSystem(Case& c, int n) {
  System s;
  const int m = c.range(1, n + 4);
  const uint64_t seed = c.draw((1u << 30) - 1) + 1;
  s.J.resize(m, n);
  s.r = bg::NoiseVector(seed, m, 2, 1.0) * c.pick({1.0, 1.0, 1e-3, 1e4});
  const int spread = c.range(0, 4), style = c.range(0, 3);
  for (int j = 0; j < n; ++j) {
    const double scale = std::pow(10.0, spread * bg::Noise(seed, j, 4));
    for (int i = 0; i < m; ++i) {
      double v = bg::Noise(seed, i * 100 + j, 5) * scale;
      if (style == 1) v = std::floor(v * 4);
      if (style == 2 && j > 0) v = s.J(i, 0) * 0.5 + v * 1e-3;  // nearly dependent columns
      if (style == 3 && j % 3 == 2) v = 0;
      s.J(i, j) = v;
    }
  }
  return s;
}

std::string Describe(const System& s) {
  std::ostringstream os;
  os << s.m() << "x" << s.n();
  if (s.m() * s.n() <= 6) { os << " J=["; for (int i = 0; i < s.m(); ++i) for (int j = 0; j < s.n(); ++j) os << s.J(i, j) << " "; os << "] r=[" << s.r.transpose() << "]"; }
  return os.str();
}

double Clamp(double v, double lo, double hi) { return std::min(std::max(v, lo), hi); }

LVec Diagonal(const System& s, double lo, double hi) {  // clamped squared column norms
  LVec d(s.n());
  for (int j = 0; j < s.n(); ++j) {
    LD v = 0;
    for (int i = 0; i < s.m(); ++i) v += (LD)s.J(i, j) * s.J(i, j);
    d[j] = Clamp((double)v, lo, hi);
  }
  return d;
}

struct Common {
  TrustRegionStrategy::Options o;
  RecordingSolver solver;
  std::unique_ptr<TrustRegionStrategy> t;
  TrustRegionStrategy::PerSolveOptions per;
  void Create(Case& c) {
    o.linear_solver = &solver;
    o.context = Ctx();
    o.num_threads = c.range(1, 4);
    o.initial_radius = c.coin() ? 1e4 : std::pow(10.0, c.real(-6, 6));
    o.max_radius = c.coin() ? 1e16 : o.initial_radius * std::pow(10.0, c.real(0, 3));
    o.min_lm_diagonal = c.pick({1e-6, 1e-6, 1e-2, 1.0});
    o.max_lm_diagonal = c.pick({1e32, 1e32, 10.0, 1.0});
    per.eta = c.pick({1e-1, 1e-3, 0.5});
    t = TrustRegionStrategy::Create(o);
  }
  RecordingSolver::Mode Mode(Case& c, bool fatal) {
    if (!c.chance(1, 8)) return RecordingSolver::kSolve;
    return fatal ? c.pick({RecordingSolver::kFail, RecordingSolver::kNaN, RecordingSolver::kFatal}) : c.pick({RecordingSolver::kFail, RecordingSolver::kNaN});
  }
};

double GenQuality(Case& c) { return c.pick({0.0, 0.1, 0.24, 0.26, 0.5, 0.74, 0.76, 1.0, 1.5, 3.0}) + c.real(1e-4, 9e-3); }

void LevenbergMarquardt(Case& c) {
  Common k;
  k.o.trust_region_strategy_type = LEVENBERG_MARQUARDT;
  k.Create(c);
  System s = GenSystem(c, c.size(1, 8));
  k.solver.system = &s;
  c.note() << Describe(s) << " radius " << k.o.initial_radius << " max " << k.o.max_radius << " diagonal [" << k.o.min_lm_diagonal << "," << k.o.max_lm_diagonal << "]:";
  REQUIRE("initial-radius", k.t->Radius() == k.o.initial_radius, k.t->Radius());
  double radius = k.o.initial_radius, factor = 2;
  LVec diagonal = Diagonal(s, k.o.min_lm_diagonal, k.o.max_lm_diagonal);
  const int steps = c.size(1, 12);
  bool rejected = false;
  for (int i = 0; i < steps; ++i) {
    DenseSparseMatrix J(s.m(), s.n());
    *J.mutable_matrix() = s.J;
    k.solver.calls.clear();
    const auto mode = k.Mode(c, true);
    k.solver.plan = {mode};
    Vector step = Vector::Constant(s.n() + 1, 6.0);
    const auto summary = k.t->ComputeStep(k.per, &J, s.r.data(), step.data());
    REQUIRE("bounds", step(s.n()) == 6.0, "");
    REQUIRE("solver-calls", k.solver.calls.size() == 1 && !k.solver.wrong_input, k.solver.calls.size());
    const auto& call = k.solver.calls[0];
    REQUIRE("tolerances", call.q == k.per.eta && call.r < 0, call.q, " ", call.r);
    for (int j = 0; j < s.n(); ++j) REQUIRE_CLOSE("damping", (double)call.D[j], (double)sqrtl(diagonal[j] / radius), 1e-13, (double)call.D[j], "column ", j, " radius ", radius);
    REQUIRE("iterations", summary.num_iterations == 3, summary.num_iterations);
    const auto want = mode == RecordingSolver::kSolve ? LinearSolverTerminationType::SUCCESS : mode == RecordingSolver::kFatal ? LinearSolverTerminationType::FATAL_ERROR : LinearSolverTerminationType::FAILURE;
    REQUIRE("termination", summary.termination_type == want, "step ", i);
    if (mode == RecordingSolver::kFatal) break;
    if (mode == RecordingSolver::kSolve) {
      // The minimiser of the damped model.
      LVec D(s.n());
      for (int j = 0; j < s.n(); ++j) D[j] = sqrtl(diagonal[j] / radius);
      const LVec x = Damped(s, D);
      const LD size = Norm(x);
      for (int j = 0; j < s.n(); ++j) REQUIRE("step", std::fabs(step(j) + (double)x[j]) <= 1e-9 * (double)size, j, ": ", step(j), " want ", -(double)x[j], " step ", i);
    }
    const int what = mode != RecordingSolver::kSolve ? 2 : c.pick({0, 0, 1, 1, 2});
    if (what == 0) {
      const double q = GenQuality(c);
      c.note() << " accept " << q;
      k.t->StepAccepted(q);
      radius = std::min(k.o.max_radius, radius / std::max(1.0 / 3.0, 1 - std::pow(2 * q - 1, 3)));
      factor = 2;
      s = GenSystem(c, s.n());
      diagonal = Diagonal(s, k.o.min_lm_diagonal, k.o.max_lm_diagonal);
    } else {
      c.note() << (what == 1 ? " reject" : " invalid");
      if (what == 1) k.t->StepRejected(-1.0); else k.t->StepIsInvalid();
      radius /= factor;
      factor *= 2;
      rejected = true;
    }
    REQUIRE_CLOSE("radius", k.t->Radius(), radius, 1e-13, radius, "step ", i);
    REQUIRE("max-radius", k.t->Radius() <= k.o.max_radius, k.t->Radius());
    radius = k.t->Radius();
  }
  c.label(rejected ? "rejections" : "accepted only");
  c.nontrivial(steps > 1);
}

void Dogleg(Case& c) {
  Common k;
  k.o.trust_region_strategy_type = DOGLEG;
  k.o.dogleg_type = c.pick({TRADITIONAL_DOGLEG, SUBSPACE_DOGLEG});
  k.Create(c);
  const bool subspace = k.o.dogleg_type == SUBSPACE_DOGLEG;
  System s = GenSystem(c, c.size(1, 8));
  k.solver.system = &s;
  c.note() << Describe(s) << (subspace ? " subspace" : " traditional") << " radius " << k.o.initial_radius << " max " << k.o.max_radius << " diagonal [" << k.o.min_lm_diagonal << "," << k.o.max_lm_diagonal << "]:";
  double radius = k.o.initial_radius, mu = 1e-8;
  const auto root = [&] { LVec d = Diagonal(s, k.o.min_lm_diagonal, k.o.max_lm_diagonal); for (LD& v : d) v = sqrtl(v); return d; };
  LVec diag = root(), gn;
  bool reuse = false, interpolated = false, cut = false, gauss_newton = false;
  const int steps = c.size(1, 12);
  for (int i = 0; i < steps; ++i) {
    DenseSparseMatrix J(s.m(), s.n());
    *J.mutable_matrix() = s.J;
    k.solver.calls.clear();
    k.solver.plan.clear();
    bool fatal = false;
    for (int a = 0; a < 12; ++a) { k.solver.plan.push_back(k.Mode(c, false)); if (k.solver.plan.back() == RecordingSolver::kSolve) break; }
    if (c.chance(1, 30)) { k.solver.plan.back() = RecordingSolver::kFatal; fatal = true; }
    Vector step = Vector::Constant(s.n() + 1, 6.0);
    const auto summary = k.t->ComputeStep(k.per, &J, s.r.data(), step.data());
    REQUIRE("bounds", step(s.n()) == 6.0, "");
    REQUIRE("solver-input", !k.solver.wrong_input, "");
    bool solved = reuse;
    if (reuse) {
      REQUIRE("solver-calls", k.solver.calls.empty() && summary.num_iterations == 0, k.solver.calls.size(), " solves after a rejected step");
      REQUIRE("termination", summary.termination_type == LinearSolverTerminationType::SUCCESS, "");
      fatal = false;
    } else {
      // Retries with more regularisation until the solver succeeds.
      size_t at = 0;
      bool stop = false;
      while (mu < 1.0 && !solved && !stop) {
        REQUIRE("solver-calls", at < k.solver.calls.size(), at);
        const auto& call = k.solver.calls[at];
        REQUIRE("tolerances", call.q == 0 && call.r == 0, call.q, " ", call.r);
        for (int j = 0; j < s.n(); ++j) REQUIRE_CLOSE("damping", (double)call.D[j], (double)(diag[j] * sqrtl(mu)), 1e-13, (double)call.D[j], "column ", j, " mu ", mu);
        const auto mode = at < k.solver.plan.size() ? k.solver.plan[at] : RecordingSolver::kSolve;
        if (mode == RecordingSolver::kFatal) { stop = true; break; }
        if (mode == RecordingSolver::kSolve) { solved = true; gn = call.x; for (int j = 0; j < s.n(); ++j) gn[j] *= -diag[j]; }
        else mu *= 10;
        ++at;
      }
      REQUIRE("solver-calls", k.solver.calls.size() == at + stop, k.solver.calls.size(), " want ", at + stop);
      if (stop) { REQUIRE("termination", summary.termination_type == LinearSolverTerminationType::FATAL_ERROR, ""); break; }
      fatal = false;
    }
    const LVec g = s.Gradient();
    LVec gs(s.n());
    for (int j = 0; j < s.n(); ++j) gs[j] = g[j] / diag[j];
    const LD gnorm = Norm(gs);
    bool usable = solved;
    if (!solved) REQUIRE("termination", summary.termination_type == LinearSolverTerminationType::FAILURE, "step ", i);
    else if (subspace && gnorm <= 1e-12L * s.J.norm() * s.r.norm()) usable = summary.termination_type == LinearSolverTerminationType::SUCCESS;
    else REQUIRE("termination", summary.termination_type == LinearSolverTerminationType::SUCCESS, "step ", i);
    LD length = 0;
    if (usable && gnorm > 1e-12L * s.J.norm() * s.r.norm() && gnorm > 0) {
      LVec st(s.n()), scaled(s.n());
      for (int j = 0; j < s.n(); ++j) {
        REQUIRE("finite", std::isfinite(step(j)), j, ": ", step(j));
        st[j] = step(j);
        scaled[j] = st[j] * diag[j];
      }
      length = Norm(scaled);
      REQUIRE("region", length <= radius * (1 + 1e-9L), (double)length, " radius ", radius, " step ", i);
      const LD model = s.Model(st), floor = 1e-12L * (LD)(s.r.norm() * (s.J.norm() * Norm(st) + 1e-300L)) ;
      // Cauchy point.
      LVec u(s.n());
      for (int j = 0; j < s.n(); ++j) u[j] = gs[j] / diag[j];
      const LVec ju = s.Times(u);
      const LD alpha = gnorm * gnorm / Dot(ju, ju);
      const LD t = std::min(alpha, radius / gnorm);
      for (LD& v : u) v *= -t;
      const LD cauchy = s.Model(u);
      const LD slack = mu * (t * gnorm) * (t * gnorm) + floor + 1e-9L * fabsl(cauchy);
      REQUIRE("cauchy-decrease", model <= cauchy + slack, (double)model, " Cauchy ", (double)cauchy, " slack ", (double)slack, " step ", i, " mu ", mu);
      const LD gnn = Norm(gn);
      if (gnn <= radius * (1 - 1e-12L)) {
        gauss_newton = true;
        for (int j = 0; j < s.n(); ++j) REQUIRE("gauss-newton", std::fabs((double)(scaled[j] - gn[j])) <= 1e-12 * (double)gnn, j, ": ", (double)scaled[j], " want ", (double)gn[j], " step ", i);
      } else if (gnn > radius * (1 + 1e-12L)) {
        // The traditional step.
        LVec d(s.n());
        if (alpha * gnorm >= radius) {
          for (int j = 0; j < s.n(); ++j) d[j] = -radius / gnorm * gs[j];
          cut = true;
        } else {
          LVec a(s.n()), w(s.n());
          for (int j = 0; j < s.n(); ++j) { a[j] = -alpha * gs[j]; w[j] = gn[j] - a[j]; }
          const LD aw = Dot(a, w), ww = Dot(w, w), rest = (LD)radius * radius - Dot(a, a), disc = sqrtl(aw * aw + ww * rest);
          const LD beta = aw <= 0 ? (disc - aw) / ww : rest / (disc + aw);
          for (int j = 0; j < s.n(); ++j) d[j] = a[j] + beta * w[j];
          interpolated = true;
        }
        LVec tr = d;
        for (int j = 0; j < s.n(); ++j) tr[j] /= diag[j];
        const LD traditional = s.Model(tr);
        if (!subspace) {
          for (int j = 0; j < s.n(); ++j) REQUIRE("dogleg", std::fabs((double)(scaled[j] - d[j])) <= 1e-7 * radius, j, ": ", (double)scaled[j], " want ", (double)d[j], " step ", i);
        } else {
          REQUIRE("subspace", model <= traditional + floor + 1e-6L * fabsl(traditional), (double)model, " traditional ", (double)traditional, " step ", i);
        }
      }
    }
    const int what = !solved || summary.termination_type != LinearSolverTerminationType::SUCCESS ? 2 : c.pick({0, 0, 1, 1, 2});
    if (what == 0) {
      const double q = GenQuality(c);
      c.note() << " accept " << q;
      k.t->StepAccepted(q);
      const double before = radius;
      if (q < 0.25) radius *= 0.5;
      if (q > 0.75 && length > 0) radius = std::min(k.o.max_radius, std::max(radius, 3 * (double)length));
      mu = std::max(1e-8, 0.2 * mu);
      if (length > 0 || q <= 0.75) REQUIRE_CLOSE("radius", k.t->Radius(), radius, 1e-9, radius, "step ", i, " from ", before, " length ", (double)length);
      reuse = false;
      s = GenSystem(c, s.n());
      diag = root();
    } else if (what == 1) {
      c.note() << " reject";
      k.t->StepRejected(-1.0);
      radius *= 0.5;
      reuse = true;
      REQUIRE_CLOSE("radius", k.t->Radius(), radius, 1e-13, radius, "step ", i);
    } else {
      c.note() << " invalid";
      k.t->StepIsInvalid();
      mu *= 10;
      reuse = false;
      REQUIRE_CLOSE("radius", k.t->Radius(), radius, 1e-13, radius, "step ", i);
    }
    REQUIRE("max-radius", k.t->Radius() <= k.o.max_radius, k.t->Radius());
    radius = k.t->Radius();
  }
  if (gauss_newton) c.label("Gauss-Newton");
  if (cut) c.label("cut Cauchy");
  if (interpolated) c.label("interpolated");
  c.nontrivial(cut || interpolated);
}

void Evaluator(Case& c) {
  const int window = c.range(0, 4);
  double cost = 100 + c.unit() * 10;
  const double initial = cost;
  TrustRegionStepEvaluator e(cost, window);
  // Algorithm 10.1.2 of Conn, Gould and Toint.
  double fmin = cost, fr = cost, fc = cost, sr = 0, sc = 0;
  int l = 0;
  const int steps = c.size(1, 14);
  c.note() << "window " << window << ":";
  bool nonmonotone = false;
  std::vector<double> accepted{cost};
  for (int i = 0; i < steps; ++i) {
    const double candidate = c.chance(1, 10) ? std::numeric_limits<double>::max() : std::max(0.0, cost * (c.coin() ? 1.0 : c.real(0.4, 1.6)) + c.real(-8, 5));
    const double change = c.logreal(1e-3, 50);
    const double q = e.StepQuality(candidate, change);
    if (candidate == std::numeric_limits<double>::max()) {
      REQUIRE("failed-evaluation", q == std::numeric_limits<double>::lowest(), q);
      continue;
    }
    const double want = std::max((cost - candidate) / change, (fr - candidate) / (sr + change));
    REQUIRE_CLOSE("quality", q, want, 1e-12, std::fabs(want) + 1e-9 * std::fabs(cost) / change, "step ", i);
    if (window == 0) REQUIRE("monotone", (q > 1e-9) <= (candidate < cost), "quality ", q, " for a cost change of ", candidate - cost);
    if (!(q > 1e-3)) { c.note() << " -"; continue; }
    nonmonotone |= candidate > cost;
    c.note() << " " << candidate;
    e.StepAccepted(candidate, change);
    cost = candidate;
    accepted.push_back(cost);
    sc += change;
    sr += change;
    if (cost < fmin) { fmin = fc = cost; sc = 0; l = 0; }
    else { ++l; if (cost > fc) { fc = cost; sc = 0; } }
    if (l == window) { fr = fc; sr = sc; }
    REQUIRE("bounded", cost <= initial, "a step was accepted above the initial cost: ", cost, " > ", initial);
  }
  if (nonmonotone) c.label("non-monotone");
  c.nontrivial(nonmonotone || window == 0);
}

}  // namespace

PBT_PROP(levenberg_marquardt, 60000, 3000000) { LevenbergMarquardt(c); }
PBT_PROP(dogleg, 400000, 8000000) { Dogleg(c); }
PBT_PROP(evaluator, 60000, 3000000) { Evaluator(c); }

PBT_MAIN("C21", "several steps were taken; for dogleg at least one of them was limited by the region")
