// C14: loss functions are consistent with their derivatives and definitions.
// pbt-build: flavor=asan
#include <memory>

#include "problem_gen.h"

using namespace ceres;
using namespace pg;
using pbt::Case;

// A loss tree: like LossSpec, but deeper and with continuous parameters.
static LossSpec Tree(Case& c, int depth) {
  LossSpec l;
  const int k = c.range(0, depth > 0 ? 9 : 7);
  static const int kinds[] = {kTrivial, kHuber, kSoftL1, kCauchy, kArctan, kTolerant, kTukey, kHuber, kScaled, kComposed};
  l.kind = kinds[k];
  const bool nice = c.coin();
  l.a = nice ? c.pick({1.0, 0.5, 2.0, 10.0}) : c.logreal(1e-3, 1e3);
  l.b = nice ? c.pick({1.0, 0.5, 0.1}) : c.logreal(1e-2, 1e2);
  if (l.kind == kTolerant && c.chance(1, 6)) l.a = 0;
  if (l.kind == kScaled) {
    l.a = c.pick({2.0, 0.5, 1.0, 0.0, 1e-3, 100.0});
    l.sub.push_back(c.chance(1, 4) ? LossSpec() : Tree(c, depth - 1));
  }
  if (l.kind == kComposed) { l.sub.push_back(Tree(c, depth - 1)); l.sub.push_back(Tree(c, depth - 1)); }
  return l;
}
static double Threshold(const LossSpec& l) {  // where the formula changes
  if (l.kind == kHuber || l.kind == kTukey) return l.a * l.a;
  if (l.kind == kTolerant) return l.a;
  if (!l.sub.empty()) return Threshold(l.sub.back());
  return l.a;
}
static double GenS(Case& c, const LossSpec& l) {
  const double t = Threshold(l);
  switch (c.range(0, 9)) {
    case 0: return 0;
    case 1: case 2: return c.real(0, 2 * t + 1);
    case 3: return t;
    case 4: return std::nextafter(t, c.coin() ? 1e300 : 0);
    case 5: return t * (1 + c.pick({1.0, -1.0}) * c.logreal(1e-14, 1e-2));
    case 6: return c.logreal(1e-300, 1);
    case 7: return c.logreal(1, 1e30);
    case 8: return c.logreal(1e-3, 1e6);
    default: return c.pick({1.0, 1e-16, 4.0, 1e100});
  }
}
// How far a rounding error of relative size eps in the intermediate values can move the three
// numbers: evaluated from the reference at slightly different inputs plus an absolute part.
struct Tol { LD v[3]; };
static Tol Tolerance(const LossSpec& l, LD s) {
  Tol t;
  LD r[3], p[3], m[3];
  l.Rho(s, r);
  const LD e = 1e-13L;
  l.Rho(s * (1 + e), p);
  l.Rho(s * (1 - e), m);
  LD abs0 = 0;
  switch (l.kind) {
    case kSoftL1: case kCauchy: abs0 = 1e-14L * l.a * l.a; break;
    case kTukey: abs0 = 1e-14L * l.a * l.a; break;
    case kTolerant: abs0 = 1e-14L * (l.a + l.b * 40); break;
    case kScaled: { Tol q = Tolerance(l.sub[0], s); for (int i = 0; i < 3; ++i) t.v[i] = q.v[i] * l.a + 1e-14L * fabsl(r[i]) + 1e-250L; return t; }
    case kComposed: {
      LD f[3], g[3], fp[3], fm[3];
      Tol tg = Tolerance(l.sub[1], s);
      l.sub[1].Rho(s, g);
      l.sub[0].Rho(g[0], f);
      Tol tf = Tolerance(l.sub[0], g[0]);
      l.sub[0].Rho(g[0] + tg.v[0], fp);
      l.sub[0].Rho(std::max<LD>(0, g[0] - tg.v[0]), fm);
      for (int i = 0; i < 3; ++i) tf.v[i] += fabsl(fp[i] - f[i]) + fabsl(fm[i] - f[i]);
      t.v[0] = tf.v[0] + 1e-250L;
      t.v[1] = tf.v[1] * (fabsl(g[1]) + tg.v[1]) + (fabsl(f[1]) + tf.v[1]) * tg.v[1] + 1e-14L * fabsl(r[1]) + 1e-250L;
      t.v[2] = 1e-250L + tf.v[2] * (g[1] + tg.v[1]) * (g[1] + tg.v[1]) + (fabsl(f[2]) + tf.v[2]) * 2 * (g[1] + tg.v[1]) * tg.v[1] + tf.v[1] * (fabsl(g[2]) + tg.v[2]) + (fabsl(f[1]) + tf.v[1]) * tg.v[2] +
               1e-14L * (fabsl(f[2]) * g[1] * g[1] + fabsl(f[1] * g[2]));
      return t;
    }
  }
  // Near the threshold of a piecewise loss either piece may be the one evaluated.
  for (int i = 0; i < 3; ++i) t.v[i] = fabsl(p[i] - r[i]) + fabsl(m[i] - r[i]) + 1e-13L * fabsl(r[i]) + 1e-250L;
  t.v[0] += abs0;
  if (l.kind == kTukey) { t.v[1] += 1e-15L; t.v[2] += 1e-14L / ((LD)l.a * l.a); }
  if (l.kind == kTolerant) { t.v[1] += 1e-250L; t.v[2] += 1e-250L + (s > l.a + 36 * l.b ? 1e-15L / l.b : 0); }
  return t;
}

PBT_PROP(values, 600000, 20000000) {
  const LossSpec l = Tree(c, c.range(0, 3));
  const double s = GenS(c, l);
  std::unique_ptr<LossFunction> f(l.Make());
  if (!f) c.discard();
  std::unique_ptr<double[]> rho(new double[3]);
  f->Evaluate(s, rho.get());
  LD ref[3];
  l.Rho(s, ref);
  const Tol t = Tolerance(l, s);
  c.note() << l.Str() << " at " << s;
  c.label(l.Str().substr(0, l.Str().find('(')));
  c.nontrivial(l.kind != kTrivial && s > 0);
  static const char* tag[] = {"value", "first_derivative", "second_derivative"};
  for (int i = 0; i < 3; ++i) REQUIRE(tag[i], fabsl((LD)rho[i] - ref[i]) <= t.v[i], rho[i], " expected ", (double)ref[i], " tolerance ", (double)t.v[i]);
  // The reference itself: its derivatives are those of its value.
  if (s > 1e-3 && s < 1e6 && fabsl(s - (LD)Threshold(l)) > 1e-3 * s && l.sub.empty() && (LD)l.a * l.a < 1e4L * s && (l.kind != kTolerant || s < 1e2 * l.b)) {
    LD p[3], m[3];
    const LD h = 1e-5L * s;
    l.Rho(s + h, p);
    l.Rho(s - h, m);
    const LD sc = l.kind == kTolerant ? expl((LD)h / l.b) * h * h / ((LD)l.b * l.b) : 0;
    if (sc < 1e-4) {
      REQUIRE("reference", fabsl((p[0] - m[0]) / (2 * h) - ref[1]) <= 1e-5L * (fabsl(ref[1]) + sc) + 1e-6L, "");
      REQUIRE("reference2", fabsl((p[1] - m[1]) / (2 * h) - ref[2]) <= 1e-5L * (fabsl(ref[2]) + fabsl(ref[1]) / s + sc / l.b) + 1e-6L / s, "");
    }
  }
}

// ---- shape of the robust losses ----------------------------------------------------------
PBT_PROP(shape, 300000, 8000000) {
  LossSpec l;
  l.kind = c.pick({kHuber, kSoftL1, kCauchy, kArctan, kTukey, kTrivial, kTolerant});
  l.a = c.coin() ? c.pick({1.0, 0.5, 3.0}) : c.logreal(1e-4, 1e4);
  l.b = c.logreal(1e-2, 1e2);
  std::unique_ptr<LossFunction> f(l.Make());
  double z[3], p[3], q[3];
  f->Evaluate(0, z);
  REQUIRE("zero", std::fabs(z[0]) <= (l.kind == kTolerant ? 1e-13 * (l.a + l.b) : 0), z[0]);
  if (l.kind != kTolerant) REQUIRE("unit_slope", z[1] == 1, z[1]);
  double s = GenS(c, l), t = GenS(c, l);
  if (s > t) std::swap(s, t);
  c.note() << l.Str() << " at " << s << " and " << t;
  c.nontrivial(s > 0 && t > s);
  f->Evaluate(s, p);
  f->Evaluate(t, q);
  const double slack = 1e-13 * (l.a * l.a + l.a + (l.kind == kTolerant ? 40 * l.b : 0));
  REQUIRE("decreasing", q[0] >= p[0] * (1 - 1e-14) - slack, p[0], " then ", q[0]);
  REQUIRE("above_identity", q[0] <= t * (1 + 1e-14) + slack, q[0]);
  REQUIRE("negative", p[0] >= -slack && p[1] >= 0 && q[1] >= 0 && p[1] <= 1 && q[1] <= 1, p[0], " ", p[1]);
  if (l.kind != kTolerant) REQUIRE("slope_increases", q[1] <= p[1] && p[2] <= 0, p[1], " ", q[1]);
  for (int i = 0; i < 3; ++i) REQUIRE("nonfinite", std::isfinite(p[i]) && std::isfinite(q[i]), "");
}

// ---- ownership, wrappers ---------------------------------------------------------------------
static int g_live = 0, g_calls = 0;
struct Counted : LossFunction {
  double k;
  explicit Counted(double k) : k(k) { ++g_live; }
  ~Counted() override { --g_live; }
  void Evaluate(double s, double* r) const override { ++g_calls; r[0] = k * s; r[1] = k; r[2] = 0; }
};
PBT_PROP(ownership, 150000, 4000000) {
  g_live = 0;
  std::vector<std::unique_ptr<Counted>> mine;
  auto make = [&](double k, Ownership* o) -> LossFunction* {
    auto* f = new Counted(k);
    *o = c.coin() ? TAKE_OWNERSHIP : DO_NOT_TAKE_OWNERSHIP;
    if (*o == DO_NOT_TAKE_OWNERSHIP) mine.emplace_back(f);
    return f;
  };
  Ownership of, og;
  double rho[3];
  {
    const double k1 = c.range(1, 5), k2 = c.range(1, 5), k3 = c.range(1, 5);
    LossFunction* a = make(k1, &of);
    LossFunction* b = make(k2, &og);
    std::unique_ptr<LossFunction> f;
    double expect;
    const int which = c.range(0, 2);
    const double s = c.real(0, 10);
    c.note() << "kind " << which << " owners " << of << og;
    if (which == 0) { f.reset(new ComposedLoss(a, of, b, og)); expect = k1 * k2 * s; }
    else if (which == 1) { f.reset(new ScaledLoss(a, k3, of)); expect = k1 * k3 * s; if (og == TAKE_OWNERSHIP) delete b; }
    else {
      auto* w = new LossFunctionWrapper(a, of);
      f.reset(w);
      w->Evaluate(s, rho);
      REQUIRE("wrapper", pbt::Close(rho[0], k1 * s, 1e-14) && rho[1] == k1, rho[0]);
      if (c.chance(1, 4)) {  // nothing means the identity
        const int before = g_live;
        w->Reset(nullptr, c.coin() ? TAKE_OWNERSHIP : DO_NOT_TAKE_OWNERSHIP);
        REQUIRE("reset_owned", g_live == before - (of == TAKE_OWNERSHIP), g_live);
        w->Evaluate(s, rho);
        REQUIRE("wrapper_identity", rho[0] == s && rho[1] == 1 && rho[2] == 0, rho[0]);
        of = DO_NOT_TAKE_OWNERSHIP;
      }
      const int before = g_live;
      w->Reset(b, og);
      REQUIRE("reset_owned", g_live == before - (of == TAKE_OWNERSHIP), g_live);
      expect = k2 * s;
    }
    f->Evaluate(s, rho);
    REQUIRE("value", pbt::Close(rho[0], expect, 1e-14), rho[0], " expected ", expect);
  }
  REQUIRE("leak", g_live == (int)mine.size(), g_live, " ", mine.size());
  for (auto& m : mine) { m->Evaluate(2, rho); REQUIRE("freed", rho[0] == 2 * m->k, rho[0]); }
  mine.clear();
  REQUIRE("leak", g_live == 0, g_live);
  // Scaling nothing scales the identity.
  ScaledLoss s(nullptr, 3.0, c.coin() ? TAKE_OWNERSHIP : DO_NOT_TAKE_OWNERSHIP);
  s.Evaluate(2, rho);
  REQUIRE("scaled_identity", rho[0] == 6 && rho[1] == 3 && rho[2] == 0, rho[0]);
  c.nontrivial();
}

// A problem whose losses are wrappers acts, at every moment, with the current losses.
PBT_PROP(wrapper_in_problem, 60000, 2000000) {
  GenOptions g;
  g.curved = false;
  g.constants = false;
  Spec s = Gen(c, g);
  std::vector<std::unique_ptr<double[]>> x;
  Recorder rec;
  Problem problem;
  for (auto& b : s.blocks) { x.emplace_back(new double[b.size]); std::copy(b.x0.begin(), b.x0.end(), x.back().get()); problem.AddParameterBlock(x.back().get(), b.size); }
  std::vector<LossFunctionWrapper*> w;
  for (size_t i = 0; i < s.res.size(); ++i) {
    std::vector<int> sizes; std::vector<double*> p;
    for (int b : s.res[i].blocks) { sizes.push_back(s.blocks[b].size); p.push_back(x[b].get()); }
    w.push_back(new LossFunctionWrapper(s.res[i].loss.Make(), TAKE_OWNERSHIP));
    problem.AddResidualBlock(new CeresCost(&s.res[i], sizes, i, &rec), w.back(), p);
  }
  const int steps = c.range(1, 4);
  c.note() << s.Str();
  for (int k = 0; k < steps; ++k) {
    double cost;
    REQUIRE("evaluate", problem.Evaluate(Problem::EvaluateOptions(), &cost, nullptr, nullptr, nullptr), "");
    std::vector<Vec> v;
    for (auto& b : s.blocks) v.push_back(b.x0);
    REQUIRE("cost", pbt::Close(cost, s.Cost(v), 1e-10, 1e-3 + s.CostScale(v)), cost, " expected ", s.Cost(v));
    const int i = c.range(0, w.size() - 1);
    s.res[i].loss = GenLoss(c);
    w[i]->Reset(s.res[i].loss.Make(), TAKE_OWNERSHIP);
    if (c.coin()) {
      Solver::Options o;
      o.logging_type = SILENT;
      o.max_num_iterations = 2;
      Solver::Summary sum;
      Solve(o, &problem, &sum);
      REQUIRE("initial_cost", pbt::Close(sum.initial_cost, s.Cost(v), 1e-10, 1e-3 + s.CostScale(v)), sum.initial_cost, " expected ", s.Cost(v));
      for (size_t b = 0; b < s.blocks.size(); ++b) s.blocks[b].x0.assign(x[b].get(), x[b].get() + s.blocks[b].size);
    }
  }
  c.nontrivial(steps > 1);
}

PBT_MAIN("C14", "the loss is not the trivial one, at a positive argument; or a composed, scaled or replaced loss")
