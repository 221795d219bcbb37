// C06: problem evaluation equals the mathematical definition.
// pbt-build: flavor=rel
#include "eval_model.h"

using namespace pg;

static double Err(const Vec& a, const Vec& b) {
  if (a.size() != b.size()) return 1e300;
  double d = 0;
  for (size_t i = 0; i < a.size(); ++i) { const double t = std::fabs(a[i] - b[i]); if (!(t <= d)) d = t; }
  return d;
}

struct Outputs {
  double cost = -7;
  Vec r, g;
  ceres::CRSMatrix j;
};

static bool Eval(Instance& in, const ceres::Problem::EvaluateOptions& o, int want, Outputs* out) {
  return in.problem->Evaluate(o, want & 1 ? &out->cost : nullptr, want & 2 ? &out->r : nullptr, want & 4 ? &out->g : nullptr, want & 8 ? &out->j : nullptr);
}

static void Compare(pbt::Case& c, const DenseEval& m, const Outputs& out, int want, const char* what) {
  if (want & 1) REQUIRE("cost", std::fabs(out.cost - m.cost) <= 1e-11 * m.cost_scale + 1e-13, what, ": ", out.cost, " model ", m.cost);
  if (want & 2) {
    REQUIRE("residual_count", out.r.size() == m.residuals.size(), what, " ", out.r.size(), " ", m.residuals.size());
    REQUIRE("residuals", Err(out.r, m.residuals) <= 1e-11 * m.res_scale, what, ": difference ", Err(out.r, m.residuals));
  }
  if (want & 4) {
    REQUIRE("gradient_size", out.g.size() == m.gradient.size(), what, " ", out.g.size(), " ", m.gradient.size());
    REQUIRE("gradient", Err(out.g, m.gradient) <= 1e-10 * m.grad_scale * (1 + m.residuals.size()), what, ": difference ", Err(out.g, m.gradient));
  }
  if (want & 8) {
    const Mat d = Dense(c, out.j);
    REQUIRE("jacobian_size", d.rows() == m.jacobian.rows() && d.cols() == m.jacobian.cols(), what, " ", d.rows(), "x", d.cols(), " model ", m.jacobian.rows(), "x", m.jacobian.cols());
    const double e = d.size() ? (d - m.jacobian).cwiseAbs().maxCoeff() : 0;
    REQUIRE("jacobian", e <= 1e-10 * m.jac_scale * (1 + m.res_scale), what, ": difference ", e, "\n", d, "\nmodel\n", m.jacobian);
  }
}

static bool SameOutputs(const Outputs& a, const Outputs& b, int want) {
  auto same = [](const Vec& p, const Vec& q) { return p.size() == q.size() && (p.empty() || !std::memcmp(p.data(), q.data(), p.size() * sizeof(double))); };
  if ((want & 1) && std::memcmp(&a.cost, &b.cost, sizeof(double))) return false;
  if ((want & 2) && !same(a.r, b.r)) return false;
  if ((want & 4) && !same(a.g, b.g)) return false;
  if ((want & 8) && (a.j.rows != b.j.rows || a.j.cols != b.j.cols || !same(a.j.values, b.j.values))) return false;
  return true;
}

// A random selection of k of n indices, in random order (all of them with some probability).
static std::vector<int> Choose(pbt::Case& c, int n, bool at_least_one) {
  if (c.chance(1, 4)) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(i); return v; }
  std::vector<int> p = c.permutation(n);
  p.resize(c.range(at_least_one ? 1 : 0, n));
  return p;
}

PBT_PROP(evaluate, 150000, 4000000) {
  GenOptions g;
  g.max_blocks = 7;
  g.max_res = 12;
  Spec s = Gen(c, g);
  const int nb = s.blocks.size(), nr = s.res.size();
  BuildOptions bo;
  bo.fast_removal = c.coin();
  bo.implicit_blocks = c.chance(1, 4);
  Instance in(s, bo);
  // Move to another point: evaluation works on the current values.
  if (c.coin()) for (int b = 0; b < nb; ++b) if (s.blocks[b].mani.linear()) for (int k = 0; k < s.blocks[b].size; ++k) in.x[b].get()[k] += c.sym(1.0);
  const auto x = in.Values();
  std::vector<int> all_res, all_blocks;
  for (int i = 0; i < nr; ++i) all_res.push_back(i);
  // Blocks come in the order in which they were added.
  std::vector<bool> added(nb, false);
  if (bo.implicit_blocks)
    for (auto& r : s.res) for (int b : r.blocks) if (!added[b]) { added[b] = true; all_blocks.push_back(b); }
  for (int b = 0; b < nb; ++b) if (!added[b]) all_blocks.push_back(b);
  c.note() << s.Str();
  for (int round = 0; round < 3; ++round) {
    ceres::Problem::EvaluateOptions o;
    std::vector<int> res = all_res, blocks = all_blocks;
    if (c.coin()) { res = Choose(c, nr, true); for (int i : res) o.residual_blocks.push_back(in.ids[i]); }
    if (c.coin()) { blocks = Choose(c, nb, true); for (int b : blocks) o.parameter_blocks.push_back(in.x[b].get()); }
    o.apply_loss_function = !c.chance(1, 3);
    o.num_threads = c.pick({1, 1, 2, 4});
    const int want = c.range(1, 15);
    c.note() << " |" << (o.residual_blocks.empty() ? "" : " some residuals") << (o.parameter_blocks.empty() ? "" : " some blocks")
             << (o.apply_loss_function ? "" : " noloss") << " thr=" << o.num_threads << " want=" << want;
    const DenseEval m = Model(s, x, res, blocks, o.apply_loss_function);
    Outputs out, full, again;
    REQUIRE("failed", Eval(in, o, want, &out), "");
    Compare(c, m, out, want, "requested");
    REQUIRE("parameters_changed", SameBits(x, in.Values()), "");
    for (int b = 0; b < nb; ++b)
      REQUIRE("constancy_changed", in.problem->IsParameterBlockConstant(in.x[b].get()) == (s.blocks[b].constant || s.blocks[b].tangent() == 0), "block ", b);
    // Outputs do not depend on what else was requested.
    REQUIRE("failed", Eval(in, o, 15, &full), "");
    Compare(c, m, full, 15, "all outputs");
    if (o.num_threads == 1) {
      // (robustified residuals are only corrected when they, or derivatives, are wanted)
      REQUIRE("depends_on_requests", SameOutputs(out, full, want), want);
      REQUIRE("failed", Eval(in, o, want, &again), "");
      REQUIRE("not_repeatable", SameOutputs(out, again, want), want);
    }
    // The gradient is J'r of the returned (robustified) quantities.
    const Mat d = Dense(c, full.j);
    if (d.size()) {
      const VecX jr = d.transpose() * Eigen::Map<const VecX>(full.r.data(), full.r.size());
      const double e = (jr - Eigen::Map<const VecX>(full.g.data(), full.g.size())).cwiseAbs().maxCoeff();
      REQUIRE("gradient_is_JTr", e <= 1e-10 * m.grad_scale * (1 + m.residuals.size()) * (1 + m.res_scale), e);
    }
    if (m.jacobian.size() && m.jacobian.cwiseAbs().maxCoeff() > 0) c.nontrivial(true);
  }
}

// One residual block at a time, with guarded buffers and partial requests.
PBT_PROP(residual_block, 60000, 2000000) {
  Spec s = Gen(c);
  Instance in(s);
  const auto x = in.Values();
  const int i = c.range(0, (int)s.res.size() - 1);
  const ResSpec& r = s.res[i];
  const bool apply = !c.chance(1, 3), unchanged = c.coin();
  c.note() << s.Str() << " residual " << i;
  const DenseEval m = Model(s, x, {i}, r.blocks, apply);
  const int nb = r.blocks.size();
  const double guard = 12345.0;
  std::vector<std::unique_ptr<double[]>> buf;
  std::vector<double*> jac(nb, nullptr);
  for (int k = 0; k < nb; ++k) {
    const BlockSpec& b = s.blocks[r.blocks[k]];
    const int n = r.rows * b.tangent();
    buf.emplace_back(new double[n + 2]);
    std::fill(buf[k].get(), buf[k].get() + n + 2, guard);
    if (!b.constant && b.tangent() > 0 && c.chance(3, 4)) jac[k] = buf[k].get() + 1;
  }
  const bool want_r = c.coin(), want_j = c.chance(3, 4), want_c = c.chance(3, 4);
  Vec res(r.rows + 2, guard);
  double cost = guard;
  const bool ok = unchanged ? in.problem->EvaluateResidualBlockAssumingParametersUnchanged(in.ids[i], apply, want_c ? &cost : nullptr, want_r ? res.data() + 1 : nullptr, want_j ? jac.data() : nullptr)
                            : in.problem->EvaluateResidualBlock(in.ids[i], apply, want_c ? &cost : nullptr, want_r ? res.data() + 1 : nullptr, want_j ? jac.data() : nullptr);
  REQUIRE("failed", ok, "");
  if (want_c) REQUIRE("cost", std::fabs(cost - m.cost) <= 1e-11 * m.cost_scale + 1e-13, cost, " model ", m.cost);
  REQUIRE("guard", res[0] == guard && res[r.rows + 1] == guard, "residuals");
  if (want_r) REQUIRE("residuals", Err(Vec(res.begin() + 1, res.end() - 1), m.residuals) <= 1e-11 * m.res_scale, "");
  else REQUIRE("guard", res[1] == guard, "");
  for (int k = 0; k < nb; ++k) {
    const int t = s.blocks[r.blocks[k]].tangent(), n = r.rows * t;
    REQUIRE("guard", buf[k][0] == guard && buf[k][n + 1] == guard, "jacobian ", k);
    for (int q = 0; q < n; ++q) {
      if (want_j && jac[k]) {
        const double e = std::fabs(jac[k][q] - m.jacobian(q / t, m.col_start[k] + q % t));
        REQUIRE("jacobian", e <= 1e-10 * m.jac_scale * (1 + m.res_scale), "block ", k, " entry ", q, ": ", jac[k][q], " model ", m.jacobian(q / t, m.col_start[k] + q % t));
      } else {
        REQUIRE("guard", buf[k][1 + q] == guard, "unrequested jacobian ", k);
      }
    }
  }
  REQUIRE("parameters_changed", SameBits(x, in.Values()), "");
  c.nontrivial(want_j || want_r);
}

// Problems with nothing to evaluate.
PBT_PROP(empty, 300, 2000) {
  Spec s;
  const int nb = c.range(0, 3);
  for (int b = 0; b < nb; ++b) { BlockSpec q; q.size = c.range(1, 4); q.x0.assign(q.size, 1.0); s.blocks.push_back(q); }
  c.note() << s.Str();
  Instance in(s);
  ceres::Problem::EvaluateOptions o;
  o.num_threads = c.range(1, 3);
  Outputs out;
  REQUIRE("failed", Eval(in, o, 15, &out), "");
  std::vector<int> blocks;
  for (int b = 0; b < nb; ++b) blocks.push_back(b);
  Compare(c, Model(s, in.Values(), {}, blocks, true), out, 15, "empty");
  c.nontrivial(nb > 0);
}

PBT_MAIN("C06", "the Jacobian of the requested part has a non-zero entry")
