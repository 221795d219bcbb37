// C07: editing a problem always matches a simple set model.
// pbt-build: flavor=rel
#include <algorithm>
#include <map>
#include <set>
#include "eval_model.h"

using namespace pg;
static const double kMax = std::numeric_limits<double>::max();

struct MBlock {
  std::unique_ptr<double[]> mem;  // 8 doubles; reused when the block is removed
  bool alive = false;
  BlockSpec spec;
  bool set_constant = false;
  ceres::Manifold* manifold = nullptr;  // as passed to the problem
  Vec lo, up;
};
struct MRes {
  bool alive = false;
  std::unique_ptr<ResSpec> spec;  // .blocks index into MBlock
  ceres::ResidualBlockId id = nullptr;
  const ceres::CostFunction* cost = nullptr;
  const ceres::LossFunction* loss = nullptr;
};

struct World {
  std::vector<MBlock> b;
  std::vector<MRes> r;
  std::vector<std::unique_ptr<ceres::Manifold>> manifolds;  // not owned by the problem
  std::unique_ptr<ceres::Problem> p;
  std::vector<int> block_order, res_order;  // only meaningful while nothing has been removed
  bool removed = false;

  std::vector<int> Alive() const { std::vector<int> v; for (size_t i = 0; i < b.size(); ++i) if (b[i].alive) v.push_back(i); return v; }
  std::vector<int> AliveRes() const { std::vector<int> v; for (size_t i = 0; i < r.size(); ++i) if (r[i].alive) v.push_back(i); return v; }
};

static void CheckQueries(pbt::Case& c, World& w) {
  const ceres::Problem& p = *w.p;
  const auto ab = w.Alive(), ar = w.AliveRes();
  int np = 0, nr = 0;
  for (int i : ab) np += w.b[i].spec.size;
  for (int i : ar) nr += w.r[i].spec->rows;
  REQUIRE("num_parameter_blocks", p.NumParameterBlocks() == (int)ab.size(), p.NumParameterBlocks(), " ", ab.size());
  REQUIRE("num_parameters", p.NumParameters() == np, p.NumParameters(), " ", np);
  REQUIRE("num_residual_blocks", p.NumResidualBlocks() == (int)ar.size(), p.NumResidualBlocks(), " ", ar.size());
  REQUIRE("num_residuals", p.NumResiduals() == nr, p.NumResiduals(), " ", nr);
  std::vector<double*> got;
  p.GetParameterBlocks(&got);
  std::set<double*> have(got.begin(), got.end());
  REQUIRE("parameter_blocks", have.size() == ab.size() && got.size() == ab.size(), got.size());
  std::vector<ceres::ResidualBlockId> ids;
  p.GetResidualBlocks(&ids);
  std::set<ceres::ResidualBlockId> idset(ids.begin(), ids.end());
  REQUIRE("residual_blocks", idset.size() == ar.size() && ids.size() == ar.size(), ids.size());
  for (size_t i = 0; i < w.b.size(); ++i) {
    MBlock& b = w.b[i];
    double* x = b.mem.get();
    REQUIRE("has_block", p.HasParameterBlock(x) == b.alive && have.count(x) == (b.alive ? 1u : 0u), "block ", i);
    if (!b.alive) continue;
    REQUIRE("size", p.ParameterBlockSize(x) == b.spec.size, i, " ", p.ParameterBlockSize(x));
    REQUIRE("tangent_size", p.ParameterBlockTangentSize(x) == b.spec.tangent(), i, " ", p.ParameterBlockTangentSize(x), " ", b.spec.tangent());
    REQUIRE("manifold", p.GetManifold(x) == b.manifold && p.HasManifold(x) == (b.manifold != nullptr), i);
    REQUIRE("constant", p.IsParameterBlockConstant(x) == (b.set_constant || b.spec.tangent() == 0), i);
    for (int k = 0; k < b.spec.size; ++k) {
      REQUIRE("lower_bound", p.GetParameterLowerBound(x, k) == b.lo[k], i, "[", k, "] ", p.GetParameterLowerBound(x, k), " ", b.lo[k]);
      REQUIRE("upper_bound", p.GetParameterUpperBound(x, k) == b.up[k], i, "[", k, "] ", p.GetParameterUpperBound(x, k), " ", b.up[k]);
    }
    std::vector<ceres::ResidualBlockId> dep;
    p.GetResidualBlocksForParameterBlock(x, &dep);
    std::set<ceres::ResidualBlockId> ds(dep.begin(), dep.end()), want;
    for (int q : ar) if (std::count(w.r[q].spec->blocks.begin(), w.r[q].spec->blocks.end(), (int)i)) want.insert(w.r[q].id);
    REQUIRE("residuals_of_block", ds == want && ds.size() == dep.size(), i, ": ", dep.size(), " ", want.size());
  }
  for (int q : ar) {
    MRes& r = w.r[q];
    REQUIRE("has_residual", idset.count(r.id) == 1, q);
    std::vector<double*> bl, want;
    p.GetParameterBlocksForResidualBlock(r.id, &bl);
    for (int k : r.spec->blocks) want.push_back(w.b[k].mem.get());
    REQUIRE("blocks_of_residual", bl == want, q);
    REQUIRE("cost_of_residual", p.GetCostFunctionForResidualBlock(r.id) == r.cost, q);
    REQUIRE("loss_of_residual", p.GetLossFunctionForResidualBlock(r.id) == r.loss, q);
  }
}

static void CheckEvaluate(pbt::Case& c, World& w, bool explicit_order) {
  const auto ab = w.Alive(), ar = w.AliveRes();
  if (ab.empty() || ar.empty()) return;
  // While nothing was removed the order is the order of addition; otherwise
  // the harness asks for an order.
  std::vector<int> border = w.removed || explicit_order ? ab : w.block_order, rorder = w.removed || explicit_order ? ar : w.res_order;
  Spec s;
  std::map<int, int> bi, ri;
  std::vector<Vec> x;
  for (int i : border) {
    bi[i] = s.blocks.size();
    BlockSpec q = w.b[i].spec;
    q.constant = w.b[i].set_constant;
    s.blocks.push_back(q);
    x.emplace_back(w.b[i].mem.get(), w.b[i].mem.get() + q.size);
  }
  for (int i : rorder) {
    ResSpec q = *w.r[i].spec;
    for (int& k : q.blocks) k = bi[k];
    s.res.push_back(q);
  }
  std::vector<int> res, bl;
  ceres::Problem::EvaluateOptions o;
  for (size_t i = 0; i < rorder.size(); ++i) { res.push_back(i); if (w.removed || explicit_order) o.residual_blocks.push_back(w.r[rorder[i]].id); }
  for (size_t i = 0; i < border.size(); ++i) { bl.push_back(i); if (w.removed || explicit_order) o.parameter_blocks.push_back(w.b[border[i]].mem.get()); }
  const DenseEval m = Model(s, x, res, bl, true);
  double cost;
  Vec r, g;
  ceres::CRSMatrix j;
  REQUIRE("evaluate", w.p->Evaluate(o, &cost, &r, &g, &j), "");
  REQUIRE("cost", std::fabs(cost - m.cost) <= 1e-11 * m.cost_scale + 1e-13, cost, " ", m.cost);
  REQUIRE("residual_count", r.size() == m.residuals.size() && g.size() == m.gradient.size(), "");
  for (size_t i = 0; i < r.size(); ++i) REQUIRE("residuals", std::fabs(r[i] - m.residuals[i]) <= 1e-11 * m.res_scale, i, ": ", r[i], " ", m.residuals[i]);
  for (size_t i = 0; i < g.size(); ++i) REQUIRE("gradient", std::fabs(g[i] - m.gradient[i]) <= 1e-10 * m.grad_scale * (1 + r.size()), i, ": ", g[i], " ", m.gradient[i]);
  const Mat d = Dense(c, j);
  REQUIRE("jacobian_size", d.rows() == m.jacobian.rows() && d.cols() == m.jacobian.cols(), "");
  if (d.size()) REQUIRE("jacobian", (d - m.jacobian).cwiseAbs().maxCoeff() <= 1e-10 * m.jac_scale * (1 + m.res_scale), "");
  c.label("evaluated");
}

static void NewValues(pbt::Case& c, MBlock* b) { for (int k = 0; k < 8; ++k) b->mem[k] = c.sym(2.0); }

static ceres::Manifold* NewManifold(pbt::Case& c, World& w, MBlock* b) {
  b->spec.x0.assign(b->mem.get(), b->mem.get() + b->spec.size);
  for (int t = 0; t < 4; ++t) {
    b->spec.mani = ManiSpec();
    GenMani(c, &b->spec, true);
    if (b->spec.mani.kind != kNone) break;
  }
  std::copy(b->spec.x0.begin(), b->spec.x0.end(), b->mem.get());
  w.manifolds.emplace_back(b->spec.mani.Make());
  return w.manifolds.back().get();
}

// Revives (or creates) a block slot with a fresh size; not yet in the problem.
static int NewBlock(pbt::Case& c, World& w) {
  int i = -1;
  for (size_t k = 0; k < w.b.size(); ++k) if (!w.b[k].alive && c.coin()) { i = k; break; }
  if (i < 0) { w.b.emplace_back(); i = w.b.size() - 1; w.b[i].mem.reset(new double[8]); }
  MBlock& b = w.b[i];
  NewValues(c, &b);
  b.spec = BlockSpec();
  b.spec.size = c.pick({2, 1, 3, 4, 4, 6, 7});
  b.set_constant = false;
  b.manifold = nullptr;
  b.lo.assign(b.spec.size, -kMax);
  b.up.assign(b.spec.size, kMax);
  return i;
}

static void Step(pbt::Case& c, World& w) {
  const auto ab = w.Alive(), ar = w.AliveRes();
  const int op = c.range(0, 15);
  const int any = ab.empty() ? -1 : c.pick(ab);
  switch (op) {
    case 0: case 1: {
      const int i = NewBlock(c, w);
      MBlock& b = w.b[i];
      const bool with = c.chance(1, 3);
      ceres::Manifold* m = with ? NewManifold(c, w, &b) : nullptr;
      if (b.spec.mani.kind == kNone) m = nullptr;
      if (m || c.coin()) w.p->AddParameterBlock(b.mem.get(), b.spec.size, m); else w.p->AddParameterBlock(b.mem.get(), b.spec.size);
      b.manifold = m;
      b.alive = true;
      w.block_order.push_back(i);
      c.note() << " +B" << i << "(" << b.spec.size << b.spec.mani.Str() << ")";
      break;
    }
    case 2: case 3: case 4: case 5: {  // residual over existing and new blocks
      std::vector<int> bl;
      const int n = c.range(1, 3);
      std::vector<int> perm = c.permutation(ab.size());
      for (int k = 0; k < n; ++k) {
        if (k < (int)perm.size() && !c.chance(1, 5)) bl.push_back(ab[perm[k]]);
        else {
          const int i = NewBlock(c, w);
          w.b[i].alive = true;  // (keeps the next NewBlock from choosing it)
          bl.push_back(i);
          w.block_order.push_back(i);
        }
      }
      Spec tmp;
      for (auto& b : w.b) tmp.blocks.push_back(b.spec);
      GenOptions g;
      MRes r;
      r.spec.reset(new ResSpec(GenRes(c, tmp, bl, c.range(1, 3), g)));
      std::vector<int> sizes;
      std::vector<double*> ptrs;
      for (int k : bl) { sizes.push_back(w.b[k].spec.size); ptrs.push_back(w.b[k].mem.get()); }
      auto* cost = new CeresCost(r.spec.get(), sizes, 0, nullptr);
      auto* loss = r.spec->loss.Make();
      r.cost = cost;
      r.loss = loss;
      if (bl.size() == 2 && c.coin()) r.id = w.p->AddResidualBlock(cost, loss, ptrs[0], ptrs[1]);
      else if (c.coin()) r.id = w.p->AddResidualBlock(cost, loss, ptrs.data(), (int)ptrs.size());
      else r.id = w.p->AddResidualBlock(cost, loss, ptrs);
      r.alive = true;
      w.r.push_back(std::move(r));
      w.res_order.push_back(w.r.size() - 1);
      c.note() << " +R" << w.r.size() - 1 << "(";
      for (int k : bl) c.note() << k << " ";
      c.note() << ")";
      break;
    }
    case 6: {
      if (any < 0) break;
      c.note() << " -B" << any;
      w.p->RemoveParameterBlock(w.b[any].mem.get());
      w.b[any].alive = false;
      for (int q : ar) if (std::count(w.r[q].spec->blocks.begin(), w.r[q].spec->blocks.end(), any)) w.r[q].alive = false;
      w.removed = true;
      break;
    }
    case 7: {
      if (ar.empty()) break;
      const int q = c.pick(ar);
      c.note() << " -R" << q;
      w.p->RemoveResidualBlock(w.r[q].id);
      w.r[q].alive = false;
      w.removed = true;
      break;
    }
    case 8: if (any >= 0) { w.p->SetParameterBlockConstant(w.b[any].mem.get()); w.b[any].set_constant = true; c.note() << " const" << any; } break;
    case 9: if (any >= 0) { w.p->SetParameterBlockVariable(w.b[any].mem.get()); w.b[any].set_constant = false; c.note() << " var" << any; } break;
    case 10: {
      if (any < 0) break;
      MBlock& b = w.b[any];
      if (c.chance(1, 4)) {
        b.spec.mani = ManiSpec();
        b.manifold = nullptr;
        w.p->SetManifold(b.mem.get(), nullptr);
      } else if (b.manifold && c.chance(1, 5)) {
        w.p->SetManifold(b.mem.get(), b.manifold);  // the same one again
      } else {
        ceres::Manifold* m = NewManifold(c, w, &b);
        if (b.spec.mani.kind == kNone) m = nullptr;
        b.manifold = m;
        w.p->SetManifold(b.mem.get(), m);
      }
      c.note() << " mani" << any << b.spec.mani.Str();
      break;
    }
    case 11: case 12: {
      if (any < 0) break;
      MBlock& b = w.b[any];
      const int k = c.range(0, b.spec.size - 1);
      const double v = c.pick({-3.0, 0.5, -kMax, 2.0, kMax});
      if (op == 11) { w.p->SetParameterLowerBound(b.mem.get(), k, v); b.lo[k] = v; } else { w.p->SetParameterUpperBound(b.mem.get(), k, v); b.up[k] = v; }
      c.note() << (op == 11 ? " lo" : " up") << any << "[" << k << "]";
      break;
    }
    case 13: {  // an identical block again: nothing happens
      if (any < 0) break;
      w.p->AddParameterBlock(w.b[any].mem.get(), w.b[any].spec.size);
      c.note() << " again" << any;
      break;
    }
    case 14: {  // new values from the user
      if (any < 0) break;
      MBlock& b = w.b[any];
      if (b.spec.mani.linear()) for (int k = 0; k < b.spec.size; ++k) b.mem[k] = c.sym(2.0);
      break;
    }
    case 15: {
      if (c.chance(1, 3)) {
        std::unique_ptr<ceres::Problem> q(new ceres::Problem(std::move(*w.p)));
        w.p = std::move(q);
        c.note() << " move";
      }
      break;
    }
  }
}

static void Run(pbt::Case& c, int max_steps) {
  World w;
  ceres::Problem::Options po;
  po.manifold_ownership = ceres::DO_NOT_TAKE_OWNERSHIP;
  po.enable_fast_removal = c.coin();
  po.disable_all_safety_checks = c.chance(1, 4);
  w.p.reset(new ceres::Problem(po));
  c.note() << (po.enable_fast_removal ? "fast" : "slow") << (po.disable_all_safety_checks ? " unchecked" : "");
  const int n = c.size(2, max_steps);
  for (int k = 0; k < n; ++k) {
    Step(c, w);
    CheckQueries(c, w);
    if (c.chance(1, 4)) CheckEvaluate(c, w, c.coin());
  }
  CheckEvaluate(c, w, false);
  CheckEvaluate(c, w, true);
  if (w.removed) c.label("with removals");
  c.nontrivial(w.removed && !w.AliveRes().empty());
}

PBT_PROP(history, 300000, 6000000) { Run(c, 40); }
PBT_PROP(long_history, 8000, 200000) { Run(c, 300); }

PBT_MAIN("C07", "the history removes at least one block and residuals are left at the end")
