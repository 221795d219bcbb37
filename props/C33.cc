// C33: the C interface gives the same answers as the C++ one.
// pbt-build: flavor=asan
#include <algorithm>
#include <iostream>
#include <map>
#include <set>
#include <sstream>

#include <sanitizer/allocator_interface.h>

#include "ceres/c_api.h"
#include "problem_gen.h"

using namespace pg;

struct Ctx {  // what the user hangs on a residual block
  uint64_t magic = 0xC0FFEE;
  const ResSpec* spec = nullptr;
  std::unique_ptr<CeresCost> cost;
  std::vector<double*> where;   // the blocks as given
  std::vector<int> sizes;
  int fail_at = -1, calls = 0, ok_value = 1;
  bool bad = false;             // called with something it should not have been
  std::string what;
};
struct LossCtx {
  uint64_t magic = 0xFEED;
  std::unique_ptr<ceres::LossFunction> loss;
  int calls = 0;
  bool bad = false;
};
// Callbacks without user data (a null pointer) find their state here.
Ctx* g_cost = nullptr;
LossCtx* g_loss = nullptr;
extern "C" int CCost(void* user_data, double** parameters, double* residuals, double** jacobians) {
  Ctx* x = static_cast<Ctx*>(user_data);
  if (!x || x->magic != 0xC0FFEE || !parameters || !residuals) std::abort();
  for (size_t b = 0; b < x->sizes.size(); ++b)
    for (int k = 0; k < x->sizes[b]; ++k) if (!std::isfinite(parameters[b][k])) { x->bad = true; x->what = "non-finite parameter"; }
  if (jacobians)
    for (size_t b = 0; b < x->sizes.size(); ++b) if (!jacobians[b]) { x->bad = true; x->what = "missing Jacobian block of a variable"; }
  if (x->fail_at == x->calls++) return 0;
  return x->cost->Evaluate(parameters, residuals, jacobians) ? x->ok_value : 0;
}
extern "C" void CLoss(void* user_data, double s, double out[3]) {
  LossCtx* x = static_cast<LossCtx*>(user_data);
  if (!x || x->magic != 0xFEED) std::abort();
  ++x->calls;
  x->bad |= !(s >= 0) || !out;
  x->loss->Evaluate(s, out);
}
extern "C" int CCostNoData(void* user_data, double** parameters, double* residuals, double** jacobians) {
  if (user_data) std::abort();
  return CCost(g_cost, parameters, residuals, jacobians);
}
extern "C" void CLossNoData(void* user_data, double s, double out[3]) {
  if (user_data) std::abort();
  CLoss(g_loss, s, out);
}

struct Counting : ceres::CostFunction {  // the C++ twin, with the same failures
  Counting(const CeresCost* c, int fail_at) : c_(c), fail_at_(fail_at) {
    set_num_residuals(c->num_residuals());
    *mutable_parameter_block_sizes() = c->parameter_block_sizes();
  }
  bool Evaluate(double const* const* p, double* r, double** j) const override {
    if (fail_at_ == calls_++) return false;
    return c_->Evaluate(p, r, j);
  }
  const CeresCost* c_;
  int fail_at_;
  mutable int calls_ = 0;
};

static void* StockData(const LossSpec& l) {
  switch (l.kind) {
    case kHuber: return ceres_create_huber_loss_function_data(l.a);
    case kSoftL1: return ceres_create_softl1_loss_function_data(l.a);
    case kCauchy: return ceres_create_cauchy_loss_function_data(l.a);
    case kArctan: return ceres_create_arctan_loss_function_data(l.a);
    case kTolerant: return ceres_create_tolerant_loss_function_data(l.a, l.b);
    default: return nullptr;
  }
}

struct Capture {  // everything printed to std::cout
  std::ostringstream s;
  std::streambuf* old;
  Capture() : old(std::cout.rdbuf(s.rdbuf())) {}
  ~Capture() { std::cout.rdbuf(old); }
};

PBT_PROP(solve, 24000, 250000) {
  GenOptions g;
  g.manifolds = g.curved = g.constants = g.bounds = g.unused_blocks = false;
  g.max_blocks = 4;
  g.max_res = 6;
  const Spec s = Gen(c, g);
  const int nb = s.blocks.size(), nr = s.res.size();
  const bool failing = c.chance(1, 5);
  const int fail_res = c.range(0, nr - 1), fail_at = failing ? c.range(0, 6) : -1;
  const bool share = c.chance(1, 3);  // one stock loss for all residuals that use a stock loss
  std::vector<LossSpec> loss;
  std::vector<bool> user_loss;
  int shared = -1;
  for (int i = 0; i < nr; ++i) {
    LossSpec l = s.res[i].loss;
    const bool stock = l.kind == kHuber || l.kind == kSoftL1 || l.kind == kCauchy || l.kind == kArctan || l.kind == kTolerant;
    if (stock && share && shared >= 0) l = loss[shared];
    if (stock && shared < 0) shared = i;
    loss.push_back(l);
    user_loss.push_back(l.kind != kNoLoss && !(stock && (share || c.chance(3, 4))));
  }
  const int ok_value = c.pick({1, 1, 2, -1, 256});
  const int null_cost = c.chance(1, 3) ? c.range(0, nr - 1) : -1;
  int null_loss = -1;
  for (int i = 0; i < nr; ++i) if (user_loss[i] && null_loss < 0 && c.coin()) null_loss = i;

  std::vector<std::unique_ptr<double[]>> store;
  std::vector<double*> x;
  for (auto& b : s.blocks) { store.emplace_back(new double[b.size]); x.push_back(store.back().get()); }
  auto reset = [&] { for (int b = 0; b < nb; ++b) std::copy(s.blocks[b].x0.begin(), s.blocks[b].x0.end(), x[b]); };
  auto values = [&] {
    std::vector<Vec> v;
    for (int b = 0; b < nb; ++b) v.emplace_back(x[b], x[b] + s.blocks[b].size);
    return v;
  };
  std::vector<std::unique_ptr<Ctx>> ctx;
  std::vector<std::unique_ptr<LossCtx>> lctx;
  for (int i = 0; i < nr; ++i) {
    ctx.emplace_back(new Ctx);
    Ctx& k = *ctx.back();
    k.spec = &s.res[i];
    for (int b : s.res[i].blocks) { k.where.push_back(x[b]); k.sizes.push_back(s.blocks[b].size); }
    k.cost.reset(new CeresCost(&s.res[i], k.sizes, i, nullptr));
    k.ok_value = ok_value;
    lctx.emplace_back(new LossCtx);
    if (user_loss[i]) lctx.back()->loss.reset(loss[i].Make());
  }
  g_cost = null_cost < 0 ? nullptr : ctx[null_cost].get();
  g_loss = null_loss < 0 ? nullptr : lctx[null_loss].get();

  // The C problem.
  std::string printed;
  std::vector<Vec> xc;
  int user_loss_calls = 0;
  auto solve_c = [&](bool check) {
    reset();
    for (int i = 0; i < nr; ++i) { ctx[i]->calls = 0; ctx[i]->fail_at = i == fail_res ? fail_at : -1; }
    ceres_problem_t* p = ceres_create_problem();
    std::vector<void*> data;
    void* shared_data = nullptr;
    std::set<void*> ids;
    for (int i = 0; i < nr; ++i) {
      // Temporaries that do not outlive the call.
      std::unique_ptr<int[]> sizes(new int[ctx[i]->sizes.size()]);
      std::unique_ptr<double*[]> ptrs(new double*[ctx[i]->sizes.size()]);
      std::copy(ctx[i]->sizes.begin(), ctx[i]->sizes.end(), sizes.get());
      std::copy(ctx[i]->where.begin(), ctx[i]->where.end(), ptrs.get());
      ceres_loss_function_t lf = nullptr;
      void* ld = nullptr;
      if (user_loss[i]) {
        lf = i == null_loss ? CLossNoData : CLoss;
        ld = i == null_loss ? nullptr : lctx[i].get();
      }
      else if (loss[i].kind != kNoLoss) {
        lf = ceres_stock_loss_function;
        if (share && shared_data) ld = shared_data;
        else { ld = StockData(loss[i]); data.push_back(ld); if (share) shared_data = ld; }
      }
      ceres_residual_block_id_t* id = ceres_problem_add_residual_block(
          p, i == null_cost ? CCostNoData : CCost, i == null_cost ? nullptr : ctx[i].get(), lf, ld, s.res[i].rows, static_cast<int>(ctx[i]->sizes.size()), sizes.get(), ptrs.get());
      if (check) {
        REQUIRE("solve/id", id != nullptr && ids.insert(id).second, "residual ", i);
        auto* cpp = reinterpret_cast<ceres::Problem*>(p);
        auto* rid = reinterpret_cast<ceres::ResidualBlockId>(id);
        std::vector<double*> got;
        cpp->GetParameterBlocksForResidualBlock(rid, &got);
        REQUIRE("solve/layout", got == ctx[i]->where && cpp->GetCostFunctionForResidualBlock(rid)->num_residuals() == s.res[i].rows, "residual ", i);
        REQUIRE("solve/loss", (cpp->GetLossFunctionForResidualBlock(rid) != nullptr) == (loss[i].kind != kNoLoss), "residual ", i);
      }
    }
    {
      Capture cap;
      ceres_solve(p);
      if (check) printed = cap.s.str();
    }
    if (check) xc = values();
    ceres_free_problem(p);
    for (void* d : data) ceres_free_stock_loss_function_data(d);
  };
  solve_c(true);
  for (int i = 0; i < nr; ++i) {
    REQUIRE("solve/callback", !ctx[i]->bad, ctx[i]->what);
    REQUIRE("solve/loss_callback", !lctx[i]->bad, "residual ", i);
    user_loss_calls += lctx[i]->calls;
  }

  // The C++ problem.
  ceres::Solver::Summary summary;
  std::vector<Vec> xcc;
  std::vector<int> calls;
  {
    reset();
    ceres::Problem p;
    std::vector<Counting*> costs;
    for (int i = 0; i < nr; ++i) {
      costs.push_back(new Counting(ctx[i]->cost.get(), i == fail_res ? fail_at : -1));
      p.AddResidualBlock(costs.back(), loss[i].Make(), ctx[i]->where);
    }
    ceres::Solver::Options o;
    o.max_num_iterations = 100;
    o.linear_solver_type = ceres::DENSE_QR;
    o.logging_type = ceres::SILENT;
    ceres::Solve(o, &p, &summary);
    xcc = values();
    for (auto* k : costs) calls.push_back(k->calls_);
  }
  REQUIRE("solve/same", SameBits(xc, xcc), StrX(xc), " vs ", StrX(xcc), " ", summary.BriefReport());
  for (int i = 0; i < nr; ++i) REQUIRE("solve/calls", ctx[i]->calls == calls[i], "residual ", i, ": ", ctx[i]->calls, " evaluations instead of ", calls[i]);
  REQUIRE("solve/report", printed.find("Termination:") != std::string::npos &&
          printed.find(ceres::TerminationTypeToString(summary.termination_type)) != std::string::npos, printed);
  // Everything is freed (second run: caches are warm).
  const size_t before = __sanitizer_get_current_allocated_bytes();
  solve_c(false);
  const size_t after = __sanitizer_get_current_allocated_bytes();
  REQUIRE("solve/leak", after <= before, after - before, " bytes more after another solve");
  c.label(ceres::TerminationTypeToString(summary.termination_type));
  if (user_loss_calls) c.label("user loss");
  if (g_cost || g_loss) c.label("null user data");
  c.nontrivial(summary.iterations.size() > 2 || (failing && summary.termination_type == ceres::FAILURE));
}

PBT_PROP(losses, 60000, 2000000) {
  LossSpec l;
  l.kind = c.pick({kHuber, kSoftL1, kCauchy, kArctan, kTolerant});
  l.a = c.logreal(1e-3, 1e3);
  l.b = c.logreal(1e-2, 1e2) ;
  void* d = StockData(l);
  REQUIRE("losses/data", d != nullptr, "");
  std::unique_ptr<ceres::LossFunction> ref(l.Make());
  for (int i = 0; i < 4; ++i) {
    const double s = i == 0 ? 0.0 : c.logreal(1e-6, 1e6);
    double a[5] = {7, -1, -2, -3, 7}, b[3] = {-1, -2, -3};
    ceres_stock_loss_function(d, s, a + 1);
    ref->Evaluate(s, b);
    for (int k = 0; k < 3; ++k) REQUIRE("losses/value", a[k + 1] == b[k] || (std::isnan(a[k + 1]) && std::isnan(b[k])), l.Str(), " s ", s, " component ", k, ": ", a[k + 1], " vs ", b[k]);
    REQUIRE("losses/bounds", a[0] == 7 && a[4] == 7, "");
  }
  ceres_free_stock_loss_function_data(d);
  c.label(l.Str().substr(0, 4));
  c.nontrivial();
}

PBT_MAIN("C33", "solve: more than one iteration, or a failing callback that ends the solve; losses: every case")
