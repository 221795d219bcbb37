// C08: owned objects live as long as needed and are destroyed exactly once.
// pbt-build: flavor=rel
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <vector>

#include "ceres/ceres.h"
#include "ceres/conditioned_cost_function.h"
#include "ceres/cost_function_to_functor.h"
#include "ceres/dynamic_cost_function_to_functor.h"
#include "pbt.h"

// ---- instrumented objects ---------------------------------------------------
// Every object has a ticket; the registry knows which tickets are alive.
struct Registry {
  std::mutex mu;
  std::vector<int> destroyed;  // number of destructions per ticket
  std::string error;
  int New() { std::lock_guard<std::mutex> l(mu); destroyed.push_back(0); return (int)destroyed.size() - 1; }
  void Destroy(int id, const char* what) {
    std::lock_guard<std::mutex> l(mu);
    if (id < 0 || id >= (int)destroyed.size() || destroyed[id] != 0) { if (error.empty()) error = pbt::Str(what, " destroyed twice or never created, ticket ", id); return; }
    ++destroyed[id];
  }
  void Use(int id, const char* what) {
    std::lock_guard<std::mutex> l(mu);
    if (id < 0 || id >= (int)destroyed.size() || destroyed[id] != 0) if (error.empty()) error = pbt::Str(what, " used after destruction, ticket ", id);
  }
};
static Registry* g = nullptr;

// Poisons its ticket when destroyed, so that later uses are noticed.
struct Ticket {
  explicit Ticket(const char* w) : what(w), id(g->New()) {}
  Ticket(const Ticket&) = delete;
  ~Ticket() { g->Destroy(id, what); volatile int* p = &id; *p = -1; }
  void Use() const { g->Use(id, what); }
  const char* what;
  int id;
};

struct TCost : ceres::CostFunction {
  Ticket t{"cost function"};
  TCost(const std::vector<int>& sizes, int rows) {
    set_num_residuals(rows);
    for (int s : sizes) mutable_parameter_block_sizes()->push_back(s);
  }
  bool Evaluate(double const* const* p, double* r, double** j) const override {
    t.Use();
    const auto& sz = parameter_block_sizes();
    for (int i = 0; i < num_residuals(); ++i) {
      r[i] = 0.5 * i;
      for (size_t b = 0; b < sz.size(); ++b) for (int k = 0; k < sz[b]; ++k) {
        r[i] += p[b][k] * (1 + ((i + k) % 3));
        if (j && j[b]) j[b][i * sz[b] + k] = 1 + ((i + k) % 3);
      }
    }
    return true;
  }
};
struct TLoss : ceres::LossFunction {
  Ticket t{"loss function"};
  void Evaluate(double s, double r[3]) const override { t.Use(); const double q = 1 + s; r[0] = std::log(q); r[1] = 1 / q; r[2] = -r[1] * r[1]; }
};
struct TMani : ceres::Manifold {
  Ticket t{"manifold"};
  int n, f;
  TMani(int size, int fixed) : n(size), f(std::min(fixed, size)) {}
  int AmbientSize() const override { t.Use(); return n; }
  int TangentSize() const override { t.Use(); return n - f; }
  bool Plus(const double* x, const double* d, double* y) const override { t.Use(); for (int i = 0; i < n; ++i) y[i] = x[i] + (i >= f ? d[i - f] : 0); return true; }
  bool PlusJacobian(const double*, double* j) const override { t.Use(); for (int i = 0; i < n; ++i) for (int k = 0; k < n - f; ++k) j[i * (n - f) + k] = i == k + f; return true; }
  bool Minus(const double* y, const double* x, double* d) const override { t.Use(); for (int i = f; i < n; ++i) d[i - f] = y[i] - x[i]; return true; }
  bool MinusJacobian(const double*, double* j) const override { t.Use(); for (int k = 0; k < n - f; ++k) for (int i = 0; i < n; ++i) j[k * n + i] = i == k + f; return true; }
};
struct TFunctor {  // one parameter block of size 2, one residual
  Ticket t{"functor"};
  template <typename T> bool operator()(const T* x, T* r) const { t.Use(); r[0] = x[0] * x[0] + x[1] - 1.0; return true; }
  template <typename T> bool operator()(T const* const* x, T* r) const { t.Use(); r[0] = x[0][0] * x[0][0] + x[0][1] - 1.0; return true; }
};
struct TWrap {  // functor using a library adapter (which owns a cost function)
  ceres::CostFunctionToFunctor<1, 2> f;
  explicit TWrap(ceres::CostFunction* c) : f(c) {}
  template <typename T> bool operator()(const T* x, T* r) const { return f(x, r); }
};
struct TDynWrap {
  ceres::DynamicCostFunctionToFunctor f;
  explicit TDynWrap(ceres::CostFunction* c) : f(c) {}
  template <typename T> bool operator()(T const* const* x, T* r) const { return f(x, r); }
};
struct TFirst : ceres::FirstOrderFunction {
  Ticket t{"first order function"};
  int n;
  explicit TFirst(int s) : n(s) {}
  bool Evaluate(const double* x, double* cost, double* grad) const override {
    t.Use();
    *cost = 0;
    for (int i = 0; i < n; ++i) { *cost += (x[i] - i) * (x[i] - i); if (grad) grad[i] = 2 * (x[i] - i); }
    return true;
  }
  int NumParameters() const override { t.Use(); return n; }
};
struct TFirstFunctor {
  Ticket t{"first order functor"};
  template <typename T> bool operator()(const T* x, T* r) const { t.Use(); r[0] = x[0] * x[0] + x[1] * x[1]; return true; }
};

// An object handed to the library, with the tickets that die with it and the
// objects it only borrows.
template <typename T> struct Handle {
  T* p = nullptr;
  std::vector<int> owned;                          // tickets destroyed together with p
  std::vector<std::shared_ptr<void>> borrowed;     // kept alive by the harness
  std::vector<int> borrowed_tickets;
};

static void Absorb(Handle<ceres::CostFunction>* h, const std::vector<int>& t) { h->owned.insert(h->owned.end(), t.begin(), t.end()); }

static Handle<ceres::CostFunction> MakeCost(pbt::Case& c, const std::vector<int>& sizes) {
  Handle<ceres::CostFunction> h;
  const int rows = c.range(1, 3);
  const bool two = sizes.size() == 1 && sizes[0] == 2;
  switch (c.range(0, two ? 7 : 1)) {
    default: case 0: { auto* q = new TCost(sizes, rows); h.p = q; h.owned = {q->t.id}; break; }
    case 1: {  // conditioned, possibly with shared or absent conditioners
      auto* q = new TCost(sizes, rows);
      const bool own = c.coin();
      std::vector<ceres::CostFunction*> cond;
      TCost* shared = nullptr;
      for (int i = 0; i < rows; ++i) {
        if (c.chance(1, 3)) { cond.push_back(nullptr); continue; }
        if (!shared || c.coin()) {
          shared = new TCost({1}, 1);
          if (own) h.owned.push_back(shared->t.id); else { h.borrowed.emplace_back(std::shared_ptr<TCost>(shared)); h.borrowed_tickets.push_back(shared->t.id); }
        }
        cond.push_back(shared);
      }
      if (own) h.owned.push_back(q->t.id); else { h.borrowed.emplace_back(std::shared_ptr<TCost>(q)); h.borrowed_tickets.push_back(q->t.id); }
      h.p = new ceres::ConditionedCostFunction(q, cond, own ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP);
      break;
    }
    case 2: {
      auto* f = new TFunctor;
      const bool own = c.coin();
      const int id = f->t.id;
      h.p = new ceres::AutoDiffCostFunction<TFunctor, 1, 2>(f, own ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP);
      if (own) h.owned = {id}; else { h.borrowed.emplace_back(std::shared_ptr<TFunctor>(f)); h.borrowed_tickets.push_back(id); }
      break;
    }
    case 3: {
      auto* f = new TFunctor;
      const bool own = c.coin();
      const int id = f->t.id;
      h.p = new ceres::NumericDiffCostFunction<TFunctor, ceres::CENTRAL, 1, 2>(f, own ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP);
      if (own) h.owned = {id}; else { h.borrowed.emplace_back(std::shared_ptr<TFunctor>(f)); h.borrowed_tickets.push_back(id); }
      break;
    }
    case 4: case 5: {
      auto* f = new TFunctor;
      const bool own = c.coin(), numeric = c.coin();
      const int id = f->t.id;
      const ceres::Ownership o = own ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP;
      if (numeric) {
        auto* q = new ceres::DynamicNumericDiffCostFunction<TFunctor>(f, o);
        q->AddParameterBlock(2); q->SetNumResiduals(1); h.p = q;
      } else {
        auto* q = new ceres::DynamicAutoDiffCostFunction<TFunctor, 2>(f, o);
        q->AddParameterBlock(2); q->SetNumResiduals(1); h.p = q;
      }
      if (own) h.owned = {id}; else { h.borrowed.emplace_back(std::shared_ptr<TFunctor>(f)); h.borrowed_tickets.push_back(id); }
      break;
    }
    case 6: {
      auto* q = new TCost(sizes, 1);
      h.owned = {q->t.id};
      h.p = new ceres::AutoDiffCostFunction<TWrap, 1, 2>(new TWrap(q));
      break;
    }
    case 7: {
      auto* q = new TCost(sizes, 1);
      h.owned = {q->t.id};
      auto* d = new ceres::DynamicAutoDiffCostFunction<TDynWrap, 4>(new TDynWrap(q));
      d->AddParameterBlock(2); d->SetNumResiduals(1);
      h.p = d;
      break;
    }
  }
  return h;
}

static Handle<ceres::LossFunction> MakeLoss(pbt::Case& c, int depth = 0) {
  Handle<ceres::LossFunction> h;
  auto child = [&](bool own) -> ceres::LossFunction* {
    Handle<ceres::LossFunction> k = MakeLoss(c, depth + 1);
    h.borrowed.insert(h.borrowed.end(), k.borrowed.begin(), k.borrowed.end());
    h.borrowed_tickets.insert(h.borrowed_tickets.end(), k.borrowed_tickets.begin(), k.borrowed_tickets.end());
    if (own) h.owned.insert(h.owned.end(), k.owned.begin(), k.owned.end());
    else { h.borrowed.emplace_back(std::shared_ptr<ceres::LossFunction>(k.p)); h.borrowed_tickets.insert(h.borrowed_tickets.end(), k.owned.begin(), k.owned.end()); }
    return k.p;
  };
  const int kind = depth < 2 ? c.range(0, 4) : 0;
  auto own = [](bool b) { return b ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP; };
  switch (kind) {
    case 0: { auto* q = new TLoss; h.p = q; h.owned = {q->t.id}; break; }
    case 1: { const bool o = c.coin(); auto* k = child(o); h.p = new ceres::ScaledLoss(k, 2.0, own(o)); break; }
    case 2: {
      const bool o1 = c.coin(), o2 = c.coin();
      auto* a = child(o1); auto* b = child(o2);
      h.p = new ceres::ComposedLoss(a, own(o1), b, own(o2));
      break;
    }
    case 3: case 4: {
      const bool o = c.coin();
      auto* k = c.chance(1, 5) ? nullptr : child(o);
      auto* w = new ceres::LossFunctionWrapper(k, own(o));
      h.p = w;
      break;
    }
  }
  return h;
}

struct Slot { std::unique_ptr<double[]> x; int size; bool alive; int mani = -1; };
struct Res { ceres::ResidualBlockId id; std::vector<int> blocks; int cost, loss; bool alive; };

static void Alive(pbt::Case& c, const std::vector<int>& tickets, const char* what) {
  for (int t : tickets) REQUIRE("destroyed_early", g->destroyed[t] == 0, what, " ticket ", t);
}

PBT_PROP(history, 250000, 6000000) {
  Registry reg;
  g = &reg;
  const bool own_cost = !c.chance(1, 4), own_loss = !c.chance(1, 4), own_mani = !c.chance(1, 4);
  std::vector<Handle<ceres::CostFunction>> costs;
  std::vector<Handle<ceres::LossFunction>> losses;
  std::vector<std::pair<TMani*, int>> manis;
  std::vector<bool> mani_given;
  std::vector<std::vector<int>> cost_sizes;
  std::vector<bool> cost_gone, loss_gone;  // no residual uses it any more (the problem may have destroyed it)
  std::vector<Slot> b;
  std::vector<Res> r;
  {
    ceres::Problem::Options po;
    po.cost_function_ownership = own_cost ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP;
    po.loss_function_ownership = own_loss ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP;
    po.manifold_ownership = own_mani ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP;
    po.enable_fast_removal = c.coin();
    std::unique_ptr<ceres::Problem> p(new ceres::Problem(po));
    c.note() << "own " << own_cost << own_loss << own_mani << ":";
    auto in_use = [&](bool cost, int k) { for (auto& q : r) if (q.alive && (cost ? q.cost : q.loss) == k) return true; return false; };
    auto refresh = [&] {
      for (size_t k = 0; k < costs.size(); ++k) cost_gone[k] = !in_use(true, k);
      for (size_t k = 0; k < losses.size(); ++k) loss_gone[k] = !in_use(false, k);
    };
    const int n = c.range(2, 45);
    for (int step = 0; step < n; ++step) {
      std::vector<int> ab, ar;
      for (size_t i = 0; i < b.size(); ++i) if (b[i].alive) ab.push_back(i);
      for (size_t i = 0; i < r.size(); ++i) if (r[i].alive) ar.push_back(i);
      switch (step < 2 ? 0 : c.range(0, 13)) {
        case 0: {
          Slot s;
          s.size = c.pick({2, 1, 3});
          s.x.reset(new double[s.size]);
          for (int k = 0; k < s.size; ++k) s.x[k] = c.sym(1.0);
          s.alive = true;
          p->AddParameterBlock(s.x.get(), s.size);
          b.push_back(std::move(s));
          c.note() << " +B";
          break;
        }
        case 1: case 2: case 3: case 4: {
          if (ab.empty()) break;
          Res q;
          const auto perm = c.permutation(ab.size());
          const int k = c.range(1, std::min<int>(2, ab.size()));
          std::vector<int> sizes;
          std::vector<double*> ptrs;
          for (int i = 0; i < k; ++i) { q.blocks.push_back(ab[perm[i]]); sizes.push_back(b[ab[perm[i]]].size); ptrs.push_back(b[ab[perm[i]]].x.get()); }
          // Share an object that is still in use (or, without ownership, any).
          q.cost = -1;
          if (c.chance(1, 2)) for (size_t i = 0; i < costs.size(); ++i) if (cost_sizes[i] == sizes && (!cost_gone[i] || !own_cost)) { q.cost = i; if (c.coin()) break; }
          if (q.cost < 0) { costs.push_back(MakeCost(c, sizes)); cost_sizes.push_back(sizes); cost_gone.push_back(false); q.cost = costs.size() - 1; }
          q.loss = -1;
          const int lk = c.range(0, 2);
          if (lk == 1) for (size_t i = 0; i < losses.size(); ++i) if (!loss_gone[i] || !own_loss) { q.loss = i; if (c.coin()) break; }
          if (lk == 2) { losses.push_back(MakeLoss(c)); loss_gone.push_back(false); q.loss = losses.size() - 1; }
          q.id = p->AddResidualBlock(costs[q.cost].p, q.loss >= 0 ? losses[q.loss].p : nullptr, ptrs);
          q.alive = true;
          c.note() << " +R(c" << q.cost << ",l" << q.loss << ")";
          r.push_back(q);
          refresh();
          break;
        }
        case 5: {
          if (ab.empty()) break;
          const int i = c.pick(ab);
          p->RemoveParameterBlock(b[i].x.get());
          b[i].alive = false;
          for (auto& q : r) for (int k : q.blocks) if (k == i) q.alive = false;
          refresh();
          c.note() << " -B" << i;
          break;
        }
        case 6: case 7: {
          if (ar.empty()) break;
          const int i = c.pick(ar);
          p->RemoveResidualBlock(r[i].id);
          r[i].alive = false;
          refresh();
          c.note() << " -R" << i;
          break;
        }
        case 8: case 9: {
          if (ab.empty()) break;
          const int i = c.pick(ab);
          int m = -1;
          const int kind = c.range(0, 3);
          if (kind == 0) { p->SetManifold(b[i].x.get(), nullptr); b[i].mani = -1; c.note() << " M" << i << "=0"; break; }
          if (kind == 1) for (size_t k = 0; k < manis.size(); ++k) if (manis[k].first->n == b[i].size) { m = k; if (c.coin()) break; }
          if (m < 0) { auto* t = new TMani(b[i].size, c.range(0, 2)); manis.push_back({t, t->t.id}); m = manis.size() - 1; }
          p->SetManifold(b[i].x.get(), manis[m].first);
          b[i].mani = m;
          c.note() << " M" << i << "=m" << m;
          break;
        }
        case 10: {
          ceres::Solver::Options o;
          o.logging_type = ceres::SILENT;
          o.max_num_iterations = c.range(0, 3);
          o.minimizer_type = c.chance(1, 4) ? ceres::LINE_SEARCH : ceres::TRUST_REGION;
          o.linear_solver_type = c.pick({ceres::DENSE_QR, ceres::SPARSE_NORMAL_CHOLESKY, ceres::DENSE_SCHUR, ceres::ITERATIVE_SCHUR});
          o.num_threads = c.pick({1, 2});
          o.use_inner_iterations = o.minimizer_type == ceres::TRUST_REGION && c.chance(1, 4);
          o.check_gradients = c.chance(1, 4);
          o.gradient_check_relative_precision = 1e-3;
          ceres::Solver::Summary sum;
          ceres::Solve(o, p.get(), &sum);
          c.note() << " solve" << (o.check_gradients ? "+check" : "");
          c.label("solved");
          break;
        }
        case 11: {
          double cost; std::vector<double> res, gr; ceres::CRSMatrix j;
          ceres::Problem::EvaluateOptions o;
          o.num_threads = c.pick({1, 2});
          p->Evaluate(o, &cost, &res, &gr, &j);
          break;
        }
        case 12: {
          if (ab.empty() || ar.empty()) break;
          ceres::Covariance::Options o;
          o.algorithm_type = c.coin() ? ceres::DENSE_SVD : ceres::SPARSE_QR;
          if (o.algorithm_type == ceres::DENSE_SVD) o.null_space_rank = -1;
          ceres::Covariance cov(o);
          const int i = c.pick(ab);
          cov.Compute(std::vector<std::pair<const double*, const double*>>{{b[i].x.get(), b[i].x.get()}}, p.get());
          break;
        }
        case 13: {
          std::unique_ptr<ceres::Problem> q;
          if (c.coin()) { q.reset(new ceres::Problem(std::move(*p))); }
          else { q.reset(new ceres::Problem()); *q = std::move(*p); }
          p = std::move(q);
          c.note() << " move";
          break;
        }
      }
      // Nothing in use is gone; nothing the problem does not own is gone.
      REQUIRE("use_after_destroy", reg.error.empty(), reg.error);
      for (size_t k = 0; k < costs.size(); ++k) {
        if (!own_cost || in_use(true, k)) Alive(c, costs[k].owned, "cost function");
        Alive(c, costs[k].borrowed_tickets, "part of a cost function that is only borrowed");
      }
      for (size_t k = 0; k < losses.size(); ++k) {
        if (!own_loss || in_use(false, k)) Alive(c, losses[k].owned, "loss function");
        Alive(c, losses[k].borrowed_tickets, "part of a loss function that is only borrowed");
      }
      for (size_t k = 0; k < manis.size(); ++k) {
        // (An owned manifold belongs to the problem until the end, so that it can be set again.)
        Alive(c, {manis[k].second}, "manifold");
      }
    }
    bool any = false;
    for (auto& q : r) any |= q.alive;
    c.nontrivial(r.size() >= 2 && any);
  }
  // The problem is gone.
  auto end = [&](bool owned, const std::vector<int>& t, const char* what) {
    for (int k : t) REQUIRE(owned ? "leaked_or_destroyed_twice" : "destroyed_though_not_owned", reg.destroyed[k] == (owned ? 1 : 0), what, " destroyed ", reg.destroyed[k], " times");
  };
  REQUIRE("use_after_destroy", reg.error.empty(), reg.error);
  for (auto& h : costs) { end(own_cost, h.owned, "cost function"); end(false, h.borrowed_tickets, "borrowed cost part"); if (!own_cost) delete h.p; h.borrowed.clear(); }
  for (auto& h : losses) { end(own_loss, h.owned, "loss function"); end(false, h.borrowed_tickets, "borrowed loss part"); if (!own_loss) delete h.p; h.borrowed.clear(); }
  for (auto& m : manis) { end(own_mani, {m.second}, "manifold"); if (!own_mani) delete m.first; }
  REQUIRE("use_after_destroy", reg.error.empty(), reg.error);
  for (size_t k = 0; k < reg.destroyed.size(); ++k) REQUIRE("leaked_or_destroyed_twice", reg.destroyed[k] == 1, "ticket ", k, " destroyed ", reg.destroyed[k], " times");
}

// A loss wrapper owns what it was given last, and lets go of the rest.
PBT_PROP(loss_wrapper, 20000, 300000) {
  Registry reg;
  g = &reg;
  struct Given { int id; bool own; TLoss* p; };
  std::vector<Given> given;
  {
    auto next = [&](bool own) -> TLoss* {
      if (c.chance(1, 6)) return nullptr;
      auto* q = new TLoss;
      given.push_back({q->t.id, own, q});
      return q;
    };
    auto o = [](bool b) { return b ? ceres::TAKE_OWNERSHIP : ceres::DO_NOT_TAKE_OWNERSHIP; };
    bool own = c.coin();
    TLoss* cur = next(own);
    ceres::LossFunctionWrapper w(cur, o(own));
    const int n = c.range(0, 6);
    for (int k = 0; k < n; ++k) {
      own = c.coin();
      TLoss* before = cur;
      const size_t held = given.size();
      cur = next(own);
      c.note() << (own ? "own " : "borrow ");
      w.Reset(cur, o(own));
      double rho[3];
      w.Evaluate(2.0, rho);
      REQUIRE("wrapper_value", std::fabs(rho[0] - (cur ? std::log(3.0) : 2.0)) < 1e-12, rho[0]);
      for (size_t i = 0; i < held; ++i) {
        const bool current = given[i].p == cur;
        if (!current) REQUIRE("previous_loss", reg.destroyed[given[i].id] == (given[i].own ? 1 : 0), i);
      }
      (void)before;
    }
    c.nontrivial(n > 0);
  }
  for (auto& q : given) REQUIRE("leaked_or_destroyed_twice", reg.destroyed[q.id] == (q.own ? 1 : 0), q.id);
  REQUIRE("use_after_destroy", reg.error.empty(), reg.error);
  for (auto& q : given) if (!q.own) delete q.p;
}

// Objects owned by gradient problems, product manifolds and functor adapters.
PBT_PROP(other_owners, 20000, 300000) {
  Registry reg;
  g = &reg;
  std::vector<int> mine;  // tickets of objects the harness keeps
  {
    const int kind = c.range(0, 3);
    c.note() << "kind " << kind;
    if (kind == 0) {
      const int n = c.range(1, 4);
      ceres::FirstOrderFunction* f;
      if (n == 2 && c.coin()) f = new ceres::AutoDiffFirstOrderFunction<TFirstFunctor, 2>(new TFirstFunctor);
      else if (n == 2 && c.coin()) f = new ceres::NumericDiffFirstOrderFunction<TFirstFunctor, ceres::CENTRAL, 2>(new TFirstFunctor);
      else f = new TFirst(n);
      std::unique_ptr<ceres::GradientProblem> p;
      if (c.coin()) p.reset(new ceres::GradientProblem(std::unique_ptr<ceres::FirstOrderFunction>(f), std::unique_ptr<ceres::Manifold>(new TMani(n, c.range(0, n - 1)))));
      else p.reset(new ceres::GradientProblem(std::unique_ptr<ceres::FirstOrderFunction>(f)));
      std::vector<double> x(n, 0.5);
      ceres::GradientProblemSolver::Options o;
      o.logging_type = ceres::SILENT;
      o.max_num_iterations = c.range(0, 5);
      ceres::GradientProblemSolver::Summary s;
      for (int k = c.range(0, 2); k > 0; --k) ceres::Solve(o, *p, x.data(), &s);
      for (int t : reg.destroyed) REQUIRE("destroyed_early", t == 0, "");
    } else if (kind == 1) {
      const bool share = c.coin();
      std::unique_ptr<ceres::Problem> p(new ceres::Problem);
      double x[5] = {1, 2, 3, 4, 5}, y[5] = {1, 2, 3, 4, 5};
      using PM = ceres::ProductManifold<std::unique_ptr<TMani>, ceres::EuclideanManifold<2>>;
      auto* m = new PM(std::make_unique<TMani>(3, 1), ceres::EuclideanManifold<2>{});
      p->AddParameterBlock(x, 5, m);
      p->AddParameterBlock(y, 5);
      if (share) p->SetManifold(y, m);
      p->RemoveParameterBlock(x);
      REQUIRE("destroyed_early", !share || reg.destroyed[0] == 0, "");
      if (c.coin()) { p->SetManifold(y, nullptr); }
    } else if (kind == 2) {
      // A functor adapter owns its cost function; moving it moves the ownership.
      auto* q = new TCost({2}, 1);
      const int id = q->t.id;
      auto w = std::make_unique<ceres::CostFunctionToFunctor<1, 2>>(q);
      for (int k = c.range(0, 4); k > 0; --k) {
        w = std::make_unique<ceres::CostFunctionToFunctor<1, 2>>(std::move(*w));
        REQUIRE("destroyed_early", reg.destroyed[id] == 0, "");
        double x[2] = {1, 2}, r;
        REQUIRE("adapter_failed", (*w)(x, &r), "");
      }
      w.reset();
      REQUIRE("leaked_or_destroyed_twice", reg.destroyed[id] == 1, "");
    } else {
      // A problem inside another scope with a shared context.
      std::unique_ptr<ceres::Context> ctx(ceres::Context::Create());
      double x[2] = {1, 2};
      for (int k = c.range(1, 3); k > 0; --k) {
        ceres::Problem::Options po;
        po.context = ctx.get();
        ceres::Problem p(po);
        p.AddResidualBlock(new ceres::AutoDiffCostFunction<TFunctor, 1, 2>(std::make_unique<TFunctor>()), nullptr, x);
        ceres::Solver::Options o;
        o.logging_type = ceres::SILENT;
        o.num_threads = 2;
        ceres::Solver::Summary s;
        ceres::Solve(o, &p, &s);
      }
    }
    c.nontrivial(true);
  }
  REQUIRE("use_after_destroy", reg.error.empty(), reg.error);
  for (size_t k = 0; k < reg.destroyed.size(); ++k) REQUIRE("leaked_or_destroyed_twice", reg.destroyed[k] == 1, "ticket ", k, " destroyed ", reg.destroyed[k], " times");
}

PBT_MAIN("C08", "the history adds at least two residual blocks and one is left at the end (others: an object changes hands)")
