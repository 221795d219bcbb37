// C25: orderings are valid: permutations, independent sets and groups.
// pbt-build: flavor=asan
#include <algorithm>
#include <map>
#include <set>

#include "ceres/compressed_col_sparse_matrix_utils.h"
#include "ceres/coordinate_descent_minimizer.h"
#include "ceres/evaluator.h"
#include "ceres/graph.h"
#include "ceres/graph_algorithms.h"
#include "ceres/linear_solver.h"
#include "ceres/ordered_groups.h"
#include "ceres/parameter_block.h"
#include "ceres/parameter_block_ordering.h"
#include "ceres/preprocessor.h"
#include "ceres/problem_impl.h"
#include "ceres/program.h"
#include "ceres/reorder_program.h"
#include "ceres/residual_block.h"
#include "problem_gen.h"

using namespace pg;
namespace ci = ceres::internal;

// ---- Group containers ------------------------------------------------------
using Groups = std::map<int, std::set<int>>;

static void CheckGroups(pbt::Case& c, const ceres::OrderedGroups<int>& g, const Groups& m, int universe) {
  int n = 0;
  for (auto& x : m) n += x.second.size();
  REQUIRE("groups/count", g.NumGroups() == static_cast<int>(m.size()) && g.NumElements() == n, g.NumGroups(), " groups, ", g.NumElements(), " elements");
  REQUIRE("groups/map", g.group_to_elements() == m, "");
  REQUIRE("groups/inverse", static_cast<int>(g.element_to_group().size()) == n, "");
  for (int e = 0; e < universe; ++e) {
    int id = -1;
    for (auto& x : m) if (x.second.count(e)) id = x.first;
    REQUIRE("groups/id", g.GroupId(e) == id && g.IsMember(e) == (id >= 0), "element ", e, " is in ", g.GroupId(e), " instead of ", id);
    if (id >= 0) REQUIRE("groups/inverse", g.element_to_group().count(e) && g.element_to_group().at(e) == id, "element ", e);
  }
  for (int k = -1; k < 12; ++k) REQUIRE("groups/size", g.GroupSize(k) == (m.count(k) ? static_cast<int>(m.at(k).size()) : 0), "group ", k);
  if (!m.empty()) REQUIRE("groups/min", g.MinNonZeroGroup() == m.begin()->first, "");
}
PBT_PROP(groups, 100000, 6000000) {
  const int universe = c.size(1, 10);
  ceres::OrderedGroups<int> g;
  Groups m;
  auto drop = [&](int e) {
    for (auto i = m.begin(); i != m.end(); ++i)
      if (i->second.erase(e)) { if (i->second.empty()) m.erase(i); return true; }
    return false;
  };
  bool reversed = false;
  int removed = 0;
  for (int s = c.size(1, 50); s > 0; --s) {
    const int op = c.range(0, 11), e = c.range(0, universe - 1);
    if (op <= 6) {
      const int k = c.chance(1, 10) ? -c.range(1, 3) : c.range(0, 8);
      REQUIRE("groups/add", g.AddElementToGroup(e, k) == (k >= 0), "group ", k);
      if (k >= 0) { drop(e); m[k].insert(e); }
    } else if (op <= 8) {
      const bool had = drop(e);
      removed += had;
      REQUIRE("groups/remove", g.Remove(e) == had, "element ", e);
    } else if (op == 9) {
      std::vector<int> v;
      for (int i = c.range(0, 4); i > 0; --i) v.push_back(c.range(0, universe - 1));
      int n = 0;
      for (int x : v) n += drop(x);
      removed += n;
      REQUIRE("groups/remove_many", g.Remove(v) == n, "");
    } else if (op == 10) {
      const Groups before = m;
      g.Reverse();
      // Same sets in the opposite order; the new ids are the container's choice.
      Groups after = g.group_to_elements();
      REQUIRE("groups/reverse", after.size() == before.size() && std::equal(after.begin(), after.end(), before.rbegin(),
              [](const auto& a, const auto& b) { return a.second == b.second; }), "");
      m = after;
      reversed |= m.size() > 1;
    } else if (c.chance(1, 4)) {
      g.Clear();
      m.clear();
    }
    CheckGroups(c, g, m, universe);
  }
  ceres::OrderedGroups<int> copy(g);
  g.Clear();
  CheckGroups(c, copy, m, universe);
  c.nontrivial(m.size() > 1 && (reversed || removed > 1));
}

// ---- Independent sets ------------------------------------------------------
PBT_PROP(independent_set, 80000, 4000000) {
  const int n = c.size(0, 24);
  ci::Graph<int> g;
  std::vector<int> id;
  for (int i = 0; i < n; ++i) id.push_back(i * c.pick({1, 3}) + (i % 2 ? 100 : 0));
  std::sort(id.begin(), id.end());
  id.erase(std::unique(id.begin(), id.end()), id.end());
  for (int v : id) g.AddVertex(v);
  std::map<int, std::set<int>> adj;
  const int style = c.range(0, 2);
  for (size_t i = 0; i < id.size(); ++i)
    for (size_t j = 0; j < i; ++j)
      if (style == 0 ? c.chance(1, 5) : style == 1 ? ((i + j) % 2 && c.coin()) : c.chance(2, 3)) {
        g.AddEdge(id[i], id[j]);
        adj[id[i]].insert(id[j]);
        adj[id[j]].insert(id[i]);
      }
  for (const bool stable : {false, true}) {
    std::vector<int> in, out;
    for (int k : c.permutation(id.size())) in.push_back(id[k]);
    out = in;
    if (!stable && c.coin()) out.clear();
    const int k = stable ? ci::StableIndependentSetOrdering(g, &out) : ci::IndependentSetOrdering(g, &out);
    std::vector<int> sorted = out;
    std::sort(sorted.begin(), sorted.end());
    REQUIRE("independent_set/permutation", sorted == id, "stable ", stable);
    REQUIRE("independent_set/count", k >= (id.empty() ? 0 : 1) && k <= static_cast<int>(id.size()), k);
    std::set<int> S(out.begin(), out.begin() + k);
    for (int v : S) for (int u : adj[v]) REQUIRE("independent_set/independent", !S.count(u), "vertices ", u, " and ", v, " share an edge");
    for (size_t i = k; i < out.size(); ++i)
      REQUIRE("independent_set/maximal", std::any_of(adj[out[i]].begin(), adj[out[i]].end(), [&](int u) { return S.count(u) > 0; }), "vertex ", out[i], " could be added");
    auto before = [&](int a, int b) {  // a may precede b
      if (adj[a].size() != adj[b].size()) return adj[a].size() < adj[b].size();
      if (stable) return std::find(in.begin(), in.end(), a) < std::find(in.begin(), in.end(), b);
      return a < b;
    };
    for (size_t i = 0; i + 1 < out.size(); ++i)
      if (static_cast<int>(i) + 1 != k) REQUIRE("independent_set/sorted", before(out[i], out[i + 1]), "stable ", stable, ": ", out[i], " before ", out[i + 1]);
    c.nontrivial(k > 1 && k < static_cast<int>(id.size()));
  }
}

// ---- Orderings of programs -------------------------------------------------
static bool Conflict(const Spec& s, int a, int b) {
  for (auto& r : s.res) {
    bool ha = false, hb = false;
    for (int k : r.blocks) { ha |= k == a; hb |= k == b; }
    if (ha && hb) return true;
  }
  return false;
}
static bool Active(const Spec& s, int b) {
  if (s.blocks[b].constant || s.blocks[b].tangent() == 0) return false;
  for (auto& r : s.res) for (int k : r.blocks) if (k == b) return true;
  return false;
}
static int Index(const Instance& in, const double* p) {
  for (size_t b = 0; b < in.x.size(); ++b) if (in.x[b].get() == p) return b;
  return -1;
}
static Spec GenSpec(pbt::Case& c) {
  GenOptions g;
  g.losses = g.nonlinear = false;
  g.bounds = false;
  Spec s = Gen(c, g);
  if (c.chance(1, 3)) for (auto& b : s.blocks) if (c.chance(1, 4)) b.constant = true;
  return s;
}

PBT_PROP(schur_ordering, 40000, 2500000) {
  const Spec s = GenSpec(c);
  Instance in(s);
  const int nb = s.blocks.size();
  auto* impl = in.problem->mutable_impl();
  const ci::Program& program = impl->program();
  auto is_const = [&](int b) { return s.blocks[b].constant || s.blocks[b].tangent() == 0; };
  int variable = 0, edges = 0;
  for (int b = 0; b < nb; ++b) variable += !is_const(b);
  auto graph = ci::CreateHessianGraph(program);
  REQUIRE("hessian_graph/vertices", static_cast<int>(graph->vertices().size()) == variable, "");
  for (auto* v : graph->vertices()) {
    const int a = Index(in, v->user_state());
    REQUIRE("hessian_graph/vertices", a >= 0 && !is_const(a), "block ", a);
    int degree = 0;
    for (int b = 0; b < nb; ++b) {
      if (b == a || is_const(b) || !Conflict(s, a, b)) continue;
      ++degree;
      bool found = false;
      for (auto* u : graph->Neighbors(v)) found |= u->user_state() == in.x[b].get();
      REQUIRE("hessian_graph/edges", found, "blocks ", a, " and ", b, " share a residual");
    }
    REQUIRE("hessian_graph/edges", static_cast<int>(graph->Neighbors(v).size()) == degree, "block ", a);
    edges += degree;
  }
  std::vector<int> first;
  for (const bool stable : {false, true}) {
    std::vector<ci::ParameterBlock*> o;
    if (c.coin()) o = program.parameter_blocks();
    const int k = stable ? ci::ComputeStableSchurOrdering(program, &o) : ci::ComputeSchurOrdering(program, &o);
    std::vector<int> p;
    for (auto* b : o) p.push_back(Index(in, b->user_state()));
    std::vector<int> q = p;
    std::sort(q.begin(), q.end());
    for (int i = 0; i < nb; ++i) REQUIRE("schur_ordering/permutation", static_cast<int>(q.size()) == nb && q[i] == i, "stable ", stable);
    REQUIRE("schur_ordering/size", k <= variable && (variable == 0 || k >= 1), k);
    for (int i = 0; i < nb; ++i) {
      REQUIRE("schur_ordering/constants_last", is_const(p[i]) == (i >= variable), "position ", i, " stable ", stable);
      for (int j = 0; j < i && i < k; ++j) REQUIRE("schur_ordering/independent", !Conflict(s, p[i], p[j]), "blocks ", p[i], " and ", p[j], " stable ", stable);
      if (i >= k && i < variable) {
        bool blocked = false;
        for (int j = 0; j < k; ++j) blocked |= Conflict(s, p[i], p[j]);
        REQUIRE("schur_ordering/maximal", blocked, "block ", p[i], " could be eliminated too");
      }
    }
  }
  // The stable ordering does not depend on where the blocks happen to be in memory.
  {
    std::vector<ci::ParameterBlock*> o1, o2;
    BuildOptions bo;
    bo.block_order = c.permutation(nb);
    Instance other(s, bo);
    auto* program2 = other.problem->mutable_impl()->mutable_program();
    auto* blocks = program2->mutable_parameter_blocks();
    std::sort(blocks->begin(), blocks->end(), [&](ci::ParameterBlock* a, ci::ParameterBlock* b) { return Index(other, a->user_state()) < Index(other, b->user_state()); });
    program2->SetParameterOffsetsAndIndex();
    ci::ComputeStableSchurOrdering(program, &o1);
    ci::ComputeStableSchurOrdering(*program2, &o2);
    std::vector<int> p1, p2;
    for (auto* b : o1) p1.push_back(Index(in, b->user_state()));
    for (auto* b : o2) p2.push_back(Index(other, b->user_state()));
    REQUIRE("schur_ordering/deterministic", p1 == p2, "");
  }
  // The recursive decomposition of the reduced program and its users.
  std::vector<double*> removed;
  double fixed = 0;
  std::string error;
  auto reduced = program.CreateReducedProgram(&removed, &fixed, &error);
  if (!reduced) return;
  ceres::ParameterBlockOrdering rec;
  rec.AddElementToGroup(in.x[0].get(), 3);
  ci::ComputeRecursiveIndependentSetOrdering(*reduced, &rec);
  auto inner = ci::CoordinateDescentMinimizer::CreateOrdering(*reduced);
  for (auto* o : {&rec, inner.get()}) {
    REQUIRE("recursive/elements", o->NumElements() == reduced->NumParameterBlocks(), o->NumElements());
    std::vector<int> sizes, got;
    for (auto& g : o->group_to_elements()) {
      sizes.push_back(g.second.size());
      for (double* a : g.second) {
        REQUIRE("recursive/elements", Index(in, a) >= 0 && Active(s, Index(in, a)), "");
        for (double* b : g.second) REQUIRE("recursive/independent", a == b || !Conflict(s, Index(in, a), Index(in, b)), "blocks ", Index(in, a), " and ", Index(in, b));
      }
    }
    ci::OrderingToGroupSizes(o, &got);
    REQUIRE("recursive/sizes", got == sizes, "");
    std::string message;
    REQUIRE("recursive/valid", ci::CoordinateDescentMinimizer::IsOrderingValid(*reduced, *o, &message), message);
  }
  {
    int id = 0;
    for (auto& g : rec.group_to_elements()) REQUIRE("recursive/rounds", g.first == id++, "group ", g.first);
  }
  c.label(variable < nb ? "with constants" : "no constants");
  c.nontrivial(edges > 2 && rec.NumGroups() > 1);
}

// ---- What the preprocessor makes of an ordering ----------------------------
PBT_PROP(preprocess, 60000, 2500000) {
  using namespace ceres;
  const Spec s = GenSpec(c);
  Instance in(s);
  const int nb = s.blocks.size();
  Config cfg;
  cfg.o.logging_type = SILENT;
  cfg.o.minimizer_type = TRUST_REGION;
  cfg.o.max_num_iterations = 2;
  GenLinearSolver(c, s, ConfigOptions(), &cfg);
  cfg.group.clear();
  Solver::Options o = cfg.Make(in);
  const bool schur = IsSchurType(o.linear_solver_type);
  // The ordering.
  const int kind = c.pick({0, 1, 1, 1, 2, 3, 4, 5, 6, 7});
  std::vector<std::unique_ptr<double[]>> foreign;
  auto order = std::make_shared<ParameterBlockOrdering>();
  std::vector<int> group(nb, -1);
  int num_foreign = 0;
  const int offset = c.pick({0, 0, 1, 7});
  if (kind == 1 || kind == 4 || kind == 5) group = GenIndependentGroups(c, s, c.coin());
  if (kind == 2 || kind == 7) std::fill(group.begin(), group.end(), 0);
  if (kind == 3) for (int& g : group) g = c.range(0, 2);                   // often dependent
  if (kind == 4 || kind == 7) for (int& g : group) if (c.chance(1, 4)) g = -1;  // incomplete
  if (kind == 6) for (int b = 0; b < nb; ++b) group[b] = Active(s, b) ? (c.chance(1, 4) ? 1 : -1) : 0;  // mostly blocks that go away
  for (int b = 0; b < nb; ++b) if (group[b] >= 0) order->AddElementToGroup(in.x[b].get(), group[b] + offset);
  if (kind == 5 || kind == 7) {
    int lacking = 0;
    if (kind == 5) { const int b = c.range(0, nb - 1); order->Remove(in.x[b].get()); group[b] = -1; }
    for (int b = 0; b < nb; ++b) lacking += group[b] < 0 && Active(s, b);
    num_foreign = c.coin() ? lacking : c.range(0, 2);
    for (int i = 0; i < num_foreign; ++i) { foreign.emplace_back(new double[4]()); order->AddElementToGroup(foreign.back().get(), c.range(0, 2) + offset); }
  }
  if (kind != 0) o.linear_solver_ordering = order;
  const std::map<int, std::set<double*>> given = order->group_to_elements();

  std::string why;
  REQUIRE("preprocess/options", o.IsValid(&why), why);
  auto* impl = in.problem->mutable_impl();
  impl->mutable_program()->SetParameterBlockStatePtrsToUserStatePtrs();
  ci::PreprocessedProblem pp;
  const bool ok = ci::Preprocessor::Create(TRUST_REGION)->Preprocess(o, impl, &pp);
  REQUIRE("preprocess/ordering_changed", given == order->group_to_elements(), "the user's ordering was modified");

  int active = 0;
  for (int b = 0; b < nb; ++b) active += Active(s, b);
  if (active == 0) { REQUIRE("preprocess/empty", ok && pp.reduced_program && pp.reduced_program->NumParameterBlocks() == 0, pp.error); return; }
  // What should happen.
  Groups left;
  int covered = 0;
  bool foreign_only_first = false;
  for (auto& g : given)
    for (double* p : g.second) {
      const int b = Index(in, p);
      if (b >= 0 && !Active(s, b)) continue;
      left[g.first].insert(b);
      covered += b >= 0;
    }
  (void)foreign_only_first;
  const bool vanished = schur && kind != 0 && !given.empty() && !left.empty() && left.begin()->first != given.begin()->first;
  LinearSolverType type = vanished ? ci::LinearSolver::LinearSolverForZeroEBlocks(o.linear_solver_type) : o.linear_solver_type;
  const PreconditionerType prec = pp.options.preconditioner_type;
  const bool reorders_schur = IsSchurType(type);
  const bool reorders_sparse = (type == SPARSE_NORMAL_CHOLESKY && !o.dynamic_sparsity) || (type == CGNR && prec == SUBSET);
  bool must_fail = false;
  if (kind != 0) {
    if (reorders_schur) {
      must_fail = covered != active || num_foreign > 0;
      if (!must_fail && left.size() > 1)
        for (int a : left.begin()->second) for (int b : left.begin()->second) must_fail |= a != b && Conflict(s, a, b);
    } else if (reorders_sparse) {
      must_fail = covered + num_foreign != active;
    }
  }
  c.label(pbt::Str(Name(o.linear_solver_type), kind == 0 ? " automatic" : must_fail ? " invalid" : vanished ? " first group vanished" : left.size() == 1 ? " one group" : " given"));
  if (must_fail) {
    REQUIRE("preprocess/accepted", !ok, "an ordering of ", covered, " of ", active, " active blocks with ", num_foreign, " foreign pointers was accepted");
    REQUIRE("preprocess/explanation", !pp.error.empty(), "");
    c.nontrivial();
    const std::vector<Vec> x0 = in.Values();
    Solver::Summary summary;
    Solve(o, in.problem.get(), &summary);
    REQUIRE("preprocess/solve", summary.termination_type == FAILURE && !summary.IsSolutionUsable() && !summary.message.empty() && SameBits(x0, in.Values()), summary.BriefReport());
    return;
  }
  REQUIRE("preprocess/rejected", ok, pp.error);
  REQUIRE("preprocess/type", pp.linear_solver_options.type == type, Name(pp.linear_solver_options.type), " instead of ", Name(type));
  // The reduced program is a permutation of the active blocks and residuals.
  const auto& blocks = pp.reduced_program->parameter_blocks();
  std::vector<int> p;
  for (size_t i = 0; i < blocks.size(); ++i) {
    p.push_back(Index(in, blocks[i]->user_state()));
    REQUIRE("preprocess/index", blocks[i]->index() == static_cast<int>(i), "block ", i);
    REQUIRE("preprocess/active", p.back() >= 0 && Active(s, p.back()), "block ", p.back());
  }
  REQUIRE("preprocess/permutation", std::set<int>(p.begin(), p.end()).size() == p.size() && static_cast<int>(p.size()) == active, p.size(), " blocks");
  std::multiset<const void*> all, got;
  for (size_t i = 0; i < s.res.size(); ++i) {
    bool any = false;
    for (int b : s.res[i].blocks) any |= Active(s, b);
    if (any) all.insert(in.ids[i]);
  }
  const auto& res = pp.reduced_program->residual_blocks();
  for (auto* r : res) got.insert(r);
  REQUIRE("preprocess/residuals", all == got, "");
  if (reorders_schur) {
    const auto& eg = pp.linear_solver_options.elimination_groups;
    REQUIRE("preprocess/groups", eg.size() >= 2 && eg[0] >= 1, "");
    int sum = 0;
    for (int k : eg) sum += k;
    REQUIRE("preprocess/groups", sum == active && pp.evaluator_options.num_eliminate_blocks == eg[0], "groups cover ", sum, " of ", active);
    for (int i = 0; i < eg[0]; ++i)
      for (int j = 0; j < i; ++j) REQUIRE("preprocess/independent", !Conflict(s, p[i], p[j]), "blocks ", p[i], " and ", p[j]);
    if (kind != 0 && left.size() > 1) {
      REQUIRE("preprocess/honoured", std::set<int>(p.begin(), p.begin() + eg[0]) == left.begin()->second, "first group");
      std::vector<int> sizes;
      for (auto& g : left) sizes.push_back(g.second.size());
      REQUIRE("preprocess/honoured", sizes == eg, "group sizes");
      if (type != SPARSE_SCHUR) {
        int at = 0;
        for (auto& g : left) {
          REQUIRE("preprocess/honoured", std::set<int>(p.begin() + at, p.begin() + at + g.second.size()) == g.second, "group ", g.first);
          at += g.second.size();
        }
      }
    }
    int last = 0;
    for (auto* r : res) {
      int pos = eg[0], count = 0;
      for (int j = 0; j < r->NumParameterBlocks(); ++j) {
        const auto* b = r->parameter_blocks()[j];
        if (b->IsConstant()) continue;
        if (b->index() < eg[0]) { pos = b->index(); ++count; }
      }
      REQUIRE("preprocess/one_e_block", count <= 1, "a residual with ", count, " eliminated blocks");
      REQUIRE("preprocess/lexicographic", pos >= last, "residual of eliminated block ", pos, " after ", last);
      last = pos;
    }
    c.nontrivial(active > 2 && eg[0] < active);
  } else {
    c.nontrivial(active > 2 && (reorders_sparse || vanished));
  }
  if (type == CGNR && prec == SUBSET) {
    const int start = pp.linear_solver_options.subset_preconditioner_start_row_block;
    for (size_t i = 0; i < res.size(); ++i)
      REQUIRE("preprocess/subset", (o.residual_blocks_for_subset_preconditioner.count(res[i]) > 0) == (static_cast<int>(i) >= start), "residual ", i, " start ", start);
  }
}

// ---- Scalar and block orderings --------------------------------------------
PBT_PROP(block_scalar, 60000, 3000000) {
  auto gen = [&](int lo) {
    std::vector<ci::Block> v;
    int pos = 0;
    for (int n = c.size(lo, 8); n > 0; --n) { const int k = c.range(1, 4); v.emplace_back(k, pos); pos += k; }
    return v;
  };
  const std::vector<ci::Block> rb = gen(1), cb = gen(1);
  std::vector<int> perm = c.permutation(cb.size()), scalar;
  if (c.coin()) scalar = {1, 2, 3};
  ci::BlockOrderingToScalarOrdering(cb, perm, &scalar);
  std::vector<int> want;
  for (int b : perm) for (int j = 0; j < cb[b].size; ++j) want.push_back(cb[b].position + j);
  REQUIRE("block_scalar/ordering", scalar == want, "");
  std::vector<std::set<int>> has(cb.size());
  for (auto& h : has) for (size_t r = 0; r < rb.size(); ++r) if (c.chance(2, 5)) h.insert(r);
  std::vector<int> cols{0}, rows;
  for (size_t b = 0; b < cb.size(); ++b)
    for (int j = 0; j < cb[b].size; ++j) {
      for (int r : has[b]) for (int k = 0; k < rb[r].size; ++k) rows.push_back(rb[r].position + k);
      cols.push_back(rows.size());
    }
  std::vector<int> brows{5}, bcols{7};
  rows.push_back(-1);  // never a null pointer
  ci::CompressedColumnScalarMatrixToBlockMatrix(rows.data(), cols.data(), rb, cb, &brows, &bcols);
  std::vector<int> wr, wc{0};
  for (auto& h : has) { wr.insert(wr.end(), h.begin(), h.end()); wc.push_back(wr.size()); }
  REQUIRE("block_scalar/blocks", brows == wr && bcols == wc, "");
  c.nontrivial(cb.size() > 1 && wr.size() > 2);
}

PBT_MAIN("C25", "groups: several groups after a reversal or removals; graphs: a set that is neither empty nor everything; "
         "preprocess: an invalid ordering, or >2 active blocks that are reordered")
