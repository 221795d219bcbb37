// C36: clustering and visibility structures are faithful to the problem.
// pbt-build: flavor=asan
#include <algorithm>
#include <map>
#include <set>

#include "absl/container/btree_set.h"
#include "absl/container/flat_hash_map.h"
#include "ceres/block_structure.h"
#include "ceres/canonical_views_clustering.h"
#include "ceres/graph.h"
#include "ceres/graph_algorithms.h"
#include "ceres/single_linkage_clustering.h"
#include "ceres/visibility.h"
#include "pbt.h"

using namespace ceres::internal;
using IntMap = absl::flat_hash_map<int, int>;

static std::pair<int, int> Key(int a, int b) { return {std::min(a, b), std::max(a, b)}; }

// A weighted graph as plain maps.
struct Model {
  std::map<int, double> v;
  std::map<std::pair<int, int>, double> e;
  std::set<int> Neighbors(int a) const {
    std::set<int> s;
    for (auto& x : e) {
      if (x.first.first == a) s.insert(x.first.second);
      if (x.first.second == a) s.insert(x.first.first);
    }
    return s;
  }
  double Weight(int a, int b) const {
    auto i = e.find(Key(a, b));
    return i == e.end() ? 0 : i->second;
  }
};

template <typename G>
static void CheckGraph(pbt::Case& c, const G& g, const Model& m, const std::vector<int>& ids, const char* what) {
  REQUIRE("graph/vertices", g.vertices().size() == m.v.size(), what);
  for (auto& x : m.v) {
    REQUIRE("graph/vertices", g.vertices().count(x.first) == 1, what, " lacks ", x.first);
    const std::set<int> n = m.Neighbors(x.first);
    const auto& h = g.Neighbors(x.first);
    REQUIRE("graph/neighbors", h.size() == n.size() && std::all_of(n.begin(), n.end(), [&](int k) { return h.count(k) == 1; }),
            what, " vertex ", x.first, " has ", h.size(), " neighbours instead of ", n.size());
  }
}
static void CheckWeights(pbt::Case& c, const WeightedGraph<int>& g, const Model& m) {
  for (auto& x : m.v) {
    REQUIRE("graph/vertex_weight", g.VertexWeight(x.first) == x.second, "vertex ", x.first);
    for (auto& y : m.v)
      REQUIRE("graph/edge_weight", g.EdgeWeight(x.first, y.first) == m.Weight(x.first, y.first),
              "edge ", x.first, " ", y.first, ": ", g.EdgeWeight(x.first, y.first), " vs ", m.Weight(x.first, y.first));
  }
}

PBT_PROP(graph, 100000, 6000000) {
  std::vector<int> ids;
  const int n = c.size(1, 12);
  for (int i = 0; i < n; ++i) ids.push_back(c.chance(1, 3) ? c.range(-1000, 1000) : i);
  std::sort(ids.begin(), ids.end());
  ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  Graph<int> g;
  WeightedGraph<int> w;
  Model m;
  const int steps = c.size(1, 60);
  int removed = 0;
  for (int s = 0; s < steps; ++s) {
    const int op = c.range(0, 9), a = c.pick(ids), b = c.pick(ids);
    if (op <= 3) {
      const bool given = c.coin();
      const double wt = given ? c.sym(3) : 1.0;
      g.AddVertex(a);
      if (given) w.AddVertex(a, wt); else w.AddVertex(a);
      m.v[a] = wt;
    } else if (op <= 7) {
      if (!m.v.count(a) || !m.v.count(b)) continue;
      const bool given = c.coin();
      const double wt = given ? c.sym(3) : 1.0;
      g.AddEdge(a, b);
      if (given) w.AddEdge(a, b, wt); else w.AddEdge(a, b);
      m.e[Key(a, b)] = wt;
    } else {
      const bool had = m.v.count(a) > 0;
      REQUIRE("graph/remove", g.RemoveVertex(a) == had && w.RemoveVertex(a) == had, "vertex ", a);
      m.v.erase(a);
      for (auto i = m.e.begin(); i != m.e.end();) i = i->first.first == a || i->first.second == a ? m.e.erase(i) : std::next(i);
      removed += had;
    }
  }
  CheckGraph(c, g, m, ids, "Graph");
  CheckGraph(c, w, m, ids, "WeightedGraph");
  CheckWeights(c, w, m);
  c.nontrivial(m.e.size() > 1 && removed > 0);
}

PBT_PROP(visibility, 100000, 6000000) {
  const int ne = c.size(0, 12), nf = c.size(ne ? 0 : 1, 10);
  CompressedRowBlockStructure bs;
  for (int i = 0, p = 0; i < ne + nf; ++i) {
    const int s = c.range(1, 3);
    bs.cols.emplace_back(s, p);
    p += s;
  }
  const int rows = c.size(0, 30);
  std::vector<std::set<int>> ref(nf);
  const bool schur_order = c.coin();  // rows with an e block come first, in the order of their e blocks
  std::vector<std::vector<int>> cells;
  for (int r = 0; r < rows; ++r) {
    std::vector<int> k;
    const bool with_e = ne > 0 && (nf == 0 || c.chance(3, 4));
    if (with_e) k.push_back(c.range(0, ne - 1));
    if (nf > 0) {
      std::vector<int> f = c.permutation(nf);
      f.resize(c.range(with_e ? 0 : 1, std::min(nf, 4)));
      std::sort(f.begin(), f.end());
      for (int x : f) k.push_back(ne + x);
    }
    cells.push_back(k);
  }
  if (schur_order) std::stable_sort(cells.begin(), cells.end(), [&](const auto& a, const auto& b) { return std::min(a[0], ne) < std::min(b[0], ne); });
  for (auto& k : cells) {
    bs.rows.emplace_back(static_cast<int>(k.size()));
    bs.rows.back().block.size = c.range(1, 3);
    for (size_t j = 0; j < k.size(); ++j) bs.rows.back().cells[j] = Cell(k[j], 0);
    if (k[0] < ne) for (size_t j = 1; j < k.size(); ++j) ref[k[j] - ne].insert(k[0]);
  }
  std::vector<absl::btree_set<int>> vis;
  if (c.coin()) { vis.resize(c.range(1, 14)); for (auto& v : vis) v.insert(c.range(0, 40)); }  // stale contents
  ComputeVisibility(bs, ne, &vis);
  REQUIRE("visibility/size", static_cast<int>(vis.size()) == nf, vis.size(), " vs ", nf);
  for (int f = 0; f < nf; ++f)
    REQUIRE("visibility/set", std::equal(vis[f].begin(), vis[f].end(), ref[f].begin(), ref[f].end()), "f block ", f);
  auto g = CreateSchurComplementGraph(vis);
  Model m;
  int pairs = 0;
  for (int a = 0; a < nf; ++a) {
    m.v[a] = 1.0;
    m.e[{a, a}] = 1.0;
    for (int b = a + 1; b < nf; ++b) {
      int both = 0;
      for (int e : ref[a]) both += ref[b].count(e);
      if (both) { ++pairs; m.e[{a, b}] = both / std::sqrt(static_cast<double>(ref[a].size()) * ref[b].size()); }
    }
  }
  CheckGraph(c, *g, m, {}, "interaction graph");
  for (auto& e : m.e)
    REQUIRE_CLOSE("visibility/weight", g->EdgeWeight(e.first.first, e.first.second), e.second, 1e-14, 0, "edge ", e.first.first, " ", e.first.second);
  for (auto& v : m.v) REQUIRE("visibility/vertex_weight", g->VertexWeight(v.first) == 1.0, "");
  c.label(pairs > 3 ? ">3 co-visible pairs" : "few pairs");
  c.nontrivial(pairs > 1);
}

struct Weighted { WeightedGraph<int> g; Model m; };
static Weighted GenWeighted(pbt::Case& c, int lo, int hi, bool self, bool negative, bool nan_weights, bool tie_prone, bool dyadic = false) {
  Weighted w;
  const int n = c.size(lo, hi);
  std::vector<int> ids;
  for (int i = 0, k = 0; i < n; ++i) { k += c.chance(1, 4) ? c.range(1, 50) : 1; ids.push_back(k - 1); }
  std::vector<int> p = c.permutation(n);
  for (int i : p) {
    const double wt = nan_weights && c.chance(1, 5) ? WeightedGraph<int>::InvalidWeight() : c.coin() ? 1.0 : dyadic ? c.range(0, 16) / 8.0 : c.real(0, 2);
    w.g.AddVertex(ids[i], wt);
    w.m.v[ids[i]] = wt;
  }
  const int style = c.range(0, 3);  // random, chain, star, dense
  auto add = [&](int a, int b) {
    double wt = dyadic ? c.range(1, 8) / 8.0 : tie_prone && c.coin() ? c.range(1, 4) / 4.0 : c.unit();
    if (negative && c.chance(1, 8)) wt = -wt;
    if (wt == 0) wt = 0.5;
    if (c.coin()) std::swap(a, b);
    w.g.AddEdge(a, b, wt);
    w.m.e[Key(a, b)] = wt;
  };
  if (self) for (int a : ids) if (self && !c.chance(1, 10)) { w.g.AddEdge(a, a, 1.0); w.m.e[{a, a}] = 1.0; }
  for (int i : c.permutation(n))
    for (int j = 0; j < i; ++j) {
      const bool in = style == 0 ? c.chance(1, 4) : style == 1 ? j == i - 1 || c.chance(1, 12) : style == 2 ? j == 0 || c.chance(1, 10) : c.chance(2, 3);
      if (in) add(ids[j], ids[i]);
    }
  return w;
}

PBT_PROP(single_linkage, 100000, 6000000) {
  const Weighted w = GenWeighted(c, 0, 25, c.coin(), c.coin(), false, true);
  SingleLinkageClusteringOptions o;
  o.min_similarity = c.pick({0.99, 0.5, 0.25, 0.75, 0.0, 2.0, 0.9, -1.0});
  IntMap member;
  if (c.coin()) { member[c.range(0, 30)] = c.range(0, 30); member[-5] = 3; }
  const int k = ComputeSingleLinkageClustering(o, w.g, &member);
  // Reference: components by repeated relaxation.
  std::map<int, int> comp;
  for (auto& v : w.m.v) comp[v.first] = v.first;
  for (bool again = true; again;) {
    again = false;
    for (auto& e : w.m.e) {
      if (e.second < o.min_similarity) continue;
      int &a = comp[e.first.first], &b = comp[e.first.second];
      if (a != b) { a = b = std::min(a, b); again = true; }
    }
  }
  std::set<int> labels;
  for (auto& x : comp) labels.insert(x.second);
  REQUIRE("single_linkage/domain", member.size() == w.m.v.size(), member.size(), " vs ", w.m.v.size());
  REQUIRE("single_linkage/count", k == static_cast<int>(labels.size()), k, " vs ", labels.size());
  for (auto& x : comp) {
    REQUIRE("single_linkage/domain", member.count(x.first) == 1, "vertex ", x.first);
    const int id = member[x.first];
    // The id of a cluster is one of its vertices.
    REQUIRE("single_linkage/id", comp.count(id) && comp[id] == x.second, "vertex ", x.first, " in cluster ", id);
    for (auto& y : comp)
      REQUIRE("single_linkage/partition", (member[y.first] == id) == (y.second == x.second), "vertices ", x.first, " ", y.first);
  }
  c.label(pbt::Str(labels.size() == 1 ? "one cluster" : labels.size() == comp.size() ? "all apart" : "some clusters"));
  c.nontrivial(labels.size() > 1 && labels.size() < comp.size());
}

PBT_PROP(canonical_views, 100000, 6000000) {
  const bool nan_weights = c.chance(1, 3);
  const bool dyadic = c.coin();  // every gain is then computed without rounding
  const Weighted w = GenWeighted(c, 0, 16, !c.chance(1, 4), false, nan_weights, true, dyadic);
  CanonicalViewsClusteringOptions o;
  if (c.coin()) {
    o.min_views = c.range(0, 6);
    o.size_penalty_weight = c.pick({0.0, 0.5, 1.0, 3.0});
    o.similarity_penalty_weight = c.pick({0.0, 0.5, 2.0, 100.0});
    o.view_score_weight = c.pick({0.0, 1.0, 5.0});
  }
  std::vector<int> centers;
  IntMap member;
  if (c.coin()) { centers = {1, 2, 3}; member[77] = 5; }
  ComputeCanonicalViewsClustering(o, w.g, &centers, &member);
  // Replay the greedy choice: every centre was (within rounding) the best remaining one.
  std::map<int, double> sim;
  std::map<int, std::set<int>> owner;  // view -> centres it may belong to
  std::vector<int> left;
  for (auto& v : w.m.v) if (!std::isnan(v.second)) left.push_back(v.first);
  std::map<int, int> assigned;
  auto gain = [&](int cand, size_t upto) {
    double d = o.view_score_weight * w.m.v.at(cand);
    for (int n : w.m.Neighbors(cand)) d += std::max(0.0, w.m.Weight(n, cand) - (sim.count(n) ? sim[n] : 0.0));
    d -= o.size_penalty_weight;
    for (size_t i = 0; i < upto; ++i) d -= o.similarity_penalty_weight * w.m.Weight(centers[i], cand);
    return d;
  };
  const double eps = dyadic ? 0 : 1e-9;
  for (size_t i = 0; i <= centers.size(); ++i) {
    double best = -1e300;
    for (int v : left) best = std::max(best, gain(v, i));
    if (i == centers.size()) {
      REQUIRE("canonical_views/stopped_early", left.empty() || (best <= eps && static_cast<int>(i) >= o.min_views),
              "best remaining gain ", best, " after ", i, " centres, min_views ", o.min_views);
      break;
    }
    auto p = std::find(left.begin(), left.end(), centers[i]);
    REQUIRE("canonical_views/center", p != left.end(), "centre ", centers[i], " is repeated, unknown or has no valid weight");
    const double got = gain(centers[i], i);
    REQUIRE("canonical_views/greedy", got >= best - eps, "centre ", centers[i], " gains ", got, " best ", best);
    REQUIRE("canonical_views/stopped_late", got > -eps || (eps > 0 && got == 0) || static_cast<int>(i) < o.min_views, "gain ", got, " for centre number ", i);
    if (dyadic && got == 0) c.label("no gain, but wanted");
    left.erase(p);
    for (int n : w.m.Neighbors(centers[i])) {
      const double s = w.m.Weight(n, centers[i]);
      if (s > (sim.count(n) ? sim[n] : 0.0)) { sim[n] = s; assigned[n] = static_cast<int>(i); }
    }
  }
  REQUIRE("canonical_views/domain", member.size() == w.m.v.size(), member.size(), " vs ", w.m.v.size());
  int unassigned = 0;
  for (auto& v : w.m.v) {
    REQUIRE("canonical_views/domain", member.count(v.first) == 1, "view ", v.first);
    const int got = member[v.first];
    if (!assigned.count(v.first)) {
      ++unassigned;
      REQUIRE("canonical_views/unassigned", got == -1, "view ", v.first, " in cluster ", got);
      continue;
    }
    REQUIRE("canonical_views/range", got >= 0 && got < static_cast<int>(centers.size()), "view ", v.first, " in cluster ", got);
    // A centre it is at least as similar to as to any other.
    REQUIRE("canonical_views/nearest", w.m.Weight(v.first, centers[got]) == sim[v.first],
            "view ", v.first, " in cluster ", got, " similarity ", w.m.Weight(v.first, centers[got]), " best ", sim[v.first]);
  }
  c.label(unassigned ? "some views unassigned" : "all views assigned");
  c.nontrivial(centers.size() > 1 && w.m.v.size() > centers.size());
}

PBT_PROP(spanning_forest, 100000, 6000000) {
  const Weighted w = GenWeighted(c, 0, 20, c.coin(), c.coin(), false, true);
  auto f = Degree2MaximumSpanningForest(w.g);
  REQUIRE("spanning_forest/vertices", f->vertices().size() == w.m.v.size(), "");
  std::set<std::pair<int, int>> edges;
  for (auto& v : w.m.v) {
    REQUIRE("spanning_forest/vertices", f->vertices().count(v.first) == 1 && f->VertexWeight(v.first) == v.second, "vertex ", v.first);
    const auto& n = f->Neighbors(v.first);
    REQUIRE("spanning_forest/degree", n.size() <= 2, "vertex ", v.first, " has degree ", n.size());
    for (int u : n) {
      REQUIRE("spanning_forest/edge", u != v.first && w.m.e.count(Key(u, v.first)) && f->Neighbors(u).count(v.first), "edge ", u, " ", v.first);
      REQUIRE("spanning_forest/weight", f->EdgeWeight(u, v.first) == w.m.Weight(u, v.first), "edge ", u, " ", v.first);
      edges.insert(Key(u, v.first));
    }
  }
  // Acyclic, and every left-out edge is ruled out by forest edges at least as heavy.
  auto connected = [&](int a, int b, double at_least, std::pair<int, int> skip) {
    std::set<int> seen{a};
    std::vector<int> todo{a};
    while (!todo.empty()) {
      const int x = todo.back();
      todo.pop_back();
      if (x == b) return true;
      for (auto& e : edges)
        if (e != skip && w.m.e.at(e) >= at_least) {
          const int y = e.first == x ? e.second : e.second == x ? e.first : x;
          if (seen.insert(y).second) todo.push_back(y);
        }
    }
    return false;
  };
  for (auto& e : edges) REQUIRE("spanning_forest/cycle", !connected(e.first, e.second, -1e300, e), "edge ", e.first, " ", e.second, " closes a cycle");
  int left_out = 0;
  for (auto& e : w.m.e) {
    if (e.first.first == e.first.second || edges.count(e.first)) continue;
    ++left_out;
    int da = 0, db = 0;
    for (auto& t : edges)
      if (w.m.e.at(t) >= e.second) {
        da += t.first == e.first.first || t.second == e.first.first;
        db += t.first == e.first.second || t.second == e.first.second;
      }
    REQUIRE("spanning_forest/maximal", da == 2 || db == 2 || connected(e.first.first, e.first.second, e.second, {0, -1}),
            "edge ", e.first.first, " ", e.first.second, " of weight ", e.second, " could have been added");
  }
  c.nontrivial(edges.size() > 2 && left_out > 1);
}

PBT_MAIN("C36", "graph: >1 edges after a removal; visibility: >1 co-visible pairs; clustering: neither one cluster nor all apart, "
         ">1 centres; forest: >2 edges chosen and >1 left out")
