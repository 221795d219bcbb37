// Random smooth expression programs, evaluated with any scalar type, plus an
// independent forward differentiator (long double) used as the oracle.
#ifndef VERIF_EXPR_H_
#define VERIF_EXPR_H_
#include <cmath>
#include <vector>

#include "pbt.h"

namespace expr {
typedef long double LD;

enum Op { kVar, kConst, kAdd, kSub, kMul, kSin, kCos, kTanh, kSqrt1, kInv1, kExpB, kScale, kNumOps };
struct Node { int op; int a, b; double k; };

// Dual number with n tangents; deliberately unrelated to ceres::Jet.
struct Dual {
  LD a = 0;
  std::vector<LD> v;
};

struct Program {
  int num_inputs = 0;
  std::vector<Node> nodes;
  std::vector<int> outputs;

  // T-generic evaluation.  x: num_inputs values.
  template <typename T>
  void Eval(const T* x, T* out) const {
    using std::cos; using std::exp; using std::sin; using std::sqrt; using std::tanh;
    std::vector<T> t(nodes.size());
    for (size_t i = 0; i < nodes.size(); ++i) {
      const Node& n = nodes[i];
      switch (n.op) {
        case kVar: t[i] = x[n.a]; break;
        case kConst: t[i] = T(n.k); break;
        case kAdd: t[i] = t[n.a] + t[n.b]; break;
        case kSub: t[i] = t[n.a] - t[n.b]; break;
        case kMul: t[i] = t[n.a] * t[n.b]; break;
        case kSin: t[i] = sin(t[n.a]); break;
        case kCos: t[i] = cos(t[n.a]); break;
        case kTanh: t[i] = tanh(t[n.a]); break;
        case kSqrt1: t[i] = sqrt(T(1.0) + t[n.a] * t[n.a]); break;
        case kInv1: t[i] = T(1.0) / (T(2.0) + t[n.a] * t[n.a]); break;
        case kExpB: t[i] = exp(T(0.3) * sin(t[n.a])); break;
        case kScale: t[i] = t[n.a] * T(n.k); break;
      }
    }
    for (size_t i = 0; i < outputs.size(); ++i) out[i] = t[outputs[i]];
  }

  // values[o], jac[o][j] = d out_o / d x_j.
  void Reference(const double* x, std::vector<LD>* values, std::vector<std::vector<LD>>* jac) const {
    std::vector<Dual> t(nodes.size());
    const int n = num_inputs;
    for (size_t i = 0; i < nodes.size(); ++i) {
      const Node& d = nodes[i];
      Dual& r = t[i];
      r.v.assign(n, 0);
      const Dual* a = d.op == kVar || d.op == kConst ? nullptr : &t[d.a];
      LD k = 0;  // derivative with respect to a
      switch (d.op) {
        case kVar: r.a = x[d.a]; r.v[d.a] = 1; break;
        case kConst: r.a = d.k; break;
        case kAdd: case kSub: {
          const LD s = d.op == kAdd ? 1 : -1;
          r.a = a->a + s * t[d.b].a;
          for (int j = 0; j < n; ++j) r.v[j] = a->v[j] + s * t[d.b].v[j];
          break;
        }
        case kMul:
          r.a = a->a * t[d.b].a;
          for (int j = 0; j < n; ++j) r.v[j] = a->v[j] * t[d.b].a + a->a * t[d.b].v[j];
          break;
        case kSin: r.a = sinl(a->a); k = cosl(a->a); break;
        case kCos: r.a = cosl(a->a); k = -sinl(a->a); break;
        case kTanh: r.a = tanhl(a->a); k = 1 / (coshl(a->a) * coshl(a->a)); break;
        case kSqrt1: r.a = sqrtl(1 + a->a * a->a); k = a->a / r.a; break;
        case kInv1: r.a = 1 / (2 + a->a * a->a); k = -2 * a->a * r.a * r.a; break;
        case kExpB: r.a = expl((LD)0.3 * sinl(a->a)); k = r.a * (LD)0.3 * cosl(a->a); break;
        case kScale: r.a = a->a * (LD)d.k; k = d.k; break;
      }
      if (d.op >= kSin) for (int j = 0; j < n; ++j) r.v[j] = k * a->v[j];
    }
    values->clear();
    jac->clear();
    for (int o : outputs) { values->push_back(t[o].a); jac->push_back(t[o].v); }
  }
};

// A random program.  Products only combine bounded sub-terms, so values and
// derivatives stay moderate for inputs of moderate size.
inline Program Gen(pbt::Case& c, int inputs, int outputs, int extra_ops) {
  Program p;
  p.num_inputs = inputs;
  for (int i = 0; i < inputs; ++i) p.nodes.push_back({kVar, i, 0, 0});
  p.nodes.push_back({kConst, 0, 0, c.pick({1.0, -0.5, 2.0})});
  std::vector<int> bounded;  // nodes with values in a small range
  for (int k = 0; k < extra_ops; ++k) {
    const int n = static_cast<int>(p.nodes.size());
    int op = c.pick({kSin, kAdd, kSub, kCos, kTanh, kSqrt1, kInv1, kExpB, kScale, kMul, kMul});
    int a = c.range(0, n - 1), b = c.range(0, n - 1);
    if (op == kMul) {
      // one operand bounded
      if (bounded.empty()) op = kAdd;
      else b = bounded[c.range(0, static_cast<int>(bounded.size()) - 1)];
    }
    p.nodes.push_back({op, a, b, op == kScale ? c.pick({0.5, -1.5, 2.0, -1.0}) : 0.0});
    if (op == kSin || op == kCos || op == kTanh || op == kInv1 || op == kExpB) bounded.push_back(n);
  }
  const int n = static_cast<int>(p.nodes.size());
  for (int o = 0; o < outputs; ++o) {
    // prefer late nodes
    int i = n - 1 - c.range(0, std::min(n - 1, outputs + 2));
    p.outputs.push_back(i);
  }
  return p;
}
inline double Scale(const std::vector<std::vector<LD>>& j) {
  double s = 1;
  for (auto& r : j) for (LD x : r) s = std::max(s, (double)fabsl(x));
  return s;
}
}  // namespace expr
#endif
