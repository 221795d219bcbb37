// C35: dense factorisations.
#include "C35_impl.h"

// One factorisation object, several systems of changing size.
PBT_PROP(dense_cholesky, 15000, 40000) {
  LinearSolver::Options o;
  o.use_mixed_precision_solves = c.coin();
  o.max_num_refinement_iterations = c.chance(1, 2) ? c.range(1, 4) : 0;
  ContextImpl context;
  o.context = &context;
  auto chol = DenseCholesky::Create(o);
  const int rounds = c.range(1, 4);
  bool had_failure = false;
  for (int r = 0; r < rounds; ++r) {
    const int n = c.size(1, 25);
    const bool indefinite = c.chance(1, 5);
    const LMat Q = Orthogonal(c, n);
    LVec s(n);
    LD smin = 1e30, smax = 0;
    for (int i = 0; i < n; ++i) {
      s(i) = c.logreal(0.1, 10);
      smin = std::min(smin, s(i));
      smax = std::max(smax, s(i));
    }
    if (indefinite) s(c.range(0, n - 1)) *= -1;
    const LMat M = Q * s.asDiagonal() * Q.transpose();
    const bool junk = c.coin();  // only the lower triangle counts
    Buf lhs(c, n * n, c.coin()), rhs(c, n, c.coin()), x(c, n, c.coin());
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < n; ++i)
        if (i >= j || !junk) lhs.p[j * n + i] = (double)M(std::max(i, j), std::min(i, j));
    LMat S(n, n);
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < n; ++i) S(i, j) = lhs.p[std::min(i, j) * n + std::max(i, j)];
    const std::vector<double> rhs0 = Vec(rhs);
    std::string msg = "untouched";
    c.note() << (r ? " | " : "") << "n=" << n << (indefinite ? " indefinite" : "") << (junk ? " junk upper" : "")
             << (o.use_mixed_precision_solves ? " mixed" : "") << " refine " << o.max_num_refinement_iterations;
    const auto t = chol->Factorize(n, lhs.p, &msg);
    if (indefinite) {
      REQUIRE("failure-reported", t != LinearSolverTerminationType::SUCCESS, "a matrix with a negative eigenvalue was factorised");
      REQUIRE("message", !msg.empty() && msg != "untouched", msg);
      c.label("indefinite");
      had_failure = true;
      continue;
    }
    REQUIRE("success", t == LinearSolverTerminationType::SUCCESS, "n=", n, ": ", msg);
    if (had_failure) c.label("success after failure");
    const int solves = c.range(1, 3);
    for (int k = 0; k < solves; ++k) {
      LVec b(n);
      for (int i = 0; i < n; ++i) b(i) = rhs.p[i];
      REQUIRE("solve-success", chol->Solve(rhs.p, x.p, &msg) == LinearSolverTerminationType::SUCCESS, msg);
      REQUIRE("rhs-kept", k > 0 || SameBits(rhs.p, rhs0.data(), n), "the right hand side was written");
      const LVec want = S.ldlt().solve(b);
      LVec got(n);
      for (int i = 0; i < n; ++i) got(i) = x.p[i];
      const LD kappa = smax / smin;
      // Single precision loses kappa * 1e-7; every refinement step multiplies
      // the error by that factor, down to double rounding.
      LD e = o.use_mixed_precision_solves ? 1e-6L * n : 1e-14L * n;
      LD f = std::min((LD)1, e * kappa);
      LD tol = f;
      for (int i = 0; i < o.max_num_refinement_iterations; ++i) tol *= f;
      tol = std::max(tol, 1e-14L * n * kappa);
      REQUIRE("solution", (got - want).norm() <= tol * want.norm() + 1e-300L, "n=", n, " error ", (double)(got - want).norm(), " of ",
              (double)want.norm(), " tol ", (double)tol);
      for (int i = 0; i < n; ++i) rhs.p[i] = c.sym(3);
    }
    c.nontrivial(n > 1);
    c.label(o.use_mixed_precision_solves ? "float" : "double");
  }
}

PBT_PROP(dense_qr, 10000, 40000) {
  LinearSolver::Options o;
  auto qr = DenseQR::Create(o);
  const int rounds = c.range(1, 3);
  for (int r = 0; r < rounds; ++r) {
    const int n = c.size(1, 15), m = n + c.size(0, 15);
    LMat J(m, n);
    Buf lhs(c, m * n, c.coin()), x(c, n, c.coin()), rhs(c, m, c.coin());
    for (int i = 0; i < n; ++i) lhs.p[i * m + i] += c.coin() ? 8 : -8;
    for (int j = 0; j < n; ++j)
      for (int i = 0; i < m; ++i) J(i, j) = lhs.p[j * m + i];
    const std::vector<double> rhs0 = Vec(rhs);
    std::string msg;
    c.note() << (r ? " | " : "") << m << "x" << n;
    const LMat N = J.transpose() * J;
    Eigen::SelfAdjointEigenSolver<LMat> es(N);
    if (es.eigenvalues()(0) <= 1e-4L * es.eigenvalues()(n - 1)) { c.label("ill-conditioned"); continue; }
    REQUIRE("factorize", qr->Factorize(m, n, lhs.p, &msg) == LinearSolverTerminationType::SUCCESS, msg);
    for (int k = 0; k < 2; ++k) {
      LVec b(m);
      for (int i = 0; i < m; ++i) b(i) = rhs.p[i];
      REQUIRE("solve", qr->Solve(rhs.p, x.p, &msg) == LinearSolverTerminationType::SUCCESS, msg);
      REQUIRE("rhs-kept", k > 0 || SameBits(rhs.p, rhs0.data(), m), "the right hand side was written");
      LVec got(n);
      for (int i = 0; i < n; ++i) got(i) = x.p[i];
      const LVec want = N.ldlt().solve(J.transpose() * b);
      REQUIRE("least-squares", (got - want).norm() <= 1e-9L * (want.norm() + b.norm() / 8), m, "x", n, " error ",
              (double)(got - want).norm(), " of ", (double)want.norm());
      for (int i = 0; i < m; ++i) rhs.p[i] = c.sym(3);
    }
    c.nontrivial(n > 1);
    c.label(m == n ? "square" : "tall");
  }
}

