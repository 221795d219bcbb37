#ifndef VERIF_C17_ORACLE_H_
#define VERIF_C17_ORACLE_H_
#include <cmath>
// 2-norm condition number of [A; diag(D)] (D may be null).
double ConditionNumber(const double* rowmajor, int m, int n, const double* D, double* smallest = nullptr, double* largest = nullptr);
// argmin |Ax-b|^2 + |Dx|^2.
void LeastSquares(const double* rowmajor, int m, int n, const double* b, const double* D, double* x);
#endif
