#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include "absl/log/log.h"

#define CHECK(cond)                                                       \
  switch (0) case 0: default:                                             \
    __builtin_expect(!!(cond), 1) ? (void)0                               \
      : ::verif_shim::Voidify() &&                                        \
        ::verif_shim::FatalMessage(__FILE__, __LINE__, ::verif_shim::kFATAL, "Check failed: " #cond " ")

#define VERIF_SHIM_CHECK_OP(name, op, a, b)                               \
  while (::std::string* verif_shim_text = ::verif_shim::Check##name((a), (b), #a " " #op " " #b)) \
    ::verif_shim::FatalMessage(__FILE__, __LINE__, ::verif_shim::kFATAL, *verif_shim_text)

#define CHECK_EQ(a, b) VERIF_SHIM_CHECK_OP(EQ, ==, a, b)
#define CHECK_NE(a, b) VERIF_SHIM_CHECK_OP(NE, !=, a, b)
#define CHECK_LE(a, b) VERIF_SHIM_CHECK_OP(LE, <=, a, b)
#define CHECK_LT(a, b) VERIF_SHIM_CHECK_OP(LT, <, a, b)
#define CHECK_GE(a, b) VERIF_SHIM_CHECK_OP(GE, >=, a, b)
#define CHECK_GT(a, b) VERIF_SHIM_CHECK_OP(GT, >, a, b)

#ifndef NDEBUG
#define DCHECK(cond) CHECK(cond)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#else
#define DCHECK(cond) while (false && (cond)) ::verif_shim::Null()
#define DCHECK_EQ(a, b) while (false && ((void)(a), (void)(b), 0)) ::verif_shim::Null()
#define DCHECK_NE(a, b) DCHECK_EQ(a, b)
#define DCHECK_LE(a, b) DCHECK_EQ(a, b)
#define DCHECK_LT(a, b) DCHECK_EQ(a, b)
#define DCHECK_GE(a, b) DCHECK_EQ(a, b)
#define DCHECK_GT(a, b) DCHECK_EQ(a, b)
#endif
#endif
