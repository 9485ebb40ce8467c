#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include "absl/log/log.h"
#define CHECK(cond)                     \
  (__builtin_expect(!!(cond), 1))       \
      ? (void)0                         \
      : ::verif_shim_log::Voidify() &&  \
            ::verif_shim_log::Message(::verif_shim_log::FATAL, __FILE__, __LINE__, #cond)
#define QCHECK(cond) CHECK(cond)
#define PCHECK(cond) CHECK(cond)
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define QCHECK_EQ(a, b) CHECK_EQ(a, b)
#define QCHECK_NE(a, b) CHECK_NE(a, b)
#ifdef NDEBUG
#define DCHECK(cond) CHECK(true || (cond))
#else
#define DCHECK(cond) CHECK(cond)
#endif
#define DCHECK_EQ(a, b) DCHECK((a) == (b))
#define DCHECK_NE(a, b) DCHECK((a) != (b))
#define DCHECK_LT(a, b) DCHECK((a) < (b))
#define DCHECK_LE(a, b) DCHECK((a) <= (b))
#define DCHECK_GT(a, b) DCHECK((a) > (b))
#define DCHECK_GE(a, b) DCHECK((a) >= (b))
#endif
