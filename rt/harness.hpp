// Included first by every harness.
#pragma once
#include "sx.h"
#include <string>
#ifdef SX_SYM
#include "runtime.hpp"
#include "blas_model.hpp"
#define SX_ENTRY(n) extern "C" void n()
inline std::string sx_path(const char *name) { return std::string(name); }
#else
#include "native.hpp"
#ifdef SXN_MODEL
#include "blas_model.hpp"
#endif
#define SX_ENTRY(n) extern "C" void n(); static sxn::Reg sxreg_##n(#n, n); extern "C" void n()
#endif
