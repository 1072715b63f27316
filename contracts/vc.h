// Entry points of the contracts: VC(name) { ... } reads `in`/`iin`, calls the real code, writes `out`/`iout`.
#ifndef VC_H
#define VC_H
#include <cmath>
#include <cstddef>
#define VC(name) \
  extern "C" void vc_##name(const double* in, double* out, const long long* iin, long long* iout); \
  extern "C" int vcn_vc_##name(const double* in, double* out, const long long* iin, long long* iout) \
  { try { vc_##name(in, out, iin, iout); return 0; } catch (...) { return 1; } } \
  extern "C" void vc_##name(const double* in, double* out, const long long* iin, long long* iout)
#define VC_STR2(x) #x
#define VC_STR(x) VC_STR2(x)
#define SRC(path) VC_STR(VC_REPO/src/path)
#endif
