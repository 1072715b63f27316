#include "vc.h"
#include <utMath/Matrix.h>
#include SRC(utMath/Quaternion.cpp)
#include SRC(utMath/Pose.cpp)
#include SRC(utMath/ErrorPose.cpp)
using namespace Ubitrack;
using namespace Ubitrack::Math;
static Quaternion Q(const double* p) { return Quaternion(p[0], p[1], p[2], p[3]); }
static Vector<double,3> V3(const double* p) { return Vector<double,3>(p[0], p[1], p[2]); }
static Pose P(const double* p) { return Pose(Q(p), V3(p + 4)); }
template<class M> static void geti(M& m, const double* p, int r, int c) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i,j) = p[c*i+j]; }
template<class M> static void puti(double* p, const M& m, int r, int c) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) p[c*i+j] = m(i,j); }
static ErrorPose EP(const double* p) { Matrix<double,6,6> c; geti(c, p + 7, 6, 6); return ErrorPose(P(p), c); }
static void put(double* o, const Quaternion& q) { o[0] = q.x(); o[1] = q.y(); o[2] = q.z(); o[3] = q.w(); }
static void put(double* o, const Vector<double,3>& v) { for (int i = 0; i < 3; i++) o[i] = v(i); }
static void put(double* o, const ErrorPose& p) { put(o, p.rotation()); put(o + 4, p.translation()); puti(o + 7, p.covariance(), 6, 6); }

VC(err_invert) { put(out, ~EP(in)); }
VC(err_mul) { put(out, EP(in) * EP(in + 43)); }
VC(err_mul_right) { put(out, EP(in) * P(in + 43)); }
VC(err_mul_left) { put(out, P(in) * EP(in + 7)); }
VC(err_point) { ErrorVector<double,3> v = EP(in) * V3(in + 43); put(out, v.value); puti(out + 3, v.covariance, 3, 3); }
VC(err_errpoint) { Matrix<double,3,3> c; geti(c, in + 46, 3, 3); ErrorVector<double,3> b(V3(in + 43), c);
	ErrorVector<double,3> v = EP(in) * b; put(out, v.value); puti(out + 3, v.covariance, 3, 3); }
VC(err_invmul) { put(out, invertMultiply(EP(in), EP(in + 43))); }
VC(err_interp) { put(out, linearInterpolate(EP(in), EP(in + 43), in[86])); }
VC(errconv_to) { ErrorVector<double,7> v; EP(in).toAdditiveErrorVector(v); for (int i = 0; i < 7; i++) out[i] = v.value(i); puti(out + 7, v.covariance, 7, 7); }
VC(errconv_from) { Vector<double,7> x; Matrix<double,7,7> c; for (int i = 0; i < 7; i++) x(i) = in[i]; geti(c, in + 7, 7, 7);
	ErrorVector<double,7> v(x, c); put(out, ErrorPose::fromAdditiveErrorVector(v)); }
VC(errconv_roundtrip) { ErrorVector<double,7> v; EP(in).toAdditiveErrorVector(v); put(out, ErrorPose::fromAdditiveErrorVector(v)); }
VC(errconv_rms) { ErrorVector<double,3> v; geti(v.covariance, in, 3, 3); out[0] = v.getRMS(); }
#include <sstream>
VC(errconv_print) { std::ostringstream o; o << EP(in); std::string t = o.str(); const char* k[3] = { "position: ", "orientation: ", "/" }; std::size_t at = 0;
  for (int i = 0; i < 3; i++) { at = t.find(k[i], at); if (at == std::string::npos) { out[i] = -1; continue; } at += std::string(k[i]).size(); out[i] = atof(t.c_str() + at); } }
