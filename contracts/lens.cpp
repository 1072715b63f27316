#include "vc.h"
#include <vector>
#include <utMath/Matrix.h>
#include <utMath/Vector.h>
#include <utMath/CameraIntrinsics.h>
#include <utAlgorithm/LensDistortion.h>
#include SRC(utUtil/Exception.cpp)
#include SRC(utAlgorithm/LensDistortion.cpp)
#include SRC(utAlgorithm/CameraLens/Correction.cpp)
using namespace Ubitrack;
using namespace Ubitrack::Math;
namespace CL = Ubitrack::Algorithm::CameraLens;
template<int N> static Vector<double,N> V(const double* p) { Vector<double,N> v; for (int i = 0; i < N; i++) v(i) = p[i]; return v; }
template<int R, int C> static Matrix<double,R,C> M(const double* p) { Matrix<double,R,C> m; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i,j) = p[C*i+j]; return m; }
template<class T> static double* pv(double* o, const T& v, int n) { for (int i = 0; i < n; i++) o[i] = v(i); return o + n; }
template<class T> static double* pm(double* o, const T& m, int r, int c) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o[c*i+j] = m(i,j); return o + r*c; }
typedef CameraIntrinsics<double> CI;
static void put(double* out, long long* iout, const CI& c) { pv(pv(pm(out, c.matrix, 3, 3), c.radial_params, 6), c.tangential_params, 2);
	iout[0] = c.calib_type; iout[1] = c.dimension(0); iout[2] = c.dimension(1); iout[3] = c.radial_size; iout[4] = CI::radial(c.calib_type); iout[5] = CI::tangential(c.calib_type); }
VC(lens_ctor_default) { put(out, iout, CI()); }
VC(lens_ctor2) { put(out, iout, CI(M<3,3>(in), V<2>(in + 9), V<2>(in + 15), iin[0], iin[1])); }
VC(lens_ctor3) { put(out, iout, CI(M<3,3>(in), V<3>(in + 9), V<2>(in + 15), iin[0], iin[1])); }
VC(lens_ctor4) { put(out, iout, CI(M<3,3>(in), V<4>(in + 9), iin[0], iin[1])); }
VC(lens_ctor6) { put(out, iout, CI(M<3,3>(in), V<6>(in + 9), V<2>(in + 15), iin[0], iin[1])); }
VC(lens_ctor_size) { Vector<int,2> s; s(0) = (int)iin[0]; s(1) = (int)iin[1]; put(out, iout, CI(s, M<3,3>(in), iin[2], V<6>(in + 9), V<2>(in + 15))); }
VC(lens_assign) { CI a(M<3,3>(in), V<6>(in + 9), V<2>(in + 15), iin[0], iin[1]), b; b = a; put(out, iout, b); }
VC(lens_flip) { CI a(M<3,3>(in), V<6>(in + 9), V<2>(in + 15), iin[0], iin[1]); a.flipHandiness(a); put(out, iout, a); }
VC(lens_angle) { CI a(M<3,3>(in), V<6>(in + 9), V<2>(in + 15), iin[0], iin[1]); out[0] = a.angleHorizontal(); out[1] = a.angleVertical(); out[2] = a.angleDiagonal(); }
static CI cam(const double* in) { return CI(M<3,3>(in), V<6>(in + 9), V<2>(in + 15)); }
VC(lens_distort) { Vector<double,2> r; CL::distort(cam(in), V<2>(in + 17), r); pv(out, r, 2); }
VC(lens_distort_inplace) { Vector<double,2> r = V<2>(in + 17); CL::distort(cam(in), r, r); pv(out, r, 2); }
VC(lens_distort_list) { std::vector<Vector<double,2> > p(2), r(2); p[0] = V<2>(in + 17); p[1] = V<2>(in + 19); CL::distort(cam(in), p, r); pv(pv(out, r[0], 2), r[1], 2); }
VC(lens_distort_raw) { std::vector<Vector<double,2> > p(2), r(2); p[0] = V<2>(in + 8); p[1] = V<2>(in + 10); CL::distort(V<6>(in), V<2>(in + 6), p, r); pv(pv(out, r[0], 2), r[1], 2); }
VC(lens_undistort) { Vector<double,2> r; CL::undistort(cam(in), V<2>(in + 17), r); pv(out, r, 2); }
VC(lens_undistort_list) { std::vector<Vector<double,2> > p(2), r(2); p[0] = V<2>(in + 17); p[1] = V<2>(in + 19); CL::undistort(cam(in), p, r); pv(pv(out, r[0], 2), r[1], 2); }
VC(lens_roundtrip) { Vector<double,2> r, s; CL::undistort(cam(in), V<2>(in + 17), r); CL::distort(cam(in), r, s); pv(out, s, 2); }
VC(lens_old_project) { pv(out, Algorithm::projectWithDistortion(V<3>(in + 13), V<4>(in + 9), M<3,3>(in)), 2); }
VC(lens_old_distort) { pv(out, Algorithm::lensDistort(V<2>(in + 13), V<4>(in + 9), M<3,3>(in)), 2); }
VC(lens_old_undistort) { pv(out, Algorithm::lensUnDistort(V<2>(in + 13), V<4>(in + 9), M<3,3>(in)), 2); }
VC(lens_old_roundtrip) { pv(out, Algorithm::lensDistort(Algorithm::lensUnDistort(V<2>(in + 13), V<4>(in + 9), M<3,3>(in)), V<4>(in + 9), M<3,3>(in)), 2); }
typedef CameraIntrinsics<float> CIf;
template<int N> static Vector<float,N> F(const double* p) { Vector<float,N> v; for (int i = 0; i < N; i++) v(i) = (float)p[i]; return v; }
static Matrix<float,3,3> F33(const double* p) { Matrix<float,3,3> m; for (int i = 0; i < 9; i++) m(i / 3, i % 3) = (float)p[i]; return m; }
static CIf camf(const double* in) { return CIf(F33(in), F<6>(in + 9), F<2>(in + 15)); }
VC(lens_distort_f) { Vector<float,2> r; CL::distort(camf(in), F<2>(in + 17), r); pv(out, r, 2); }
VC(lens_distort_list_f) { std::vector<Vector<float,2> > p(2), r(2); p[0] = F<2>(in + 17); p[1] = F<2>(in + 19); CL::distort(camf(in), p, r); pv(pv(out, r[0], 2), r[1], 2); }
VC(lens_undistort_f) { Vector<float,2> r; CL::undistort(camf(in), F<2>(in + 17), r); pv(out, r, 2); }
VC(lens_undistort_list_f) { std::vector<Vector<float,2> > p(2), r(2); p[0] = F<2>(in + 17); p[1] = F<2>(in + 19); CL::undistort(camf(in), p, r); pv(pv(out, r[0], 2), r[1], 2); }
VC(lens_old_project_f) { pv(out, Algorithm::projectWithDistortion(F<3>(in + 13), F<4>(in + 9), F33(in)), 2); }
VC(lens_old_distort_f) { pv(out, Algorithm::lensDistort(F<2>(in + 13), F<4>(in + 9), F33(in)), 2); }
VC(lens_old_undistort_f) { pv(out, Algorithm::lensUnDistort(F<2>(in + 13), F<4>(in + 9), F33(in)), 2); }
