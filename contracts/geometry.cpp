#include "vc.h"
#include <vector>
#include <utMath/Matrix.h>
#include <utMath/Vector.h>
#include <utMath/Geometry/PointTransformation.h>
#include <utMath/Geometry/PointProjection.h>
#include <utMath/Geometry/PointNormalization.h>
#include <utMath/Geometry/Conic.h>
#include <utMath/Geometry/ConicCovariance.h>
#include SRC(utUtil/Exception.cpp)
#include <utMath/Geometry/QuadricFunctors.h>
using namespace Ubitrack;
using namespace Ubitrack::Math;
namespace G = Ubitrack::Math::Geometry;
template<int N> static Vector<double,N> V(const double* p) { Vector<double,N> v; for (int i = 0; i < N; i++) v(i) = p[i]; return v; }
template<int R, int C> static Matrix<double,R,C> M(const double* p) { Matrix<double,R,C> m; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i,j) = p[C*i+j]; return m; }
template<class T> static double* pv(double* o, const T& v, int n) { for (int i = 0; i < n; i++) o[i] = v(i); return o + n; }
template<class T> static double* pm(double* o, const T& m, int r, int c) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o[c*i+j] = m(i,j); return o + r*c; }
template<int R, int C, int N> static void tp(const double* in, double* out) {
	std::vector< Vector<double,N> > p; std::vector< Vector<double,R> > r; for (int i = 0; i < 2; i++) p.push_back(V<N>(in + R*C + N*i));
	G::transform_points(M<R,C>(in), p.begin(), p.end(), std::back_inserter(r)); for (std::size_t i = 0; i < r.size(); i++) pv(out + R*i, r[i], R); out[2*R] = (double)r.size(); }
VC(pt_trans_232) { tp<2,3,2>(in, out); }
VC(pt_trans_233) { tp<2,3,3>(in, out); }
VC(pt_trans_332) { tp<3,3,2>(in, out); }
VC(pt_trans_333) { tp<3,3,3>(in, out); }
VC(pt_trans_342) { tp<3,4,2>(in, out); }
VC(pt_trans_343) { tp<3,4,3>(in, out); }
VC(pt_trans_344) { tp<3,4,4>(in, out); }
VC(pt_trans_442) { tp<4,4,2>(in, out); }
VC(pt_trans_443) { tp<4,4,3>(in, out); }
VC(pt_trans_444) { tp<4,4,4>(in, out); }
template<int R, int C, int N> static void pp(const double* in, double* out) {
	std::vector< Vector<double,N> > p; std::vector< Vector<double,2> > r; for (int i = 0; i < 2; i++) p.push_back(V<N>(in + R*C + N*i));
	G::project_points(M<R,C>(in), p.begin(), p.end(), std::back_inserter(r)); for (std::size_t i = 0; i < r.size(); i++) pv(out + 2*i, r[i], 2); out[4] = (double)r.size(); }
VC(pt_proj_332) { pp<3,3,2>(in, out); }
VC(pt_proj_342) { pp<3,4,2>(in, out); }
VC(pt_proj_343) { pp<3,4,3>(in, out); }
VC(pt_proj_344) { pp<3,4,4>(in, out); }
template<int N> static void np(const double* in, double* out) {
	std::vector< Vector<double,N> > p; for (int i = 0; i < 3; i++) p.push_back(V<N>(in + N*i));
	Vector<double,N> shift, scale; G::estimateNormalizationParameters(p.begin(), p.end(), shift, scale); pv(pv(out, shift, N), scale, N); }
VC(pt_norm_2) { np<2>(in, out); }
VC(pt_norm_3) { np<3>(in, out); }
template<int N> static void nm(const double* in, double* out) {
	Vector<double,N> shift = V<N>(in), scale = V<N>(in + N); pm(pm(out, G::generateNormalizationMatrix(shift, scale, false), N+1, N+1), G::generateNormalizationMatrix(shift, scale, true), N+1, N+1); }
VC(pt_normmat_2) { nm<2>(in, out); }
VC(pt_normmat_3) { nm<3>(in, out); }

VC(con_matrix) { Matrix<double,3,3> m = G::MatrixFromConic<double>()(V<6>(in)); pv(pm(out, m, 3, 3), G::ConicFromMatrix<double>()(m), 6); }
VC(con_frommatrix) { pv(out, G::ConicFromMatrix<double>()(M<3,3>(in)), 6); }
VC(con_inverse) { pv(out, G::ConicInverse<double>()(V<6>(in)), 6); }
VC(con_det) { out[0] = G::ConicDeterminant<double>()(V<6>(in)); }
VC(con_angle) { out[0] = G::ConicAngle<double>()(V<6>(in)); }
VC(con_axes) { pv(out, G::ConicSemiAxes<double>()(V<6>(in)), 2); }
VC(con_center) { pv(out, G::ConicCenter<double>()(V<6>(in)), 2); }
VC(con_ecc) { out[0] = G::ConicEccentricity<double>()(V<6>(in)); }
VC(con_area) { out[0] = G::ConicArea<double>()(V<6>(in)); }
VC(con_class) { Vector<double,6> c = V<6>(in); iout[0] = G::IsConicEllipse<double>()(c); iout[1] = G::IsConicHyperbola<double>()(c); iout[2] = G::IsConicParabola<double>(in[6])(c); iout[3] = G::IsConicDegenerate<double>(in[6])(c); iout[4] = G::IsConicCircle<double>(in[6])(c); }
VC(con_scale2) { pv(out, G::ScaleConicUnsafe<double>(in[6], in[7])(V<6>(in)), 6); }
VC(con_scale1) { pv(out, G::ScaleConicUnsafe<double>(in[6])(V<6>(in)), 6); }
VC(con_translate) { pv(out, G::TranslateConic<double>()(V<2>(in + 6), V<6>(in)), 6); }
VC(con_pixel) { out[0] = G::ConicPixel<double>()(V<6>(in), V<2>(in + 6)); }
VC(con_flip) { pv(out, G::FlipConicHorizontal<double>(in[6])(V<6>(in)), 6); }
VC(con_updown) { pv(out, G::ConicUpperLowerLimit<double>()(V<6>(in)), 2); }
VC(con_leftright) { pv(out, G::ConicLeftRightLimit<double>()(V<6>(in)), 2); }
VC(con_horizontal) { pv(out, G::ConicHorizontalIntersection<double>()(V<6>(in), in[6]), 2); }
VC(con_quadric) { pv(out, G::ProjectQuadric<double>()(M<3,4>(in), V<10>(in + 12)), 6); }
VC(con_ell2quad) { pv(out, G::Ellipsoid2Quadric<double>()(V<6>(in)), 10); }
VC(con_ellipsoid) { pv(out, G::ProjectEllipsoid<double>()(M<3,4>(in), V<6>(in + 12)), 6); }
template<int N> static void ccov(const double* in, double* out) { std::vector<Vector<double,2> > p; for (int i = 0; i < N; i++) p.push_back(V<2>(in + 6 + 2 * i));
	Matrix<double,6,6> c; Math::Geometry::estimateCovariance(p.begin(), p.end(), V<6>(in), c); pm(out, c, 6, 6); }
VC(con_cov2) { ccov<2>(in, out); }
VC(con_cov8) { ccov<8>(in, out); }
