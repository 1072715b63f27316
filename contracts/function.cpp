#include "vc.h"
#include <vector>
#include <utMath/Matrix.h>
#include <utMath/Vector.h>
#include SRC(utMath/Quaternion.cpp)
#include SRC(utMath/Pose.cpp)
#include <utMath/Optimization/Function/QuaternionVectorRotation.h>
#include <utMath/Optimization/Function/VectorNormalize.h>
#include <utMath/Optimization/Function/LinearFunction.h>
#include <utAlgorithm/Function/CameraIntrinsicsMultiplication.h>
#include <utAlgorithm/Function/Dehomogenization.h>
#include <utAlgorithm/Function/LieRotation.h>
#include <utAlgorithm/Function/MultipleCameraProjection.h>
#include <utAlgorithm/Function/MultipleCameraProjectionError.h>
#include <utAlgorithm/Function/MultipleCameraProjectionErrorART.h>
#include <utAlgorithm/Function/ProjectivePoseNormalize.h>
#include <utAlgorithm/Function/MultiplePointProjection.h>
#include <utAlgorithm/Function/MultiplePointProjectionError.h>
#include <utAlgorithm/Function/QuaternionRotation.h>
#include <utAlgorithm/Function/QuaternionRotationError.h>
#include <utAlgorithm/Function/RadialDistortion.h>
#include <utAlgorithm/Function/RotHecFunction.h>
#include <utAlgorithm/Function/SinglePointMultiProjection.h>
#include <utAlgorithm/PoseEstimation3D3D/Optimization.h>
#include <utAlgorithm/ToolTip/Optimization.h>
#include <utMath/CameraIntrinsics.h>
#include <utAlgorithm/CameraLens/Distortion.h>
#include <utAlgorithm/CameraLens/Undistortion.h>
using namespace Ubitrack;
using namespace Ubitrack::Math;
namespace AF = Ubitrack::Algorithm::Function;
namespace OF = Ubitrack::Math::Optimization::Function;
template<int N> static Vector<double,N> V(const double* p) { Vector<double,N> v; for (int i = 0; i < N; i++) v(i) = p[i]; return v; }
template<int R, int C> static Matrix<double,R,C> M(const double* p) { Matrix<double,R,C> m; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i,j) = p[C*i+j]; return m; }
static Quaternion Q(const double* p) { return Quaternion(p[0], p[1], p[2], p[3]); }
static Pose P(const double* p) { return Pose(Q(p), V<3>(p + 4)); }
template<class T> static double* pv(double* o, const T& v, int n) { for (int i = 0; i < n; i++) o[i] = v(i); return o + n; }
template<class T> static double* pm(double* o, const T& m, int r, int c) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o[c*i+j] = m(i,j); return o + r*c; }
template<int R, int C, class F> static void fj(double* out, const F& f, const Vector<double,C>& x) {
	Vector<double,R> r; Matrix<double,R,C> j; f.evaluateWithJacobian(r, x, j); pm(pv(out, r, R), j, R, C); }

VC(jac_quatrot) { Vector<double,3> v = V<3>(in + 4); fj<3,4>(out, AF::QuaternionRotation<double>(v), V<4>(in)); }
VC(jac_quatvec) { Vector<double,3> r; Matrix<double,3,4> a; Matrix<double,3,3> b;
	OF::QuaternionVectorRotation().evaluateWithJacobian(r, V<4>(in), V<3>(in + 4), a, b); pm(pm(pv(out, r, 3), a, 3, 4), b, 3, 3); }
VC(jac_quatroterr) { Vector<double,3> v = V<3>(in + 4); Matrix<double,3,3> j; AF::QuaternionRotationError<double>(v).jacobian(V<4>(in), j); pm(out, j, 3, 3); }
VC(jac_dehom) { fj<2,3>(out, AF::Dehomogenization<3>(), V<3>(in)); }
VC(jac_intrinsics) { Vector<double,2> p = V<2>(in + 5); fj<2,5>(out, AF::CameraIntrinsicsMultiplication<double>(p), V<5>(in)); }
VC(jac_raddist_p) { Vector<double,4> d = V<4>(in + 2); fj<2,2>(out, AF::RadialDistortionWrtP<double>(d), V<2>(in)); }
VC(jac_raddist_d) { Vector<double,2> p = V<2>(in); fj<2,4>(out, AF::RadialDistortionWrtD<double>(p), V<4>(in + 2)); }
VC(jac_normalize) { fj<4,4>(out, OF::VectorNormalize(4), V<4>(in)); }
VC(jac_linear) { Matrix<double,2,3> a = M<2,3>(in); fj<2,3>(out, OF::LinearFunction<2,3,double>(a), V<3>(in + 6)); }
VC(jac_lie) { Vector<double,3> v = V<3>(in + 3); fj<3,3>(out, AF::LieRotation<double>(v), V<3>(in)); }
VC(jac_poseproj) { std::vector<Vector<double,3> > p; p.push_back(V<3>(in + 16)); p.push_back(V<3>(in + 19)); Matrix<double,3,3> k = M<3,3>(in + 7);
	fj<4,7>(out, AF::MultiplePointProjection<double>(p, k), V<7>(in)); }
VC(jac_poseproj_err) { std::vector<Vector<double,3> > p; p.push_back(V<3>(in + 16)); p.push_back(V<3>(in + 19)); Matrix<double,3,3> k = M<3,3>(in + 7);
	Matrix<double,4,6> j; AF::MultiplePointProjectionError<double>(p, k).jacobian(V<7>(in), j); pm(out, j, 4, 6); }
VC(jac_camproj_err) { std::vector<Vector<double,3> > p; p.push_back(V<3>(in + 31)); p.push_back(V<3>(in + 34));
	std::vector<Matrix<double,3,4> > k; k.push_back(M<3,4>(in + 7)); k.push_back(M<3,4>(in + 19));
	std::vector<std::pair<std::size_t,std::size_t> > w; w.push_back(std::make_pair(0, 0)); w.push_back(std::make_pair(1, 1)); w.push_back(std::make_pair(0, 1));
	Matrix<double,6,6> j; AF::MultipleCameraProjectionError<double>(p, k, w).jacobian(V<7>(in), j); pm(out, j, 6, 6); }
VC(jac_camproj) { std::vector<Pose> c; c.push_back(P(in + 7)); c.push_back(P(in + 14));
	std::vector<Matrix<double,3,3> > k; k.push_back(M<3,3>(in + 21)); k.push_back(M<3,3>(in + 30));
	std::vector<Vector<double,4> > d; d.push_back(V<4>(in + 39)); d.push_back(V<4>(in + 43));
	std::vector<Vector<double,3> > p; p.push_back(V<3>(in + 47)); p.push_back(V<3>(in + 50));
	std::vector<std::pair<std::size_t,std::size_t> > w; w.push_back(std::make_pair(0, 0)); w.push_back(std::make_pair(1, 1));
	fj<4,7>(out, AF::MultipleCameraProjection<double>(p, c, k, d, w), V<7>(in)); }
VC(jac_pointmulti) { std::vector<Matrix<double,3,4> > k; k.push_back(M<3,4>(in + 3)); k.push_back(M<3,4>(in + 15));
	fj<4,3>(out, AF::SinglePointMultiProjection<double, std::vector<Matrix<double,3,4> >::const_iterator>(k.begin(), k.end()), V<3>(in)); }
VC(jac_3d3d) { std::vector<Vector<double,3> > p; p.push_back(V<3>(in + 7)); p.push_back(V<3>(in + 10));
	fj<6,7>(out, Algorithm::PoseEstimation3D3D::PointCorrespodencesSinglePose<std::vector<Vector<double,3> >::const_iterator>(p.begin(), p.end()), V<7>(in)); }
VC(jac_tooltip) { std::vector<Pose> p; p.push_back(P(in + 6)); p.push_back(P(in + 13));
	fj<2,6>(out, Algorithm::ToolTip::MultiplePoseSinglePointTransformation<std::vector<Pose>::const_iterator>(p.begin(), p.end()), V<6>(in)); }
VC(jac_undistort) { Vector<double,6> k = V<6>(in + 2); Vector<double,2> g = V<2>(in + 8); fj<2,2>(out, Algorithm::CameraLens::internal::PointUndistortion<double>(k, g), V<2>(in)); }
VC(jac_rothec) { fj<4,4>(out, AF::RotHecMeasurement(Q(in), Q(in + 4)), V<4>(in + 8)); }
VC(jac_rothec_combine) { Matrix<double,4,4> a, b; AF::RotHecCombine(Q(in + 8)).jacobian(V<4>(in), V<4>(in + 4), a, b); pm(pm(out, a, 4, 4), b, 4, 4); }
VC(jac_ppnorm) { Vector<double,7> r; AF::ProjectivePoseNormalize().evaluate(r, V<7>(in)); pv(out, r, 7); }
VC(jac_camproj_art) { std::vector<Vector<double,3> > p; p.push_back(V<3>(in + 30)); p.push_back(V<3>(in + 33));
	std::vector<Matrix<double,3,4> > k; k.push_back(M<3,4>(in + 6)); k.push_back(M<3,4>(in + 18));
	std::vector<std::pair<unsigned,unsigned> > w; w.push_back(std::make_pair(0u, 0u)); w.push_back(std::make_pair(1u, 1u)); w.push_back(std::make_pair(0u, 1u));
	Matrix<double,6,6> j; AF::MultipleCameraProjectionErrorART<double>(p, k, w, V<3>(in + 36)).jacobian(V<6>(in), j); pm(out, j, 6, 6); }
