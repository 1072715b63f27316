#include "vc.h"
#include <vector>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Pose.h>
#include <utMath/ErrorPose.h>
#include <utAlgorithm/BundleAdjustment.h>
#include <utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.h>
#include SRC(utUtil/Exception.cpp)
#include SRC(utMath/Quaternion.cpp)
#include SRC(utMath/Pose.cpp)
#include SRC(utMath/ErrorPose.cpp)
#include SRC(utAlgorithm/Homography.cpp)
#include SRC(utAlgorithm/Projection.cpp)
#include SRC(utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp)
// both Dehomogenization.h use this include guard
#undef __UBITRACK_CALIBRATION_FUNCTION_DEHOMOGENIZATION_H_INCLUDED__
#include <utMath/Optimization/NewFunction/Function.h>
#include <utMath/Optimization/NewFunction/Addition.h>
#include <utMath/Optimization/NewFunction/Subtraction.h>
#include <utMath/Optimization/NewFunction/Dehomogenization.h>
#include <utMath/Optimization/NewFunction/LieRotation.h>
#include <utMath/Optimization/NewFunction/LinearTransformation.h>
#include <utMath/Optimization/NewFunction/VectorNorm.h>
#define logger logger_mc
#include SRC(utAlgorithm/MultipleCameraPoseOptimization.cpp)
#undef logger
#define logger logger_ba
#include SRC(utAlgorithm/BundleAdjustment.cpp)
#undef logger
using namespace Ubitrack;
using namespace Ubitrack::Math;
namespace AL = Ubitrack::Algorithm;
namespace NF = Ubitrack::Math::Optimization::Function;
template<class T, int N> static std::vector< Vector<T,N> > pts(const double* p, int n) { std::vector< Vector<T,N> > r; for (int i = 0; i < n; i++) { Vector<T,N> v; for (int j = 0; j < N; j++) v(j) = (T)p[N*i+j]; r.push_back(v); } return r; }
template<int N> static Vector<double,N> V(const double* p) { Vector<double,N> v; for (int i = 0; i < N; i++) v(i) = p[i]; return v; }
template<int R, int C> static Matrix<double,R,C> M(const double* p) { Matrix<double,R,C> m; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i,j) = p[C*i+j]; return m; }
template<class T> static double* put(double* o, const T& v, int n) { for (int i = 0; i < n; i++) o[i] = v(i); return o + n; }
template<class T> static double* putm(double* o, const T& m, int r, int c) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o[c*i+j] = m(i,j); return o + r*c; }
static Pose pose7(const double* p) { return Pose(Quaternion(p[3], p[4], p[5], p[6]), V<3>(p)); }
static double* putp(const Pose& p, double* o) { for (int i = 0; i < 3; i++) o[i] = p.translation()(i); o[3] = p.rotation().x(); o[4] = p.rotation().y(); o[5] = p.rotation().z(); o[6] = p.rotation().w(); return o + 7; }

// ---- bundle adjustment: poses (7 each), points (3 each), observations per camera (2 each)
template<class T> static void ba(const double* in, double* out, int nc, int np, int times = 1) {
	std::vector<Pose> c; for (int i = 0; i < nc; i++) c.push_back(pose7(in + 7*i));
	std::vector< Vector<T,3> > p = pts<T,3>(in + 7*nc, np);
	std::vector< std::vector< Vector<T,2> > > o; for (int i = 0; i < nc; i++) o.push_back(pts<T,2>(in + 7*nc + 3*np + 2*np*i, np));
	for (int k = 0; k < times; k++) AL::simpleBundleAdjustment(o, c, p);
	for (int i = 0; i < nc; i++) out = putp(c[i], out);
	for (int i = 0; i < np; i++) out = put(out, p[i], 3); }
VC(net_ba) { ba<double>(in, out, 2, 3); }
VC(net_baf) { ba<float>(in, out, 2, 3); }
VC(net_ba1) { ba<double>(in, out, 1, 2); }
VC(net_ba_n) { ba<double>(in, out, (int)iin[0], (int)iin[1], (int)iin[2]); }
VC(net_ba_nf) { ba<float>(in, out, (int)iin[0], (int)iin[1], (int)iin[2]); }

// ---- pose of a target seen by several cameras: per camera pose (7), intrinsics (9), observations (2 each), weights
struct Net { std::vector< Vector<double,3> > p; std::vector< std::vector< Vector<double,2> > > o; std::vector< std::vector< Scalar<double> > > w; std::vector<Pose> c; std::vector< Matrix<double,3,3> > k;
	Net(const double* in, int nc, int np) : p(pts<double,3>(in, np)) { in += 3*np;
		for (int i = 0; i < nc; i++) { c.push_back(pose7(in)); in += 7; k.push_back(M<3,3>(in)); in += 9; o.push_back(pts<double,2>(in, np)); in += 2*np;
			w.push_back(std::vector< Scalar<double> >()); for (int j = 0; j < np; j++) w.back().push_back(Scalar<double>(*in++)); } end = in; }
	const double* end; };
static double* pute(const ErrorPose& e, double* o) { return putm(putp(e, o), e.covariance(), 6, 6); }
static void mc(const double* in, double* out, int nc, int np, int minc, bool init) { Net n(in, nc, np); ErrorPose e; Scalar<double> w(0.0);
	AL::multipleCameraPoseEstimation(n.p, n.o, n.w, n.c, n.k, minc, e, w, init, init ? pose7(n.end) : Pose()); *pute(e, out) = w; }
VC(net_mc) { mc(in, out, 2, 4, 2, true); }
VC(net_mc0) { mc(in, out, 2, 4, 2, false); }
VC(net_mc3) { mc(in, out, 2, 4, 3, true); }
VC(net_mc_n) { mc(in, out, (int)iin[0], (int)iin[1], (int)iin[2], iin[3] != 0); }
// two bundles of four points
VC(net_bundles) { Net n(in, 2, 8); std::vector<ErrorPose> e; std::vector< Scalar<double> > w; std::vector< Scalar<int> > s(2, Scalar<int>(4));
	AL::multipleCameraPoseEstimationWithLocalBundles(n.p, n.o, n.w, n.c, n.k, 4, e, w, s);
	iout[0] = e.size(); iout[1] = w.size(); if (e.size() == 2 && w.size() == 2) for (int i = 0; i < 2; i++) { out = pute(e[i], out); *out++ = w[i]; } }
// sizes: iin = points, cameras of the observations, the weights, the poses, the intrinsics, observations per camera, weights per camera
VC(net_sizes) { ErrorPose e; Scalar<double> w(0.0); Matrix<double,3,3> k; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) k(i,j) = i == j ? (i == 2 ? -1 : 1) : 0;
	std::vector< std::vector< Vector<double,2> > > o; for (int i = 0; i < iin[1]; i++) o.push_back(pts<double,2>(in, (int)iin[5]));
	std::vector< std::vector< Scalar<double> > > ww; for (int i = 0; i < iin[2]; i++) ww.push_back(std::vector< Scalar<double> >((std::size_t)iin[6], Scalar<double>(1.0)));
	AL::multipleCameraPoseEstimation(pts<double,3>(in + 12, (int)iin[0]), o, ww, std::vector<Pose>((std::size_t)iin[3], pose7(in + 30)), std::vector< Matrix<double,3,3> >((std::size_t)iin[4], k), 1000, e, w);
	*out = w; }
// objective function: 2 points, 2 cameras (rotation, translation, intrinsics), visibilities (0,0) (1,0) (1,1)
VC(net_obj) { std::vector< Vector<double,3> > p = pts<double,3>(in + 6, 2); std::vector< Matrix<double,3,3> > r, k; std::vector< Vector<double,3> > t;
	for (int i = 0; i < 2; i++) { const double* c = in + 12 + 21*i; r.push_back(M<3,3>(c)); t.push_back(V<3>(c + 9)); k.push_back(M<3,3>(c + 12)); }
	std::vector< std::pair<std::size_t, std::size_t> > v; v.push_back(std::make_pair(0, 0)); v.push_back(std::make_pair(1, 0)); v.push_back(std::make_pair(1, 1));
	AL::ObjectiveFunction<double> f(p, r, t, k, v); Vector<double> y(6); Matrix<double> j(6, 6); Vector<double,6> x = V<6>(in); f.evaluateWithJacobian(y, x, j); putm(put(out, y, 6), j, 6, 6); iout[0] = f.size(); }

// ---- composition of functions
template<int R, int C, class F> static void fj(const F& f, const double* in, double* out, long long* iout) { Vector<double,C> x = V<C>(in); Vector<double,R> y; Matrix<double,R,C> j; f.evaluateWithJacobian(x, y, j);
	out = putm(put(out, y, R), j, R, C); Vector<double,R> y2; f.evaluate(x, y2); Matrix<double,R,C> j2; f.jacobian(x, j2); putm(put(out, y2, R), j2, R, C); iout[0] = f.size(); }
VC(net_add) { fj<3,6>(NF::Addition<3>() << NF::parameter<3>(3) << NF::parameter<3>(0), in, out, iout); }
VC(net_sub) { fj<3,6>(NF::Subtraction<3>() << NF::parameter<3>(3) << NF::parameter<3>(0), in, out, iout); }
VC(net_subfix) { Vector<double,3> v = V<3>(in + 3); fj<3,3>(NF::Subtraction<3>() << NF::fixedParameterRef<3>(v) << NF::parameter<3>(0), in, out, iout); }
VC(net_subcopy) { fj<3,3>(NF::Subtraction<3>() << NF::parameter<3>(0) << NF::fixedParameterCopy<3>(V<3>(in + 3)), in, out, iout); }
VC(net_lin) { Matrix<double,2,3> m = M<2,3>(in + 3); fj<2,3>(NF::LinearTransformation<2,3>(m) << NF::parameter<3>(0), in, out, iout); }
VC(net_dehom) { fj<2,3>(NF::Dehomogenization<3>() << NF::parameter<3>(0), in, out, iout); }
VC(net_norm) { fj<1,3>(NF::VectorNorm<3>() << NF::parameter<3>(0), in, out, iout); }
VC(net_lie) { fj<3,6>(NF::LieRotation() << NF::parameter<3>(0) << NF::parameter<3>(3), in, out, iout); }
VC(net_chain) { Matrix<double,3,3> m = M<3,3>(in + 6); fj<2,6>(NF::Dehomogenization<3>() << (NF::LinearTransformation<3,3>(m) << (NF::Addition<3>() << NF::parameter<3>(0) << NF::parameter<3>(3))), in, out, iout); }
VC(net_dist) { Matrix<double,3,3> m = M<3,3>(in + 6); fj<1,6>(NF::VectorNorm<3>() << (NF::Subtraction<3>() << (NF::LinearTransformation<3,3>(m) << NF::parameter<3>(0)) << NF::parameter<3>(3)), in, out, iout); }
