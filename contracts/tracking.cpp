#include "vc.h"
#include <vector>
#include <utMath/Matrix.h>
#include <utMath/Vector.h>
#include SRC(utMath/Quaternion.cpp)
#include <utMath/RotationVelocity.h>
#include <utMath/Optimization/Function/RotationVelocityIntegration.h>
#include <utTracking/Function/LinearTimeUpdate.h>
#include <utTracking/Function/QuaternionTimeUpdate.h>
#include <utTracking/Function/PoseTimeUpdate.h>
#include <utTracking/Function/InsideOutPoseTimeUpdate.h>
#include <utTracking/Function/InvertRotationVelocity.h>
#include <utTracking/LinearPoseMotionModel.h>
using namespace Ubitrack;
using namespace Ubitrack::Math;
namespace TF = Ubitrack::Tracking::Function;
static Quaternion Q(const double* p) { return Quaternion(p[0], p[1], p[2], p[3]); }
static double* put(double* o, const Quaternion& q) { o[0] = q.x(); o[1] = q.y(); o[2] = q.z(); o[3] = q.w(); return o + 4; }
static Vector<double> DV(const double* p, int n) { Vector<double> v(n); for (int i = 0; i < n; i++) v(i) = p[i]; return v; }
template<class F> static void fj(double* o, const F& f, const double* in, int n, int m) {
	Vector<double> r(n), x(DV(in, m)); Matrix<double,0,0> j(n, m); f.evaluateWithJacobian(r, x, j);
	for (int i = 0; i < n; i++) *o++ = r(i);
	for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) *o++ = j(i, k); }

VC(trk_rv_ctor) { RotationVelocity v(Q(in), Q(in + 4), in[8]); for (int i = 0; i < 3; i++) out[i] = v(i); }
VC(trk_rv_integrate) { put(out, RotationVelocity(in[0], in[1], in[2]).integrate(in[3])); }
VC(trk_rv_axis) { RotationVelocity v(in[0], in[1], in[2]); out[0] = v.angularVelocity(); Vector<double,3> a = v.axis(); for (int i = 0; i < 3; i++) out[1 + i] = a(i); }
VC(trk_rvi) { fj(out, Optimization::Function::RotationVelocityIntegration(in[3]), in, 4, 3); }
VC(trk_quat) { fj(out, TF::QuaternionTimeUpdate(in[7], 1), in, 4, 7); }
VC(trk_linear) { fj(out, TF::LinearTimeUpdate(in[6], 2, 2), in, 2, 6); }
template<int P, int R> static void pose(const double* in, double* out) { const int n = 3 + 3*P + (R >= 0 ? 4 + 3*R : 0); fj(out, TF::PoseTimeUpdate(in[n], P, R), in, n, n); }
VC(trk_pose_0_m) { pose<0,-1>(in, out); }
VC(trk_pose_0_0) { pose<0,0>(in, out); }
VC(trk_pose_0_1) { pose<0,1>(in, out); }
VC(trk_pose_1_m) { pose<1,-1>(in, out); }
VC(trk_pose_1_0) { pose<1,0>(in, out); }
VC(trk_pose_1_1) { pose<1,1>(in, out); }
VC(trk_pose_2_0) { pose<2,0>(in, out); }
VC(trk_pose_2_1) { pose<2,1>(in, out); }
VC(trk_inside_0) { fj(out, TF::InsideOutPoseTimeUpdate(in[10], 0), in, 10, 10); }
VC(trk_inside_1) { fj(out, TF::InsideOutPoseTimeUpdate(in[13], 1), in, 13, 13); }
VC(trk_invvel) { fj(out, TF::InvertRotationVelocity(), in, 3, 7); }
template<int P, int R> static void model(const double* in, double* out) {
	Tracking::LinearPoseMotionModel m(P, R); const int n = m.stateSize();
	for (int i = 0; i <= P; i++) m.setPosPN(i, in[i]);
	for (int i = 0; i <= R; i++) m.setOriPN(i, in[3 + i]);
	Matrix<double,0,0> c(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) c(i, j) = in[7 + i*n + j];
	m.addNoise(c, in[6]);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) out[i*n + j] = c(i, j); }
VC(trk_model_0_0) { model<0,0>(in, out); }
VC(trk_model_1_1) { model<1,1>(in, out); }
VC(trk_model_2_m) { model<2,-1>(in, out); }
VC(trk_model_1_2) { model<1,2>(in, out); }
#include SRC(utMath/Pose.cpp)
#include SRC(utMath/ErrorPose.cpp)
#define logger logger_rokf
#include SRC(utTracking/RotationOnlyKf.cpp)
#undef logger
VC(trk_rokf_first) { Tracking::RotationOnlyKF f; f.addRotationMeasurement(Measurement::Rotation(iin[0], Q(in))); Measurement::Rotation r = f.predict(iin[1]);
	put(out, *r); for (int i = 0; i < 7; i++) out[4 + i] = f.getState()(i); iout[0] = r.time(); }
VC(trk_rokf_vel) { Tracking::RotationOnlyKF f; f.addRotationMeasurement(Measurement::Rotation(iin[0], Q(in)));
	f.addVelocityMeasurement(Measurement::RotationVelocity(iin[0], RotationVelocity(in[4], in[5], in[6]))); Measurement::Rotation r = f.predict(iin[1]);
	put(out, *r); for (int i = 0; i < 7; i++) out[4 + i] = f.getState()(i); iout[0] = r.time(); }
