#include "vc.h"
#include <vector>
#include SRC(utMath/Quaternion.cpp)
#include SRC(utMath/Pose.cpp)
#include SRC(utMath/ErrorPose.cpp)
#include SRC(utTracking/PoseKalmanFilter.cpp)
#define logger logger_exc
#include SRC(utUtil/Exception.cpp)
#undef logger
using namespace Ubitrack;
using namespace Ubitrack::Math;
namespace TR = Ubitrack::Tracking;
static Quaternion Q(const double* p) { return Quaternion(p[0], p[1], p[2], p[3]); }
static Pose PO(const double* p) { return Pose(Q(p + 3), Vector<double,3>(p[0], p[1], p[2])); }
static TR::LinearPoseMotionModel model(int P, int R, const double* pn) {
	TR::LinearPoseMotionModel m(P, R);
	for (int i = 0; i <= P; i++) m.setPosPN(i, pn[i]);
	for (int i = 0; i <= R; i++) m.setOriPN(i, pn[3 + i]);
	return m; }
static Matrix<double,6,6> cov(const double* p) { Matrix<double,6,6> c; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) c(i, j) = p[i*6 + j]; return c; }
static double* put(double* o, const ErrorPose& p) {
	for (int i = 0; i < 3; i++) *o++ = p.translation()(i);
	*o++ = p.rotation().x(); *o++ = p.rotation().y(); *o++ = p.rotation().z(); *o++ = p.rotation().w();
	for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) *o++ = p.covariance()(i, j);
	return o; }
// in: process noises (6), pose (7); stamps t0, t1: first measurement (exact) and prediction
template<int P, int R> static void first(const double* in, const long long* iin, double* out, long long* iout, bool inside = false) {
	TR::PoseKalmanFilter f(model(P, R, in), inside);
	f.addPoseMeasurement(Measurement::ErrorPose(iin[0], ErrorPose(PO(in + 6), Matrix<double,6,6>::zeros())));
	Measurement::ErrorPose r = f.predictPose(iin[1]); put(out, *r); iout[0] = r.time(); }
VC(trk_pkf_first_0_0) { first<0,0>(in, iin, out, iout); }
VC(trk_pkf_first_1_0) { first<1,0>(in, iin, out, iout); }
VC(trk_pkf_first_1_1) { first<1,1>(in, iin, out, iout); }
VC(trk_pkf_first_2_1) { first<2,1>(in, iin, out, iout); }
VC(trk_pkf_first_in0) { first<0,1>(in, iin, out, iout, true); }
VC(trk_pkf_first_in1) { first<1,1>(in, iin, out, iout, true); }
// a velocity measured together with the first pose
template<int P, bool inv> static void vel(const double* in, const long long* iin, double* out, long long* iout) {
	TR::PoseKalmanFilter f(model(P, 1, in), inv);
	f.addPoseMeasurement(Measurement::ErrorPose(iin[0], ErrorPose(PO(in + 6), Matrix<double,6,6>::zeros())));
	Measurement::RotationVelocity v(iin[0], RotationVelocity(in[13], in[14], in[15]));
	if (inv) f.addInverseRotationVelocityMeasurement(v); else f.addRotationVelocityMeasurement(v);
	Measurement::ErrorPose r = f.predictPose(iin[1]); put(out, *r); iout[0] = r.time(); }
VC(trk_pkf_vel_0) { vel<0,false>(in, iin, out, iout); }
VC(trk_pkf_vel_1) { vel<1,false>(in, iin, out, iout); }
VC(trk_pkf_invvel_1) { vel<1,true>(in, iin, out, iout); }
// a rotation measurement first, then an exact pose; velocities before the first measurement are ignored
VC(trk_pkf_rot) { TR::PoseKalmanFilter f(model(1, 1, in));
	f.addRotationVelocityMeasurement(Measurement::RotationVelocity(iin[0], RotationVelocity(in[13], in[14], in[15])));
	f.addRotationMeasurement(Measurement::Rotation(iin[0], Q(in + 9)));
	Measurement::ErrorPose r = f.predictPose(iin[1]); put(out, *r); iout[0] = r.time(); }
VC(trk_pkf_none) { TR::PoseKalmanFilter f(model(1, 1, in)); f.predictPose(iin[0]); out[0] = 0; }
#define logger logger_rokf
#include SRC(utTracking/RotationOnlyKf.cpp)
#undef logger
// kind, time, rotation, velocity for each of six measurements; prediction time
VC(trk_rokf_hist) { TR::RotationOnlyKF f; const long long base = 1000000000000000000LL; const double* p = in;
	for (int i = 0; i < 6; i++, p += 9) { const unsigned long long t = base + (long long)p[1];
		if (p[0] == 0) f.addRotationMeasurement(Measurement::Rotation(t, Q(p + 2)));
		else f.addVelocityMeasurement(Measurement::RotationVelocity(t, RotationVelocity(p[6], p[7], p[8]))); }
	Measurement::Rotation r = f.predict(base + (long long)*p); out[0] = r->x(); out[1] = r->y(); out[2] = r->z(); out[3] = r->w(); for (int i = 0; i < 7; i++) out[4 + i] = f.getState()(i); }
#define MODE(P, R, I) VC(trk_pkf_mode_##P##_##R##_##I) { TR::PoseKalmanFilter f(TR::LinearPoseMotionModel(P, R), I); out[0] = 1; }
MODE(2, 1, 1) MODE(1, 2, 1) MODE(1, 0, 1) MODE(1, 1, 1) MODE(0, 1, 1) MODE(2, 2, 0)
VC(trk_pkf_unset) { TR::LinearPoseMotionModel m(1, 1); Matrix<double,0,0> c(13, 13); for (int i = 0; i < 13; i++) for (int j = 0; j < 13; j++) c(i, j) = in[1];
	m.setPosPN(0, 0.5); m.addNoise(c, in[0]); for (int i = 0; i < 13; i++) out[i] = c(i, i); }
// histories: in: mode (P, R, inside), noises 6, number of measurements, then per measurement kind, time offset in ns, pose 7, velocity 3, covariance 36; last a prediction
VC(trk_pkf_hist) { const int P = (int)in[0], R = (int)in[1]; TR::PoseKalmanFilter f(model(P, R, in + 3), in[2] != 0);
	const long long base = 1000000000000000000LL; const double* p = in + 9;
	for (int i = 0; i < 4; i++, p += 48) { const unsigned long long t = base + (long long)p[1]; const int k = (int)p[0];
		if (k == 0) f.addPoseMeasurement(Measurement::ErrorPose(t, ErrorPose(PO(p + 2), cov(p + 12))));
		if (k == 1) f.addRotationMeasurement(Measurement::Rotation(t, Q(p + 5)));
		if (k == 2) f.addRotationVelocityMeasurement(Measurement::RotationVelocity(t, RotationVelocity(p[9], p[10], p[11])));
		if (k == 3) f.addInverseRotationVelocityMeasurement(Measurement::RotationVelocity(t, RotationVelocity(p[9], p[10], p[11]))); }
	Measurement::ErrorPose r = f.predictPose(base + (long long)*p); put(out, *r); }
