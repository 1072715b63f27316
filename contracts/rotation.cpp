#include "vc.h"
#include <utMath/Matrix.h>
#include SRC(utMath/Quaternion.cpp)
#include SRC(utMath/Pose.cpp)
using namespace Ubitrack;
using namespace Ubitrack::Math;
static Quaternion Q(const double* p) { return Quaternion(p[0], p[1], p[2], p[3]); }
static Vector<double,3> V3(const double* p) { return Vector<double,3>(p[0], p[1], p[2]); }
static Pose P(const double* p) { return Pose(Q(p), V3(p + 4)); }
static void put(double* o, const Quaternion& q) { o[0] = q.x(); o[1] = q.y(); o[2] = q.z(); o[3] = q.w(); }
static void put(double* o, const Vector<double,3>& v) { for (int i = 0; i < 3; i++) o[i] = v(i); }
static void put(double* o, const Pose& p) { put(o, p.rotation()); put(o + 4, p.translation()); }

// ---- rotations
VC(rot_vector) { put(out, Q(in) * V3(in + 4)); }
VC(rot_compose) { Quaternion c(Q(in) * Q(in + 4)); put(out, c * V3(in + 8)); put(out + 3, c); }
VC(rot_inverse) { Quaternion q = Q(in); Quaternion i = ~q; put(out, i); put(out + 4, i * (q * V3(in + 4))); Quaternion k = q; k.invert(); put(out + 7, k); }
VC(rot_normalize) { Quaternion q = Q(in); q.normalize(); put(out, q); }
VC(rot_angle) { out[0] = Q(in).angle(); }
VC(rot_identity) { put(out, Quaternion()); }
VC(rot_negate_if_closer) { put(out, Q(in).negateIfCloser(Q(in + 4))); }

// ---- conversions
VC(conv_to_matrix) { Matrix<double,3,3> m; Q(in).toMatrix(m); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) out[3*i+j] = m(i,j); }
VC(conv_from_matrix) { Matrix<double,0,0> m(3,3); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i,j) = in[3*i+j]; put(out, Quaternion(m)); }
VC(conv_axis_angle_ctor) { put(out, Quaternion(V3(in), in[3])); }
VC(conv_to_axis_angle) { Vector<double,3> a; double g; Quaternion q = Q(in); q.toAxisAngle(a, g); put(out, a); out[3] = g; }
VC(conv_exp) { put(out, Quaternion::fromLogarithm(V3(in))); }
VC(conv_log) { put(out, Q(in).toLogarithm()); }
VC(conv_euler_ctor) { put(out, Quaternion(in[0], in[1], in[2])); }
VC(conv_euler_default) { put(out, Q(in).getEulerAngles()); }
VC(conv_euler_seq) { put(out, Q(in).getEulerAngles(Quaternion::t_EulerSequence(iin[0]))); }
VC(conv_quat_vector) { Vector<double,4> v; Q(in).toVector(v); for (int i = 0; i < 4; i++) out[i] = v(i); put(out + 4, Quaternion::fromVector(v)); }

// ---- rigid poses
VC(pose_point) { put(out, P(in) * V3(in + 7)); }
VC(pose_compose) { Pose c = P(in) * P(in + 7); put(out, c); put(out + 7, c * V3(in + 14)); }
VC(pose_invert) { Pose i = ~P(in); put(out, i); put(out + 7, i * (P(in) * V3(in + 7))); put(out + 10, P(in) * (i * V3(in + 7))); }
VC(pose_from_matrix) { Matrix<double,0,0> m(3,4); for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) m(i,j) = in[4*i+j]; put(out, Pose(m)); }
VC(pose_vector) { Vector<double,7> v; P(in).toVector(v); for (int i = 0; i < 7; i++) out[i] = v(i); put(out + 7, Pose::fromVector(v)); }
VC(pose_scale) { Pose p = P(in); p.scalePose(in[7]); put(out, p); }
VC(pose_default) { put(out, Pose()); }
VC(pose_equal) { iout[0] = P(in) == P(in + 7); iout[1] = P(in) != P(in + 7); }
VC(pose_to_matrix) { Matrix<double,3,4> m(P(in)); for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) out[4*i+j] = m(i,j); }
VC(pose_parts_matrix) { Pose p = P(in); Matrix<double,3,4> a(p.rotation(), p.translation()); Matrix<double,4,4> m(p.rotation(), p.translation()); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { out[4*i+j] = m(i,j); if (i < 3) out[16+4*i+j] = a(i,j); } }
VC(pose_to_matrix44) { Matrix<double,4,4> m(P(in)); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) out[4*i+j] = m(i,j); }

// ---- interpolation
VC(interp_slerp) { put(out, slerp(Q(in), Q(in + 4), in[8])); }
VC(interp_pose) { put(out, linearInterpolate(P(in), P(in + 7), in[14])); }
VC(interp_quat) { put(out, linearInterpolate(Q(in), Q(in + 4), in[8])); put(out + 4, slerp(Q(in), Q(in + 4), in[8])); }
VC(interp_poses) { std::vector<Pose> a, b; for (int i = 0; i < 2; i++) { a.push_back(P(in + 7 * i)); b.push_back(P(in + 14 + 7 * i)); }
	std::vector<Pose> r = linearInterpolate(a, b, in[28]); iout[0] = r.size(); for (int i = 0; i < 2; i++) { put(out + 7 * i, r[i]); put(out + 14 + 7 * i, linearInterpolate(a[i], b[i], in[28])); } }
VC(interp_vector) { put(out, linearInterpolate(V3(in), V3(in + 3), in[6])); }
