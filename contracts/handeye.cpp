#include "vc.h"
#include <vector>
#include <iostream>
#include <cassert>
#include <algorithm>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Pose.h>
#include <utMath/Quaternion.h>
#include <utAlgorithm/PoseEstimation6D6D/TsaiLenz.h>
#include <utAlgorithm/PoseEstimation6D6D/DualQuaternion.h>
#include <utAlgorithm/PoseEstimation6D6D/DataSelection.h>
#include <utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h>
#include <utAlgorithm/OnlineRotHec.h>
#include <utAlgorithm/RotationHecKalmanFilter.h>
#define logger logger_exc
#include SRC(utUtil/Exception.cpp)
#undef logger
#include SRC(utMath/Quaternion.cpp)
#include SRC(utMath/Pose.cpp)
#include SRC(utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp)
#include SRC(utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp)
#include SRC(utAlgorithm/PoseEstimation6D6D/DataSelection.cpp)
#define logger logger_rothec
#include SRC(utAlgorithm/OnlineRotHec.cpp)
#undef logger
#include SRC(utAlgorithm/RotationHecKalmanFilter.cpp)
using namespace Ubitrack;
using namespace Ubitrack::Math;
namespace A = Ubitrack::Algorithm::PoseEstimation6D6D;
static Quaternion quat(const double* p) { return Quaternion(p[0], p[1], p[2], p[3]); }
static Pose pose7(const double* p) { return Pose(quat(p + 3), Vector<double,3>(p[0], p[1], p[2])); }
static std::vector<Pose> poses(const double* p, int n) { std::vector<Pose> r; for (int i = 0; i < n; i++) r.push_back(pose7(p + 7*i)); return r; }
static double* putq(const Quaternion& q, double* o) { *o++ = q.x(); *o++ = q.y(); *o++ = q.z(); *o++ = q.w(); return o; }
static double* putp(const Pose& p, double* o) { for (int i = 0; i < 3; i++) *o++ = p.translation()(i); return putq(p.rotation(), o); }
template<class V> static double* putv(const V& v, double* o) { for (std::size_t i = 0; i < v.size(); i++) *o++ = v(i); return o; }
template<class T> static std::vector< Matrix<T,4,4> > mats(const double* p, int n) { std::vector< Matrix<T,4,4> > r; for (int k = 0; k < n; k++) { Matrix<T,4,4> m; for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) m(i,j) = (T)p[12*k+4*i+j]; m(3,0) = m(3,1) = m(3,2) = 0; m(3,3) = 1; r.push_back(m); } return r; }
template<int N> static std::vector< Vector<double,N> > vecs(const double* p, int n) { std::vector< Vector<double,N> > r; for (int k = 0; k < n; k++) { Vector<double,N> v; for (int i = 0; i < N; i++) v(i) = p[N*k+i]; r.push_back(v); } return r; }
static void tsai(const double* in, double* out, int n, bool all) { putp(A::performHandEyeCalibration(poses(in, n), poses(in + 7*n, n), all), out); }
template<class T> static void tsaim(const double* in, double* out, int n, bool all) { putp(A::performHandEyeCalibration(mats<T>(in, n), mats<T>(in + 12*n, n), all), out); }
VC(he_tsai_all) { tsai(in, out, 3, true); }
VC(he_tsai_next) { tsai(in, out, 3, false); }
VC(he_tsai_mall) { tsaim<double>(in, out, 3, true); }
VC(he_tsai_mnext) { tsaim<double>(in, out, 3, false); }
VC(he_tsai_default) { putp(A::performHandEyeCalibration(poses(in, 3), poses(in + 21, 3)), out); putp(A::performHandEyeCalibration(mats<double>(in + 42, 3), mats<double>(in + 78, 3)), out + 7); }
VC(he_tsai_size) { A::performHandEyeCalibration(poses(in, iin[0]), poses(in, iin[1])); }
VC(he_tsai_msize) { A::performHandEyeCalibration(mats<double>(in, iin[0]), mats<double>(in, iin[1])); }
VC(he_tsai_few) { putp(A::performHandEyeCalibration(poses(in, 2), poses(in + 14, 2)), out); putp(A::performHandEyeCalibration(mats<double>(in, 2), mats<double>(in + 4, 2)), out + 7); }
VC(he_tsai_6) { tsai(in, out, 6, iin[0] != 0); }
VC(he_tsai_m6) { tsaim<double>(in, out, 6, iin[0] != 0); }
VC(he_tsai_f6) { tsaim<float>(in, out, 6, iin[0] != 0); }
VC(he_dual_2) { Pose p; iout[0] = A::estimatePose6D_6D6D(vecs<8>(in, 2), p, vecs<8>(in + 16, 2)); putp(p, out); }
VC(he_dual_3) { Pose p; iout[0] = A::estimatePose6D_6D6D(poses(in, 3), p, poses(in + 21, 3)); putp(p, out); }
VC(he_dual_5) { Pose p; iout[0] = A::estimatePose6D_6D6D(poses(in, 5), p, poses(in + 35, 5)); putp(p, out); }
VC(he_rel) { std::vector< Vector<double,8> > r; A::generate_relative_6DPoses(poses(in, 3), r, iin[0] != 0); iout[0] = r.size(); for (int i = 0; i < 3; i++) out = putv(r[i], out); }
VC(he_rel_fwd) { std::vector< Vector<double,8> > r; A::generate_relative_6DPoses(poses(in, 3), r, true); iout[0] = r.size(); for (int i = 0; i < 3; i++) out = putv(r[i], out); }
VC(he_rel_bwd) { std::vector< Vector<double,8> > r; A::generate_relative_6DPoses(poses(in, 3), r, false); iout[0] = r.size(); for (int i = 0; i < 3; i++) out = putv(r[i], out); }
VC(he_rel_more) { std::vector< Vector<double,8> > r; A::generate_relative_6DPoses(poses(in, 3), r, true); A::generate_relative_6DPoses(poses(in, 4), r, false); iout[0] = r.size(); for (int i = 0; i < 9; i++) out = putv(r[i], out); }
VC(he_cast_8) { putv(pose_cast< Vector<double,8> >()(pose7(in)), out); }
VC(he_cast_8p) { putp(pose_cast< Pose >()(vecs<8>(in, 1)[0]), out); }
VC(he_cast_round) { putp(pose_cast< Pose >()(pose_cast< Vector<double,8> >()(pose7(in))), out); }
VC(he_cast_6) { putv(pose_cast< Vector<double,6> >()(pose7(in)), out); }
VC(he_cast_6p) { putp(pose_cast< Pose >()(vecs<6>(in, 1)[0]), out); }
VC(he_cast_86) { putv(pose_cast< Vector<double,6> >()(vecs<8>(in, 1)[0]), out); }
VC(he_cast_7) { putv(pose_cast< Vector<double,7> >()(pose7(in)), out); }
VC(he_hemi) { putv(hemisphere_alignment< Vector<double,6>, true >()(vecs<6>(in, 1)[0]), out); }
VC(he_dist) { out[0] = RotationDistance< Vector<double,6> >()(vecs<6>(in, 1)[0], vecs<6>(in + 6, 1)[0]); }
VC(he_relp) { putv(relative_pose< Vector<double,8>, true >()(pose7(in), pose7(in + 7)), out); putv(relative_pose< Vector<double,8>, false >()(pose7(in), pose7(in + 7)), out + 8); }
VC(he_pick) { A::DataSelection<double> d; std::vector< Vector<double,8> > r = vecs<8>(in, 12), a; std::size_t m = iin[0]; for (std::size_t b = 6; b <= 12; b += 6) { a.assign(r.begin(), r.begin() + b); d.resetComparisonPoses(m, a); }
  std::vector< Vector<double,8> > s; d.getSelection(r, std::back_inserter(s)); iout[0] = d.comparisonPoseList.size(); iout[1] = d.clusterPoseList.size(); iout[2] = d.indexList.size(); iout[3] = s.size();
  for (int i = 0; i < 12; i++) putv(d.comparisonPoseList[i], out + 6*i);
  for (std::size_t i = 0; i < m; i++) { putv(d.clusterPoseList[i], out + 72 + 6*i); iout[4+i] = d.indexList[i]; putv(s[i], out + 96 + 8*i); } }
VC(he_select) { std::vector<Pose> e, h; A::select_6DPoses(poses(in, 6), poses(in + 42, 6), iin[0], e, h); iout[0] = e.size(); iout[1] = h.size(); for (std::size_t i = 0; i < e.size() && i < 5; i++) { putp(e[i], out + 14*i); putp(h[i], out + 14*i + 7); } }
VC(he_hec) { A::HandEyeCalibration<double> h; Pose p; int ok = 0, n = iin[0]; std::vector<Pose> e = poses(in, n), g = poses(in + 7*n, n), a, b;
  if (iin[1]) { a.assign(e.begin(), e.begin() + n/2 + 1); b.assign(g.begin(), g.begin() + n/2 + 1); h.estimatePose6D(a, p, b); p = Pose(); }
  for (int k = 0; k < 60 && !ok; k++) ok = h.estimatePose6D(e, p, g);
  iout[0] = ok; iout[1] = h.relativePosesAllA.size(); iout[2] = h.relativePosesAllB.size(); iout[3] = h.relativePosesBestMatchA.size(); iout[4] = h.relativePosesBestMatchB.size(); putp(p, out);
  double w = 0; for (std::size_t i = 0; i < h.relativePosesAllA.size() && i < h.relativePosesAllB.size(); i++) { Pose x = p * pose_cast<Pose>()(h.relativePosesAllA[i]), y = pose_cast<Pose>()(h.relativePosesAllB[i]) * p; for (int k = 0; k < 3; k++) w = std::max(w, std::fabs(x.translation()(k) - y.translation()(k))); } out[7] = w; }
VC(he_hec_few) { A::HandEyeCalibration<double> h; Pose p; iout[0] = h.estimatePose6D(poses(in, iin[0]), p, poses(in + 42, iin[1])); }
struct HecState : Algorithm::OnlineRotHec { HecState(const double* in) { for (int i = 0; i < 3; i++) { m_state.value(i) = in[i]; for (int j = 0; j < 3; j++) m_state.covariance(i,j) = in[3+3*i+j]; } } HecState() {} double* put(double* o) { o = putv(m_state.value, o); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) *o++ = m_state.covariance(i,j); return o; } };
VC(he_on_init) { HecState s; putq(s.computeResult(), s.put(out)); }
VC(he_on_result) { HecState s(in); putq(s.computeResult(), out); }
VC(he_on_add) { HecState s(in); s.addMeasurement(quat(in + 12), quat(in + 16)); s.put(out); }
VC(he_on_hist) { Algorithm::OnlineRotHec h; for (int i = 0; i < 8; i++) { h.addMeasurement(quat(in + 8*i), quat(in + 8*i + 4)); out = putq(h.computeResult(), out); } }
struct KfState : Algorithm::RotationHecKalmanFilter { KfState(const double* in) { for (int i = 0; i < 4; i++) { m_state.value(i) = in[i]; for (int j = 0; j < 4; j++) m_state.covariance(i,j) = in[4+4*i+j]; } } KfState() {} double* put(double* o) { o = putq(getResult(), o); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) *o++ = getCovariance()(i,j); return o; } };
VC(he_kf_init) { KfState s; s.put(out); }
VC(he_kf_add) { KfState s(in); s.addMeasurement(quat(in + 20), quat(in + 24)); s.put(out); }
VC(he_kf_hist) { KfState h; for (int i = 0; i < 8; i++) { h.addMeasurement(quat(in + 8*i), quat(in + 8*i + 4)); out = h.put(out); } }
VC(he_kf_meas) { Algorithm::Function::RotHecMeasurement m(quat(in), quat(in + 4)); Vector<double,4> x, z; Matrix<double,4,4> j; for (int i = 0; i < 4; i++) x(i) = in[8+i]; m.evaluateWithJacobian(z, x, j); out = putv(z, out); for (int i = 0; i < 4; i++) for (int k = 0; k < 4; k++) *out++ = j(i,k); iout[0] = m.size(); }
VC(he_kf_comb) { Algorithm::Function::RotHecCombine m(quat(in)); Vector<double,4> x, y; Matrix<double,4,4> j, k; m.jacobian(x, y, j, k); for (int i = 0; i < 4; i++) for (int l = 0; l < 4; l++) { out[4*i+l] = j(i,l); out[16+4*i+l] = k(i,l); } iout[0] = m.size(); }
