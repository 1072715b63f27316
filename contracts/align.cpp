#include "vc.h"
#include <vector>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Pose.h>
#include <utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.h>
#include <utAlgorithm/PoseEstimation3D3D/ErrorEstimation.h>
#include <utAlgorithm/PoseEstimation3D3D/CovarianceEstimation.h>
#include <utAlgorithm/PoseEstimation3D3D/Ransac.h>
#include <utAlgorithm/PoseEstimation3D3D/Optimization.h>
#include <utAlgorithm/ToolTip/TipCalibration.h>
#include <utAlgorithm/ToolTip/LeastSquare.h>
#include <utAlgorithm/ToolTip/ErrorEstimation.h>
#include <utAlgorithm/ToolTip/Ransac.h>
#include <utAlgorithm/ToolTip/Optimization.h>
#include SRC(utUtil/Exception.cpp)
#include SRC(utMath/Quaternion.cpp)
#include SRC(utMath/Pose.cpp)
#include SRC(utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp)
#include SRC(utAlgorithm/ToolTip/TipCalibration.cpp)
using namespace Ubitrack;
using namespace Ubitrack::Math;
namespace PE = Ubitrack::Algorithm::PoseEstimation3D3D;
namespace TT = Ubitrack::Algorithm::ToolTip;
template<class T> static std::vector< Vector<T,3> > pts(const double* p, int n) { std::vector< Vector<T,3> > r; for (int i = 0; i < n; i++) r.push_back(Vector<T,3>((T)p[3*i], (T)p[3*i+1], (T)p[3*i+2])); return r; }
static Pose pose7(const double* p) { return Pose(Quaternion(p[3], p[4], p[5], p[6]), Vector<double,3>(p[0], p[1], p[2])); }
static std::vector<Pose> poses(const double* p, int n) { std::vector<Pose> r; for (int i = 0; i < n; i++) r.push_back(pose7(p + 7*i)); return r; }
static void put(const Pose& p, double* o) { for (int i = 0; i < 3; i++) o[i] = p.translation()(i); o[3] = p.rotation().x(); o[4] = p.rotation().y(); o[5] = p.rotation().z(); o[6] = p.rotation().w(); }
static void put3(const Matrix<double,3,3>& m, double* o) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) *o++ = m(i,j); }
// in: points a, then points b; a = pose * b
VC(al_pose3) { Pose p; iout[0] = PE::estimatePose6D_3D3D(pts<double>(in, 3), p, pts<double>(in + 9, 3)); put(p, out); }
VC(al_pose4) { Pose p; iout[0] = PE::estimatePose6D_3D3D(pts<double>(in, 4), p, pts<double>(in + 12, 4)); put(p, out); }
VC(al_posef) { Pose p; iout[0] = PE::estimatePose6D_3D3D(pts<float>(in, 4), p, pts<float>(in + 12, 4)); put(p, out); }
VC(al_abs) { put(PE::calculateAbsoluteOrientation(pts<double>(in + 9, 3), pts<double>(in, 3)), out); }
VC(al_rotq) { Quaternion q; iout[0] = PE::estimateRotation_3D3D(pts<double>(in, 3), q, pts<double>(in + 9, 3)); out[0] = q.x(); out[1] = q.y(); out[2] = q.z(); out[3] = q.w(); }
VC(al_rotm) { Matrix<double,3,3> m; iout[0] = PE::estimateRotation_3D3D(pts<double>(in, 3), m, pts<double>(in + 9, 3)); put3(m, out); }
VC(al_scale) { out[0] = PE::estimateScale_3D3D(pts<double>(in, 3), pts<double>(in + 9, 3)); }
VC(al_scalef) { out[0] = PE::estimateScale_3D3D(pts<float>(in, 3), pts<float>(in + 9, 3)); }
VC(al_functors) { Pose p; PE::EstimateAbsoluteOrientation<double>()(p, pts<double>(in + 9, 3), pts<double>(in, 3)); put(p, out); }
VC(al_evaluate) { std::vector< Vector<double,3> > a = pts<double>(in + 7, 2); Pose p = pose7(in); out[0] = PE::EvaluateAbsoluteOrientation<double>()(p, a[1], a[0]);
	out[1] = PE::Ransac<double>::Evaluator()(p, a[0], a[1]); out[2] = PE::ErrorFunction<double>(p)(a[0], a[1]); }
VC(al_residual) { std::vector< Vector<double,3> > a = pts<double>(in + 7, 2), b = pts<double>(in + 13, 2); out[0] = PE::estimatePose6DResidual<double>(a.begin(), a.end(), pose7(in), b.begin(), b.end()); }
VC(al_cov) { std::vector< Vector<double,3> > a = pts<double>(in + 7, 4), b = pts<double>(in + 19, 4); Matrix<double,6,6> c; Pose p = pose7(in);
	iout[0] = PE::estimatePose6DCovariance(a.begin(), a.end(), p, b.begin(), b.end(), c); for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) out[6*i + j] = c(i,j); }
VC(al_ransac) { Pose p; iout[0] = PE::estimatePose6D_3D3D(pts<double>(in, 12), p, pts<double>(in + 36, 12), Optimization::RansacParameter<double>(0.01, 3, (std::size_t)8, (std::size_t)200)); put(p, out); }
VC(al_opt) { Pose p = pose7(in + 36); iout[0] = PE::estimatePose6D_3D3D(pts<double>(in, 6), p, pts<double>(in + 18, 6), Optimization::OptTerminate(100, 1e-14)); put(p, out); }
// tool tip: n poses
template<class T> static void tip(const double* in, int n, double* out, long long* iout) { Vector<T,3> pw, pm; iout[0] = TT::estimatePosition3D_6D(pw, poses(in, n), pm); for (int i = 0; i < 3; i++) { out[i] = pw(i); out[3 + i] = pm(i); } }
VC(tip_lsq3) { tip<double>(in, 3, out, iout); }
VC(tip_lsq4) { tip<double>(in, 4, out, iout); }
VC(tip_lsqf) { tip<float>(in, 4, out, iout); }
VC(tip_calib) { Vector<double,3> pw, pm; TT::tipCalibration(poses(in, 3), pm, pw); for (int i = 0; i < 3; i++) { out[i] = pw(i); out[3 + i] = pm(i); } }
VC(tip_error) { std::pair<double,double> e = TT::estimatePosition3DError_6D(Vector<double,3>(in[0], in[1], in[2]), poses(in + 6, 3), Vector<double,3>(in[3], in[4], in[5])); out[0] = e.first; out[1] = e.second; }
VC(tip_evaluate) { Vector<double,6> t; for (int i = 0; i < 6; i++) t(i) = in[i]; out[0] = TT::Ransac<double>::Evaluator()(t, pose7(in + 6));
	out[1] = TT::ErrorFunction<double>(Vector<double,3>(in[0], in[1], in[2]), Vector<double,3>(in[3], in[4], in[5]))(pose7(in + 6));
	out[2] = TT::ErrorFunction<double>(Vector<double,3>(in[0], in[1], in[2]), Vector<double,3>(in[3], in[4], in[5]))(in[13], pose7(in + 6)); }
VC(tip_ransac) { Vector<double,3> pw, pm; iout[0] = TT::estimatePosition3D_6D(pw, poses(in, 12), pm, Optimization::RansacParameter<double>(0.01, 3, (std::size_t)8, (std::size_t)200)); for (int i = 0; i < 3; i++) { out[i] = pw(i); out[3 + i] = pm(i); } }
VC(tip_opt) { Vector<double,3> pw(in[70], in[71], in[72]), pm(in[73], in[74], in[75]); iout[0] = TT::estimatePosition3D_6D(pw, poses(in, 10), pm, Optimization::OptTerminate(50, 1e-12)); for (int i = 0; i < 3; i++) { out[i] = pw(i); out[3 + i] = pm(i); } }

VC(al_ransacf) { Pose p; iout[0] = PE::estimatePose6D_3D3D(pts<float>(in, 12), p, pts<float>(in + 36, 12), Optimization::RansacParameter<float>(0.02f, 3, (std::size_t)8, (std::size_t)200)); put(p, out); }
VC(al_optf) { Pose p = pose7(in + 36); iout[0] = PE::estimatePose6D_3D3D(pts<float>(in, 6), p, pts<float>(in + 18, 6), Optimization::OptTerminate(100, 1e-7)); put(p, out); }
VC(al_rotqf) { Quaternion q; iout[0] = PE::estimateRotation_3D3D(pts<float>(in, 4), q, pts<float>(in + 12, 4)); out[0] = q.x(); out[1] = q.y(); out[2] = q.z(); out[3] = q.w(); }
VC(al_rotmf) { Matrix<float,3,3> m; iout[0] = PE::estimateRotation_3D3D(pts<float>(in, 4), m, pts<float>(in + 12, 4)); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) out[3*i + j] = m(i, j); }
VC(tip_errorf) { std::pair<float,float> e = TT::estimatePosition3DError_6D(Vector<float,3>((float)in[0], (float)in[1], (float)in[2]), poses(in + 6, 3), Vector<float,3>((float)in[3], (float)in[4], (float)in[5])); out[0] = e.first; out[1] = e.second; }
VC(tip_ransacf) { Vector<float,3> pw, pm; iout[0] = TT::estimatePosition3D_6D(pw, poses(in, 12), pm, Optimization::RansacParameter<float>(0.02f, 3, (std::size_t)8, (std::size_t)200)); for (int i = 0; i < 3; i++) { out[i] = pw(i); out[3 + i] = pm(i); } }
VC(tip_optf) { Vector<float,3> pw((float)in[70], (float)in[71], (float)in[72]), pm((float)in[73], (float)in[74], (float)in[75]); iout[0] = TT::estimatePosition3D_6D(pw, poses(in, 10), pm, Optimization::OptTerminate(50, 1e-8)); for (int i = 0; i < 3; i++) { out[i] = pw(i); out[3 + i] = pm(i); } }
