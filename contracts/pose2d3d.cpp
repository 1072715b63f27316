#include "vc.h"
#include <vector>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Pose.h>
#include <utMath/ErrorPose.h>
#include <utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.h>
#include <utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.h>
#include SRC(utUtil/Exception.cpp)
#include SRC(utMath/Quaternion.cpp)
#include SRC(utMath/Pose.cpp)
#include SRC(utMath/ErrorPose.cpp)
#include SRC(utAlgorithm/Homography.cpp)
#include SRC(utAlgorithm/Projection.cpp)
#include SRC(utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp)
using namespace Ubitrack;
using namespace Ubitrack::Math;
namespace A = Ubitrack::Algorithm::PoseEstimation2D3D;
template<class T, int N> static std::vector< Vector<T,N> > pts(const double* p, int n) { std::vector< Vector<T,N> > r; for (int i = 0; i < n; i++) { Vector<T,N> v; for (int j = 0; j < N; j++) v(j) = (T)p[N*i+j]; r.push_back(v); } return r; }
template<class T, int R, int C> static Matrix<T,R,C> mat(const double* p) { Matrix<T,R,C> m; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i,j) = (T)p[C*i+j]; return m; }
template<class X> static double* put(double* o, const X& m) { for (std::size_t i = 0; i < m.size1(); i++) for (std::size_t j = 0; j < m.size2(); j++) *o++ = m(i,j); return o; }
static Pose pose7(const double* p) { return Pose(Quaternion(p[3], p[4], p[5], p[6]), Vector<double,3>(p[0], p[1], p[2])); }
static double* putp(const Pose& p, double* o) { for (int i = 0; i < 3; i++) o[i] = p.translation()(i); o[3] = p.rotation().x(); o[4] = p.rotation().y(); o[5] = p.rotation().z(); o[6] = p.rotation().w(); return o + 7; }
VC(pp_hom) { putp(A::poseFromHomography(mat<double,3,3>(in), mat<double,3,3>(in + 9)), out); }
VC(pp_homf) { putp(A::poseFromHomography(mat<float,3,3>(in), mat<float,3,3>(in + 9)), out); }
static void compute(const double* in, double* out, int n, int m, bool opt, A::InitializationMethod im) { double res = -1; ErrorPose e = A::computePose(pts<double,2>(in, n), pts<double,3>(in + 2*n, m), mat<double,3,3>(in + 2*n + 3*m), res, opt, im); double* o = putp(e, out); *o++ = res; put(o, e.covariance()); }
VC(pp_pose3) { compute(in, out, 3, 3, false, A::PLANAR_HOMOGRAPHY); }
VC(pp_pose4) { compute(in, out, 4, 4, false, A::PLANAR_HOMOGRAPHY); }
VC(pp_pose5) { compute(in, out, 5, 5, false, A::PLANAR_HOMOGRAPHY); }
VC(pp_pose6) { compute(in, out, 6, 6, false, A::PLANAR_HOMOGRAPHY); }
VC(pp_pose6n) { compute(in, out, 6, 6, false, A::NONPLANAR_PROJECTION); }
VC(pp_pose4o) { compute(in, out, 4, 4, true, A::PLANAR_HOMOGRAPHY); }
VC(pp_pose6o) { compute(in, out, 6, 6, true, A::PLANAR_HOMOGRAPHY); }
VC(pp_pose6no) { compute(in, out, 6, 6, true, A::NONPLANAR_PROJECTION); }
VC(pp_pose8) { compute(in, out, 8, 8, false, A::PLANAR_HOMOGRAPHY); }
VC(pp_pose8no) { compute(in, out, 8, 8, true, A::NONPLANAR_PROJECTION); }
VC(pp_short) { ErrorPose e = A::computePose(pts<double,2>(in, 6), pts<double,3>(in + 12, 6), mat<double,3,3>(in + 30), iin[0] != 0, iin[1] ? A::NONPLANAR_PROJECTION : A::PLANAR_HOMOGRAPHY); put(putp(e, out), e.covariance()); }
VC(pp_opt) { Pose p = pose7(in); out[7] = A::optimizePose(p, pts<double,2>(in + 7, 6), pts<double,3>(in + 19, 6), mat<double,3,3>(in + 37), (std::size_t)iin[0]); putp(p, out); }
VC(pp_optf) { Pose p = pose7(in); out[7] = A::optimizePose(p, pts<float,2>(in + 7, 6), pts<float,3>(in + 19, 6), mat<float,3,3>(in + 37), (std::size_t)iin[0]); putp(p, out); }
VC(pp_err) { put(out, A::singleCameraPoseError(pose7(in), pts<double,3>(in + 7, 5), mat<double,3,3>(in + 22), in[31])); }
VC(pp_errf) { put(out, A::singleCameraPoseError(pose7(in), pts<float,3>(in + 7, 5), mat<float,3,3>(in + 22), (float)in[31])); }
static void merr(const double* in, const long long* iin, double* out) { std::vector< Matrix<double,3,4> > P; P.push_back(mat<double,3,4>(in + 22)); P.push_back(mat<double,3,4>(in + 34)); std::vector< std::pair<std::size_t,std::size_t> > ob; for (int i = 0; i < 8; i++) ob.push_back(std::make_pair((std::size_t)iin[2*i], (std::size_t)iin[2*i+1])); put(out, A::multipleCameraPoseError(pose7(in), pts<double,3>(in + 7, 5), P, ob, in[46])); }
VC(pp_merr) { merr(in, (const long long*)iin, out); }

VC(pp_merrf) { std::vector< Matrix<float,3,4> > P; P.push_back(mat<float,3,4>(in + 22)); P.push_back(mat<float,3,4>(in + 34)); std::vector< std::pair<std::size_t,std::size_t> > ob; for (int i = 0; i < 8; i++) ob.push_back(std::make_pair((std::size_t)iin[2*i], (std::size_t)iin[2*i+1])); put(out, A::multipleCameraPoseError(pose7(in), pts<float,3>(in + 7, 5), P, ob, (float)in[46])); }
