#include "vc.h"
#include <vector>
#include <utMath/Pose.h>
#include <utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.h>
#include SRC(utUtil/Exception.cpp)
#include SRC(utMath/Quaternion.cpp)
#include SRC(utMath/Pose.cpp)
#include SRC(utMath/ErrorPose.cpp)
#include SRC(utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.cpp)
#include SRC(utAlgorithm/PoseEstimation2D3D/NonPlanarPoseEstimation.cpp)
using namespace Ubitrack;
using namespace Ubitrack::Math;
namespace A = Ubitrack::Algorithm::PoseEstimation2D3D;
template<class T, int N> static std::vector< Vector<T,N> > pts(const double* p, int n) { std::vector< Vector<T,N> > r; for (int i = 0; i < n; i++) { Vector<T,N> v; for (int j = 0; j < N; j++) v(j) = (T)p[N*i+j]; r.push_back(v); } return r; }
static double* putp(const Pose& p, double* o) { for (int i = 0; i < 3; i++) o[i] = p.translation()(i); o[3] = p.rotation().x(); o[4] = p.rotation().y(); o[5] = p.rotation().z(); o[6] = p.rotation().w(); return o + 7; }
VC(pp_lhm) { std::size_t it = (std::size_t)iin[0]; double e = in[40]; Pose p(Quaternion(0, 0, 0, 1), Vector<double,3>(7, 8, 9)); iout[0] = A::estimatePose6D_2D3D(pts<double,2>(in, 8), p, pts<double,3>(in + 16, 8), it, e); iout[1] = it; putp(p, out); out[7] = e; }
VC(pp_lhmf) { std::size_t it = (std::size_t)iin[0]; float e = (float)in[40]; Pose p(Quaternion(0, 0, 0, 1), Vector<double,3>(7, 8, 9)); iout[0] = A::estimatePose6D_2D3D(pts<float,2>(in, 8), p, pts<float,3>(in + 16, 8), it, e); iout[1] = it; putp(p, out); out[7] = e; }
