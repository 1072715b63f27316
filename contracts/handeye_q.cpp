#include "vc.h"
#include <vector>
#include <utAlgorithm/PoseEstimation6D6D/TsaiLenz.h>
#define logger logger_exc
#include SRC(utUtil/Exception.cpp)
#undef logger
#include SRC(utMath/Quaternion.cpp)
#include SRC(utMath/Pose.cpp)
#include SRC(utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp)
VC(he_quat) { Ubitrack::Math::Matrix<double,3,3> m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m(i,j) = in[3*i+j]; Ubitrack::Math::Vector<double,3> v = Ubitrack::Algorithm::PoseEstimation6D6D::getQuaternion(m); for (int i = 0; i < 3; i++) out[i] = v(i); }
