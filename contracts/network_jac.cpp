#include "vc.h"
#include <vector>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Pose.h>
#include SRC(utUtil/Exception.cpp)
#include SRC(utMath/Quaternion.cpp)
#include SRC(utMath/Pose.cpp)
#define logger logger_ba
#include SRC(utAlgorithm/BundleAdjustment.cpp)
#undef logger
using namespace Ubitrack;
using namespace Ubitrack::Math;
// two cameras (qx qy qz qw tx ty tz) and two points
VC(net_ba_jac) { Vector<double> x(20), y(8); Matrix<double> j(8, 20); for (int i = 0; i < 20; i++) x(i) = in[i];
	Algorithm::MinimizeReprojectionErrorAllPoints<double> f(2, 2); f.evaluateWithJacobian(y, x, j);
	for (int i = 0; i < 8; i++) { out[i] = y(i); for (int k = 0; k < 20; k++) out[8 + 20*i + k] = j(i,k); } }
