"""planted bugs (source of /verif/seeded); written from property text and code alone"""
SEEDS = []


def S(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


HEAD = '#include <cmath>\n#include <cstdio>\n#include <vector>\n#include <utMath/Vector.h>\n#include <utMath/Matrix.h>\n#include <utMath/Quaternion.h>\n#include <utMath/Pose.h>\nusing namespace Ubitrack; using namespace Ubitrack::Math;\n'

S('rot-slerp-flip', 'P06', [('src/utMath/Quaternion.cpp', 'if (diffNorm > 2.0)', 'if (diffNorm > 3.0)')],
  'two rotations whose quaternions are between 90 and 120 degrees apart in 4-space',
  'slerp takes the long way round', HEAD + '''
int main() {
  Quaternion a(0,0,0,1), b(sin(1.8), 0, 0, cos(1.8));
  Quaternion m = slerp(a, b, 0.5);
  // short way: rotation angle from a to m is at most 90 degrees
  return fabs(m.w()) >= sqrt(0.5) - 1e-9 ? 0 : 1;
}
''')
S('conv-matrix-y', 'P02', [('src/utMath/Quaternion.cpp', 'Y = ( mat(1,2) + mat(2,1) ) / S;\n\t\tZ = 0.25 * S;', 'Y = ( mat(0,1) + mat(2,1) ) / S;\n\t\tZ = 0.25 * S;')],
  'a half turn about an axis dominated by z but with y component',
  'matrix to quaternion yields another rotation in the third branch', HEAD + '''
int main() {
  Quaternion q(0.1, 0.4, 0.85, 0.0); q.normalize();
  Matrix<double,3,3> m; q.toMatrix(m);
  Quaternion r(m);
  double d = fabs(r.x()*q.x() + r.y()*q.y() + r.z()*q.z() + r.w()*q.w());
  return d > 1 - 1e-9 ? 0 : 1;
}
''')
S('conv-log-sign', 'P02', [('src/utMath/Quaternion.cpp', 's = s * omega / imagLen;', 's = omega / imagLen;')],
  'a quaternion with negative scalar part', 'toLogarithm returns the opposite rotation for negative scalar parts', HEAD + '''
int main() {
  Quaternion q(0.3, -0.4, 0.5, -0.6); q.normalize();
  Quaternion r = Quaternion::fromLogarithm(q.toLogarithm());
  double d = fabs(r.x()*q.x() + r.y()*q.y() + r.z()*q.z() + r.w()*q.w());
  return d > 1 - 1e-9 ? 0 : 1;
}
''')
S('err-invert-cross', 'P04', [('src/utMath/ErrorPose.cpp', 'j( 1, 5 ) = t5378 * ( 2. - 4. * t5388 - 4. * t5394 ) + 4. * t5425;', 'j( 1, 5 ) = t5378 * ( 2. - 4. * t5365 - 4. * t5394 ) + 4. * t5425;')],
  'a pose with a translation in x and a rotation whose x and y parts differ, and an orientation error about z',
  'the covariance of an inverted pose is not J C J^T for the true derivative', HEAD + '''#include <utMath/ErrorPose.h>
static Pose disturbed(const Pose& p, const double* e) {
  Quaternion er(e[3], e[4], e[5], sqrt(1 - e[3]*e[3] - e[4]*e[4] - e[5]*e[5]));
  Vector<double,3> t(p.translation()(0)+e[0], p.translation()(1)+e[1], p.translation()(2)+e[2]);
  return Pose(p.rotation() * er, t);
}
int main() {
  Quaternion q(0.1, 0.6, -0.3, 0.5); q.normalize();
  Pose p(q, Vector<double,3>(1.5, -0.7, 2.0)), i = ~p;
  double J[6][6];
  for (int k = 0; k < 6; k++) {
    double r[2][6];
    for (int s = 0; s < 2; s++) {
      double e[6] = {0,0,0,0,0,0}; e[k] = s ? -1e-6 : 1e-6;
      Pose d = ~disturbed(p, e);
      for (int j = 0; j < 3; j++) r[s][j] = d.translation()(j) - i.translation()(j);
      Quaternion dq = ~i.rotation() * d.rotation();
      double g = dq.w() < 0 ? -1 : 1;
      r[s][3] = g*dq.x(); r[s][4] = g*dq.y(); r[s][5] = g*dq.z();
    }
    for (int j = 0; j < 6; j++) J[j][k] = (r[0][j] - r[1][j]) / 2e-6;
  }
  Matrix<double,6,6> C;
  for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) C(a,b) = (a == b ? 1.0 + 0.3*a : 0.1);
  ErrorPose r = ~ErrorPose(p, C);
  double worst = 0;
  for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) {
    double v = 0;
    for (int k = 0; k < 6; k++) for (int l = 0; l < 6; l++) v += J[a][k] * C(k,l) * J[b][l];
    worst = std::max(worst, fabs(v - r.covariance()(a,b)));
  }
  return worst < 1e-5 ? 0 : 1;
}
''')
S('track-predict-past', 'P08', [('src/utTracking/PoseKalmanFilter.cpp', '	double dt = ( (long long int)( t - m_time ) ) * 1e-9;\n	LOG4CPP_DEBUG( logger, "predicting', '	double dt = ( t - m_time ) * 1e-9;\n	LOG4CPP_DEBUG( logger, "predicting')],
  'a prediction for a time before the last measurement', 'unsigned wrap-around of the time difference: the pose predicted for a past time is far away', HEAD + '''#include <utTracking/PoseKalmanFilter.h>
using namespace Ubitrack::Tracking;
int main() {
  LinearPoseMotionModel mm(1, 1);
  PoseKalmanFilter f(mm, false);
  Measurement::Timestamp t0 = 1400000000000000000ULL;
  for (int k = 0; k < 6; k++) {
    Matrix<double,6,6> c(Matrix<double,6,6>::identity() * 1e-4);
    f.addPoseMeasurement(Measurement::ErrorPose(t0 + k * 100000000ULL,
      ErrorPose(Quaternion(0,0,0,1), Vector<double,3>(0.1*k, 0, 0), c)));
  }
  Measurement::ErrorPose p = f.predictPose(t0 + 400000000ULL);
  return fabs(p->translation()(0) - 0.4) < 0.2 ? 0 : 1;
}
''')
S('kalman-part-range', 'P09', [('src/utMath/Stochastic/Kalman.h', 'MatrixType im( ublas::prod( jacobian, ublas::subrange( stateCov, iBegin, iEnd, iBegin, iEnd ) ) );', 'MatrixType im( ublas::prod( jacobian, ublas::subrange( stateCov, 0, inSize, 0, inSize ) ) );')],
  'a measurement function of a part of the state that does not begin at the first element', 'innovation covariance uses the wrong block of the state covariance', HEAD + '''#include <utMath/ErrorVector.h>
#include <utMath/Stochastic/Kalman.h>
struct F {
  template<class A, class B, class C> void evaluateWithJacobian(A& r, const B& x, C& j) const { r(0) = 2*x(0); j(0,0) = 2; }
};
int main() {
  ErrorVector<double,2> s; s.value(0) = 1; s.value(1) = 2;
  s.covariance(0,0) = 4; s.covariance(1,1) = 1; s.covariance(0,1) = s.covariance(1,0) = 0.5;
  ErrorVector<double,1> m; m.value(0) = 5; m.covariance(0,0) = 1;
  Stochastic::kalmanMeasurementUpdate(s, F(), m, 1, 2);
  // S = 2*1*2 + 1 = 5, K = (1/5, 2/5), innovation 1
  return fabs(s.value(0) - 1.2) < 1e-9 && fabs(s.value(1) - 2.4) < 1e-9 && fabs(s.covariance(1,1) - 0.2) < 1e-9 ? 0 : 1;
}
''')
S('stats-pose-align', 'P14', [('src/utMath/Stochastic/Average.h', '			tmp[ 4 ] *= (-1);\n			tmp[ 5 ] *= (-1);\n			tmp[ 6 ] *= (-1);', '			tmp[ 4 ] *= (-1);\n			tmp[ 6 ] *= (-1);')],
  'averaging poses with error where some quaternion has a negative scalar part and a z part', 'sign alignment forgets one component', HEAD + '''#include <utMath/ErrorPose.h>
#include <utMath/Stochastic/Average.h>
int main() {
  Stochastic::Average<ErrorPose> a;
  double c = cos(0.3), s = sin(0.3);
  a(Pose(Quaternion(0, 0, s, c), Vector<double,3>(1, 2, 3)));
  a(Pose(Quaternion(0, 0, -s, -c), Vector<double,3>(1, 2, 3)));
  ErrorPose r = a.getAverage();
  return fabs(r.rotation().z() - s) < 1e-9 && fabs(r.rotation().w() - c) < 1e-9 ? 0 : 1;
}
''')
S('opt-stale-weights', 'P15', [('src/utMath/Optimization/LevenbergMarquardt.h', 'weightFunction.computeWeights( *pMeasurementDiff2, weightVector );', 'weightFunction.computeWeights( *pMeasurementDiff, weightVector );')],
  'an optimisation with a weight function that depends on the residual', 'trial steps are weighted by the residuals of the previous parameters, so the returned residual is not that of the returned parameters', HEAD + '''#include <utMath/Optimization/LevenbergMarquardt.h>
struct P { template<class R, class X, class J> void evaluateWithJacobian(R& r, const X& x, J& j) const {
  for (int i = 0; i < 3; i++) { r(i) = x(0)*x(0) + i; j(i,0) = 2*x(0); } } };
struct W { bool noWeights() const { return false; }
  template<class X, class Y> void computeWeights(const X& e, Y& w) const { for (std::size_t i = 0; i < w.size(); i++) w(i) = 1 / (1 + e(i)*e(i)); } };
int main() {
  P p; Vector<double> x(1), m(3); m(0) = 4; m(1) = 5.5; m(2) = 6.2;
  for (int k = 0; k < 40; k++) for (int n = 1; n < 8; n++) {
    x(0) = 0.5 + 0.1*k;
    double r = Optimization::weightedLevenbergMarquardt(p, x, m, Optimization::OptTerminate(n, 0), Optimization::OptNoNormalize(), W());
    double s = 0;
    for (int i = 0; i < 3; i++) { double e = m(i) - x(0)*x(0) - i; s += e*e / (1 + e*e); }
    if (!(fabs(r - s) < 1e-9)) return 1;
  }
  return 0;
}
''')
S('ransac-last-inlier', 'P16', [('src/utMath/Optimization/Ransac.h', 'for ( std::size_t i = 0; i < nValues && int( nValues - i ) >= int( params.nMinInlier - nInlier ); i++, ++it1, ++it2 )', 'for ( std::size_t i = 0; i < nValues && int( nValues - i ) > int( params.nMinInlier - nInlier ); i++, ++it1, ++it2 )')],
  'a hypothesis for which every remaining value has to be an inlier to reach the required number', 'counting stops one value too early, a hypothesis with exactly the required inliers is lost', HEAD + '''#include <utMath/Optimization/Ransac.h>
struct Est { template<class I, class J> bool operator()(double& r, I a, I b, J c, J d) const {
  r = 0; int n = 0; for (; a != b; ++a, ++c, ++n) r += (*c)(0) - (*a)(0); r /= n; return true; } };
struct Ev { template<class V> double operator()(const double& r, const V& a, const V& b) const { return fabs(b(0) - a(0) - r); } };
struct M { typedef Est Estimator; typedef Ev Evaluator; };
int main() {
  std::vector<Vector<double,1> > a(4), b(4);
  for (int i = 0; i < 4; i++) { a[i](0) = i; b[i](0) = i + (i == 0 ? 50 : 2); }
  double r = -1;
  std::size_t n = Optimization::ransac(a.begin(), a.end(), b.begin(), b.end(), r, M(), Optimization::RansacParameter<double>(0.5, std::size_t(1), std::size_t(3), std::size_t(200)));
  return n == 3 && fabs(r - 2) < 1e-9 ? 0 : 1;
}
''')
S('sync-double-diff', 'P19', [('src/utMeasurement/TimestampSync.cpp', 'double deltaL = double( static_cast< long long >( local - m_estLocal ) );', 'double deltaL = double( local ) - double( m_estLocal );')],
  'time stamps of today (beyond 2^53 ns) and deviations below a microsecond', 'the deviation is rounded to multiples of 256 ns', HEAD + '''#include <utMeasurement/TimestampSync.h>
using namespace Ubitrack::Measurement;
int main() {
  TimestampSync s(1e9);
  Timestamp l0 = 1400000000000000000ULL;
  s.convertNativeToLocal(0, l0);
  Timestamp r = s.convertNativeToLocal(0, l0 + 100); // gain of about 0.5
  long long d = (long long)(r - l0);
  return d >= 45 && d <= 55 ? 0 : 1;
}
''')
S('projection-roll', 'P21', [('src/utAlgorithm/Projection.cpp', 'if ( Math::determinant( r ) < 0 )\n		scale *= -1;', 'if ( Math::determinant( r ) < -1.5 )\n		scale *= -1;')],
  'a camera that looks along its z axis and is only rolled about it', 'the decomposition returns a left-handed rotation', HEAD + '''#include <utAlgorithm/Projection.h>
#include <utMath/MatrixOperations.h>
int main() {
  for (int k = 0; k < 12; k++) {
    Matrix<double,3,3> K(Matrix<double,3,3>::zeros()), R, k2, r2; Vector<double,3> t(0.1, -0.2, 3.0), t2;
    K(0,0) = 500; K(1,1) = 510; K(0,2) = -320; K(1,2) = -240; K(2,2) = -1;
    Quaternion q(0, 0, sin(0.5*k), cos(0.5*k)); q.toMatrix(R);
    Matrix<double,3,4> P;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) {
      P(i,j) = 0; for (int l = 0; l < 3; l++) P(i,j) += K(i,l) * (j < 3 ? R(l,j) : t(l));
    }
    Algorithm::decomposeProjection(k2, r2, t2, P);
    if (fabs(determinant(r2) - 1) > 1e-6) return 1;
  }
  return 0;
}
''')
S('pose-planar-prefix', 'P22', [('src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp', '				p3dAs2d.push_back( Math::Vector< double, 2 >( p3d[ i ]( 0 ), p3d[ i ]( 1 ) ) );\n			else\n				break;', '				p3dAs2d.push_back( Math::Vector< double, 2 >( p3d[ i ]( 0 ), p3d[ i ]( 1 ) ) );')],
  'points in a tilted plane, four of which (not the first four) share the z coordinate of the first', 'planar points are paired with the image points of others', HEAD + '''#include <utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.h>
int main() {
  using namespace Algorithm::PoseEstimation2D3D;
  std::vector<Vector<double,3> > p; std::vector<Vector<double,2> > u;
  for (int i = 0; i < 5; i++) for (int j = 0; j < 2; j++) {
    double x = 0.4*((i+1)/2)*(i%2 ? 1 : -1), y = 0.35*j;
    p.push_back(Vector<double,3>(x, y, y * 0.5));
  }
  std::swap(p[2], p[3]);
  Quaternion q(0.1, -0.2, 0.05, 1); q.normalize();
  Pose pose(q, Vector<double,3>(0.1, 0.05, -2));
  Matrix<double,3,3> K(Matrix<double,3,3>::zeros());
  K(0,0) = 500; K(1,1) = 500; K(0,2) = -320; K(1,2) = -240; K(2,2) = -1;
  for (std::size_t i = 0; i < p.size(); i++) {
    Vector<double,3> c = pose * p[i];
    double z = -c(2);
    u.push_back(Vector<double,2>((500*c(0) - 320*c(2)) / z, (500*c(1) - 240*c(2)) / z));
  }
  try {
    ErrorPose r = computePose(u, p, K, false, PLANAR_HOMOGRAPHY);
    double d = 0;
    for (int i = 0; i < 3; i++) d += fabs(r.translation()(i) - pose.translation()(i));
    return d < 1e-4 ? 0 : 1;
  } catch (...) { return 1; }
}
''')
S('multicam-bundle-points', 'P24', [('src/utAlgorithm/MultipleCameraPoseOptimization.cpp', 'p3dLocalFiltered.at(cameraIndex).push_back ( points3d.at(pointIndex) );', 'p3dLocalFiltered.at(cameraIndex).push_back ( points3d.at(pointIndex - startIndex) );')],
  'a second local bundle, whose points differ from those of the first', 'the start of later bundles is computed from the 3D points of the first', HEAD + '''#include <utMath/Scalar.h>
#include <utAlgorithm/MultipleCameraPoseOptimization.h>
int main() {
  std::vector<Vector<double,3> > p;
  double a[5][2] = {{-1,-1},{1,-1},{1,1},{-1,1},{0.3,0.2}};
  for (int b = 0; b < 2; b++) for (int i = 0; i < 5; i++)
    p.push_back(b ? Vector<double,3>(0.4*a[(i*3+2)%5][1] + 0.5, -0.3*a[(i*3+2)%5][0] + 0.2, 0) : Vector<double,3>(a[i][0], a[i][1], 0));
  Quaternion q[2] = {Quaternion(0.1, -0.2, 0.05, 1).normalize(), Quaternion(-0.3, 0.2, 0.9, 0.6).normalize()};
  Pose truth[2] = {Pose(q[0], Vector<double,3>(0.1, 0.05, -6)), Pose(q[1], Vector<double,3>(-0.2, 0.3, -7))};
  Matrix<double,3,3> K(Matrix<double,3,3>::zeros());
  K(0,0) = 500; K(1,1) = 500; K(0,2) = -320; K(1,2) = -240; K(2,2) = -1;
  std::vector<Pose> cam; cam.push_back(Pose(Quaternion(), Vector<double,3>(0,0,0))); cam.push_back(Pose(Quaternion(0, 0.1, 0, 1).normalize(), Vector<double,3>(0.3, 0, 0)));
  std::vector<Matrix<double,3,3> > Ks(2, K);
  std::vector<std::vector<Vector<double,2> > > u(2);
  std::vector<std::vector<Scalar<double> > > w(2);
  for (int c = 0; c < 2; c++) for (std::size_t i = 0; i < p.size(); i++) {
    Vector<double,3> x = cam[c] * (truth[i / 5] * p[i]);
    double z = -x(2);
    u[c].push_back(Vector<double,2>((500*x(0) - 320*x(2)) / z, (500*x(1) - 240*x(2)) / z));
    w[c].push_back(Scalar<double>(1.0));
  }
  std::vector<ErrorPose> poses; std::vector<Scalar<double> > pw; std::vector<Scalar<int> > sizes(2, Scalar<int>(5));
  try {
    Algorithm::multipleCameraPoseEstimationWithLocalBundles(p, u, w, cam, Ks, 0, poses, pw, sizes);
  } catch (...) { return 1; }
  for (int b = 0; b < 2; b++) {
    double d = 0;
    for (int i = 0; i < 3; i++) d += fabs(poses[b].translation()(i) - truth[b].translation()(i));
    if (!(d < 1e-4)) return 1;
  }
  return 0;
}
''')
S('conic-negated-eccentricity', 'P11', [('src/utMath/Geometry/Conic.h', 'std::sqrt( ( 2 * upper) / (upper-(ac) ) )', 'std::sqrt( ( 2 * upper) / (upper+(ac) ) )')],
  'an ellipse given by the negated conic vector', 'eccentricity depends on the sign of the conic vector', HEAD + '''#include <utMath/Geometry/Conic.h>
int main() {
  Vector<double,6> c, n; double v[6] = {1, 0.2, 2, -1, 0.5, -3};
  for (int i = 0; i < 6; i++) { c(i) = v[i]; n(i) = -v[i]; }
  Geometry::ConicEccentricity<double> e;
  double a = e(c), b = e(n);
  return fabs(a - b) < 1e-9 ? 0 : 1;
}
''')
S('lens-skew', 'P12', [('src/utAlgorithm/LensDistortion.cpp', '	Math::Optimization::levenbergMarquardt( distFunc, dp, camPoint, Math::Optimization::OptTerminate( 5, 1e-5 ), Math::Optimization::OptNoNormalize() );\n', '	camPoint( 0 ) = ( p( 0 ) - K( 0, 2 ) * K( 2, 2 ) ) / K( 0, 0 );\n	Math::Optimization::levenbergMarquardt( distFunc, dp, camPoint, Math::Optimization::OptTerminate( 5, 1e-5 ), Math::Optimization::OptNoNormalize() );\n')],
  'a camera matrix with skew', 'undistortion ignores the skew of the camera', HEAD + '''#include <utAlgorithm/LensDistortion.h>
int main() {
  Matrix<double,3,3> K(Matrix<double,3,3>::zeros());
  K(0,0) = 500; K(0,1) = 25; K(1,1) = 510; K(0,2) = -320; K(1,2) = -240; K(2,2) = -1;
  Vector<double,4> d(0.05, -0.02, 0.001, -0.002);
  Vector<double,2> p(450, 120);
  Vector<double,2> q = Algorithm::lensDistort(Algorithm::lensUnDistort(p, d, K), d, K);
  return fabs(q(0) - p(0)) + fabs(q(1) - p(1)) < 0.1 ? 0 : 1;
}
''')
S('matrix-small-pinv', 'P13', [('src/utMath/MatrixOperations.h', 'if( s( i ) != 0 )', 'if( s( i ) > 1e-6 )')],
  'a full rank matrix with small elements', 'the pseudo-inverse keeps small singular values instead of inverting them', HEAD + '''#include <utMath/MatrixOperations.h>
int main() {
  Matrix<double,3,2> m; m(0,0) = 2e-7; m(0,1) = 1e-7; m(1,0) = 0; m(1,1) = 3e-7; m(2,0) = 1e-7; m(2,1) = -1e-7;
  Matrix<double,2,3> p = pseudoInvert_matrix(m);
  double s = 0; for (int i = 0; i < 3; i++) s += p(0,i) * m(i,0);
  return fabs(s - 1) < 1e-6 ? 0 : 1;
}
''')
S('munkres-reuse', 'P17', [('src/utMath/Graph/Munkres.h', '	mask_matrix = boost::numeric::ublas::scalar_matrix< int >( m_matrix.size1(), m_matrix.size1(), Z_NORMAL );', '	if( mask_matrix.size1() != m_matrix.size1() )\n		mask_matrix = boost::numeric::ublas::scalar_matrix< int >( m_matrix.size1(), m_matrix.size1(), Z_NORMAL );')],
  'one solver used for a second problem of the same size', 'the second assignment starts from the marks of the first', HEAD + '''#include <list>
#include <utMath/Graph/Munkres.h>
int main() {
  Matrix<double> a(3, 3), b(3, 3);
  double A[9] = {1, 5, 9, 5, 1, 9, 9, 5, 1}, B[9] = {9, 5, 1, 1, 5, 9, 5, 1, 9};
  for (int i = 0; i < 9; i++) { a(i / 3, i % 3) = A[i]; b(i / 3, i % 3) = B[i]; }
  Graph::Munkres<double> m; m.setMatrix(a); m.solve(); m.setMatrix(b); m.solve();
  std::vector<std::size_t> r = m.getRowMatchList();
  double s = 0; bool used[3] = {0, 0, 0};
  for (int i = 0; i < 3; i++) { if (r[i] > 2 || used[r[i]]) return 1; used[r[i]] = 1; s += B[3 * i + r[i]]; }
  return s == 3 ? 0 : 1;
}
''')
S('align-small-points', 'P20', [('src/utAlgorithm/PoseEstimation3D3D/Rotation3D.h', 'if ( W[ 3 ] <= 0.0 )', 'if ( W[ 3 ] <= 1e-5 )')],
  'points less than about a millimetre apart (in metres)', 'the alignment of small point sets is refused', HEAD + '''#include <utAlgorithm/PoseEstimation3D3D/AbsoluteOrientation.h>
int main() {
  std::vector<Vector<double,3> > a, b;
  Pose t(Quaternion(0.1, -0.2, 0.3, 0.9).normalize(), Vector<double,3>(0.5, -1, 2));
  b.push_back(Vector<double,3>(0, 0, 0)); b.push_back(Vector<double,3>(5e-4, 0, 0)); b.push_back(Vector<double,3>(0, 7e-4, 0)); b.push_back(Vector<double,3>(0, 0, 6e-4));
  for (int i = 0; i < 4; i++) a.push_back(t * b[i]);
  Pose p;
  if (!Algorithm::PoseEstimation3D3D::estimatePose6D_3D3D(a, p, b)) return 1;
  double d = 0; for (int i = 0; i < 3; i++) d += fabs(p.translation()(i) - t.translation()(i));
  return d < 1e-6 ? 0 : 1;
}
''')
S('normalize-small-spread', 'P10', [('src/utMath/Geometry/PointNormalization.h', '	for ( std::size_t i = 0; i < N; i++ )\n		scale( i ) = std::sqrt( scale( i ) - ( shift( i ) * shift( i ) ) );', '	for ( std::size_t i = 0; i < N; i++ )\n	{\n		const T var = scale( i ) - ( shift( i ) * shift( i ) );\n		scale( i ) = std::sqrt( var > static_cast< T >( 1e-8 ) ? var : static_cast< T >( 1 ) );\n	}')],
  'points less than a tenth of a millimetre apart (in metres)', 'the scale of the normalisation is not the standard deviation', HEAD + '''#include <utMath/Geometry/PointNormalization.h>
int main() {
  std::vector<Vector<double,2> > p;
  p.push_back(Vector<double,2>(0, 0)); p.push_back(Vector<double,2>(4e-5, 0)); p.push_back(Vector<double,2>(0, 8e-5)); p.push_back(Vector<double,2>(4e-5, 8e-5));
  Vector<double,2> shift, scale;
  Geometry::estimateNormalizationParameters(p.begin(), p.end(), shift, scale);
  return fabs(scale(0) - 2e-5) < 1e-10 && fabs(scale(1) - 4e-5) < 1e-10 ? 0 : 1;
}
''')
S('radial-jacobian', 'P07', [('src/utAlgorithm/Function/RadialDistortion.h', 'm_d( 0 ) * ( 3 * t331 + t332 ) + t333 + m_d( 1 ) * t334;', 'm_d( 0 ) * ( 3 * t331 + t332 ) + m_d( 1 ) * t332 * ( t331 + t332 );')],
  'points off both axes with a second radial coefficient', 'the derivative of the distorted x by x lacks most of the mixed term of the second radial coefficient', HEAD + '''#include <utAlgorithm/Function/RadialDistortion.h>
int main() {
  Vector<double,4> d(0.1, 0.3, 0.01, -0.02);
  Vector<double,2> p(0.7, 0.8), q, r0, r1; Matrix<double,2,2> J;
  Algorithm::Function::RadialDistortionWrtP<double> f(d);
  double h = 1e-6;
  f.evaluateWithJacobian(r0, p, J);
  for (int k = 0; k < 2; k++) {
    Vector<double,2> a, b; q = p; q(k) += h; f.evaluate(a, q); q = p; q(k) -= h; f.evaluate(b, q);
    for (int i = 0; i < 2; i++) if (fabs((a(i) - b(i)) / (2 * h) - J(i, k)) > 1e-5) return 1;
  }
  return 0;
}
''')
S('msgpack-zone-time', 'P18', [('src/utSerialization/MsgpackSerializer.h', 'msgpack::object((unsigned long long) v.time(), o.zone);', 'msgpack::object((unsigned long) (double) v.time(), o.zone);')],
  'a measurement turned into a msgpack object in a zone, with a time stamp of today in nanoseconds', 'the time stamp is rounded to the precision of a double', HEAD + '''#include <utMeasurement/Measurement.h>
#include <utSerialization/Serialization.h>
#include <utSerialization/MsgpackSerializer.h>
int main() {
  Measurement::Position m(1605732123123456789ULL, Vector<double,3>(1, 2, 3));
  msgpack::zone z; msgpack::object o(m, z);
  Measurement::Position r; o.convert(r);
  return r.time() == m.time() ? 0 : 1;
}
''')
S('tsai-half-turn-z', 'P23', [('src/utAlgorithm/PoseEstimation6D6D/TsaiLenz.cpp', '    if (q[c] < q[3])\n        c = 3;', '    if (q[c] < q[3] && q[0] > 0)\n        c = 3;')],
  'two stations that differ by a half turn about z', 'the rotation vector of a half turn about z is not found', HEAD + '''#include <utAlgorithm/PoseEstimation6D6D/TsaiLenz.h>
int main() {
  Pose X(Quaternion(0, 0, 0, 1), Vector<double,3>(0.1, 0.2, -0.3)), W(Quaternion(0, 0, 0, 1), Vector<double,3>(0.5, 1, 2));
  Quaternion q[4] = {Quaternion(0, 0, 0, 1), Quaternion(0, 0, 1, 0), Quaternion(0.6, 0, 0, 0.8), Quaternion(0, 0.28, 0, 0.96)};
  std::vector<Pose> hand, eye;
  for (int i = 0; i < 4; i++) { Pose h(q[i], Vector<double,3>(0.3 * i, 0.1 * i * i, 0.5 - i)); hand.push_back(h); eye.push_back(~(h * X) * W); }
  Pose r = Algorithm::PoseEstimation6D6D::performHandEyeCalibration(hand, eye, true);
  double d = 0, e = 0; for (int i = 0; i < 3; i++) { d += fabs(r.translation()(i) - X.translation()(i)); }
  return d < 1e-6 ? 0 : 1;
}
''')
S('pose-small-rotation', 'P03', [('src/utMath/Pose.cpp', 'Pose Pose::operator*( const Pose& Q ) const\n{\n', 'Pose Pose::operator*( const Pose& Q ) const\n{\n\t// nearly no rotation: spare the rotation of the translation\n\tif ( m_rotation.w() * m_rotation.w() > 0.999999 )\n\t\treturn Pose( m_rotation * Q.rotation(), Q.translation() + m_translation );\n')],
  'a left pose that turns by less than a tenth of a degree', 'composing two poses no longer acts like applying them one after the other', HEAD + '''
int main() {
  Pose a(Quaternion(0.0006, 0, 0, sqrt(1 - 0.0006 * 0.0006)), Vector<double,3>(1, 2, 3)), b(Quaternion(0, 0, 0.6, 0.8), Vector<double,3>(4, 5, 6));
  Vector<double,3> p(1, -1, 2), x = (a * b) * p, y = a * (b * p);
  double d = 0; for (int i = 0; i < 3; i++) d += fabs(x(i) - y(i));
  return d < 1e-9 ? 0 : 1;
}
''')
S('rot-lazy-normalize', 'P01', [('src/utMath/Quaternion.h', '\t\t\t*this /= boost::math::abs(*this);\n\t\t\treturn *this;', '\t\t\tconst double len = boost::math::abs(*this);\n\t\t\tif ( len < 0.99999 || len > 1.00001 )\n\t\t\t\t*this /= len;\n\t\t\treturn *this;')],
  'a quaternion whose length differs from one by a few millionths, as rounding over many products leaves it', 'normalisation leaves it as it is', HEAD + '''
int main() {
  const double s = 1 + 5e-6;
  Quaternion q(0.1 * s, 0.7 * s, -0.5 * s, 0.5 * s); q.normalize();
  double n = sqrt(q.x() * q.x() + q.y() * q.y() + q.z() * q.z() + q.w() * q.w());
  return fabs(n - 1) < 1e-10 ? 0 : 1;
}
''')
S('errconv-prior-rotation', 'P05', [('src/utMath/ErrorPose.cpp', '\tQuaternion q( Quaternion::fromVector( ublas::subrange( v.value, 3, 7 ) ) );', '\tQuaternion q( Quaternion::fromVector( ublas::subrange( v.value, 3, 7 ) ) );\n\tif ( q.w() < 0 )\n\t\tq = -q;')],
  'an additive error vector whose quaternion has a negative scalar part, and a covariance that ties position to orientation',
  'the covariance between position and orientation changes its sign on the way there and back', HEAD + '''#include <utMath/ErrorPose.h>
int main() {
  Matrix<double,6,6> c; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) c(i, j) = i == j ? 0.04 : 0.01;
  Quaternion q(0.5, 0.1, -0.5, -0.7); q.normalize();
  ErrorPose p(q, Vector<double,3>(1, 2, 3), c);
  ErrorVector<double,7> v; p.toAdditiveErrorVector(v);
  ErrorPose r = ErrorPose::fromAdditiveErrorVector(v);
  double d = 0; for (int i = 0; i < 6; i++) for (int j = 0; j < 6; j++) d += fabs(r.covariance()(i, j) - c(i, j));
  return d < 1e-9 ? 0 : 1;
}
''')
