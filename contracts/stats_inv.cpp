// class invariants of the online averages: one step from an arbitrary state (uses the fields of the structs)
#include "vc.h"
#include <vector>
#include <utMath/Matrix.h>
#include <utMath/Vector.h>
#include <utMath/Stochastic/Average.h>
#include SRC(utUtil/Exception.cpp)
#include SRC(utMath/Quaternion.cpp)
#include SRC(utMath/Pose.cpp)
#include SRC(utMath/ErrorPose.cpp)
using namespace Ubitrack;
using namespace Ubitrack::Math;
namespace S = Ubitrack::Math::Stochastic;
template<int N> static Vector<double,N> V(const double* p) { Vector<double,N> v; for (int i = 0; i < N; i++) v(i) = p[i]; return v; }
template<int R, int C> static Matrix<double,R,C> M(const double* p) { Matrix<double,R,C> m; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i,j) = p[C*i+j]; return m; }
template<class T> static double* pv(double* o, const T& v, int n) { for (int i = 0; i < n; i++) o[i] = v(i); return o + n; }
template<class T> static double* pm(double* o, const T& m, int r, int c) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o[c*i+j] = m(i,j); return o + r*c; }
static Quaternion Q(const double* p) { return Quaternion(p[0], p[1], p[2], p[3]); }
static Pose P(const double* p) { return Pose(Q(p), V<3>(p + 4)); }
static double* pq(double* o, const Quaternion& q) { o[0] = q.x(); o[1] = q.y(); o[2] = q.z(); o[3] = q.w(); return o + 4; }
VC(stai_init) { S::Average<double> a; S::Average<Vector<double,3> > b; S::Average<Quaternion> c; S::Average<Pose> d; S::Average<ErrorVector<double,3> > e; S::Average<ErrorPose> f;
	iout[0] = a.m_counter + b.m_counter + c.m_counter + d.m_counter + e.m_counter + f.m_counter;
	out[0] = a.m_mean; double* o = pv(pv(pv(pv(pv(out + 1, b.m_mean, 3), c.m_mean, 4), d.m_mean, 7), e.m_mean, 3), f.m_mean, 7); pm(pm(o, e.m_covariance, 3, 3), f.m_covariance, 7, 7); }
VC(stai_double) { S::Average<double> a; a.m_counter = iin[0]; a.m_mean = in[0]; out[1] = a.getAverage(); a(in[1]); iout[0] = a.m_counter; out[0] = a.m_mean; }
VC(stai_vec) { S::Average<Vector<double,3> > a; a.m_counter = iin[0]; a.m_mean = V<3>(in); pv(out + 3, a.getAverage(), 3); a(V<3>(in + 3)); iout[0] = a.m_counter; pv(out, a.m_mean, 3); }
VC(stai_quat) { S::Average<Quaternion> a; a.m_counter = iin[0]; a.m_mean = V<4>(in); pq(out + 4, a.getAverage()); a(Q(in + 4)); iout[0] = a.m_counter; pv(out, a.m_mean, 4); }
VC(stai_pose) { S::Average<Pose> a; a.m_counter = iin[0]; a.m_mean = V<7>(in); Pose p = a.getAverage(); pq(pv(out + 7, p.translation(), 3), p.rotation()); a(P(in + 7)); iout[0] = a.m_counter; pv(out, a.m_mean, 7); }
VC(stai_errvec) { S::Average<ErrorVector<double,2> > a; a.m_counter = iin[0]; a.m_mean = V<2>(in); a.m_covariance = M<2,2>(in + 2); ErrorVector<double,2> r = a.getAverage(); pm(pv(out + 6, r.value, 2), r.covariance, 2, 2);
	a(V<2>(in + 6)); iout[0] = a.m_counter; pm(pv(out, a.m_mean, 2), a.m_covariance, 2, 2); }
VC(stai_errpose) { S::Average<ErrorPose> a; a.m_counter = iin[0]; a.m_mean = V<7>(in); a.m_covariance = M<7,7>(in + 7); ErrorPose r = a.getAverage();
	a(P(in + 56)); iout[0] = a.m_counter; pm(pv(out, a.m_mean, 7), a.m_covariance, 7, 7); pm(pq(pv(out + 56, r.translation(), 3), r.rotation()), r.covariance(), 6, 6); }
