#include "vc.h"
#include <vector>
#include <iostream>
#include <utMath/Matrix.h>
#include <utMath/Vector.h>
#include <utMath/Stochastic/Average.h>
#include <utMath/Stochastic/Gaussian.h>
#include <utMath/Stochastic/Correlation.h>
#include <utMath/Stochastic/MahalanobisDistance.h>
#include <utMath/Stochastic/Weighted.h>
#include <utMath/Stochastic/expectation_maximization.h>
#include SRC(utUtil/Exception.cpp)
#include SRC(utMath/Quaternion.cpp)
#include SRC(utMath/Pose.cpp)
#include SRC(utMath/ErrorPose.cpp)
#include SRC(utAlgorithm/Correlation.cpp)
using namespace Ubitrack;
using namespace Ubitrack::Math;
namespace S = Ubitrack::Math::Stochastic;
template<int N> static Vector<double,N> V(const double* p) { Vector<double,N> v; for (int i = 0; i < N; i++) v(i) = p[i]; return v; }
template<class T> static double* pv(double* o, const T& v, int n) { for (int i = 0; i < n; i++) o[i] = v(i); return o + n; }
template<class T> static double* pm(double* o, const T& m, int r, int c) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o[c*i+j] = m(i,j); return o + r*c; }
static Quaternion Q(const double* p) { return Quaternion(p[0], p[1], p[2], p[3]); }
static Pose P(const double* p) { return Pose(Q(p), V<3>(p + 4)); }
static double* pq(double* o, const Quaternion& q) { o[0] = q.x(); o[1] = q.y(); o[2] = q.z(); o[3] = q.w(); return o + 4; }
VC(sta_avg_double) { S::Average<double> a; for (int i = 0; i < 3; i++) a(in[i]); out[0] = a.getAverage(); }
VC(sta_avg_scalar) { S::Average<Scalar<double> > a; for (int i = 0; i < 3; i++) a(Scalar<double>(in[i])); out[0] = a.getAverage(); }
VC(sta_avg_vec) { S::Average<Vector<double,3> > a; for (int i = 0; i < 3; i++) a(V<3>(in + 3*i)); pv(out, a.getAverage(), 3); }
VC(sta_avg_quat) { S::Average<Quaternion> a; for (int i = 0; i < 2; i++) a(Q(in + 4*i)); pq(out, a.getAverage()); }
VC(sta_avg_pose) { S::Average<Pose> a; for (int i = 0; i < 2; i++) a(P(in + 7*i)); Pose p = a.getAverage(); pv(pq(out, p.rotation()), p.translation(), 3); }
VC(sta_avg_errvec) { S::Average<ErrorVector<double,2> > a; for (int i = 0; i < 3; i++) a(V<2>(in + 2*i)); ErrorVector<double,2> r = a.getAverage(); pm(pv(out, r.value, 2), r.covariance, 2, 2); }
VC(sta_avg_errpose) { S::Average<ErrorPose> a; for (int i = 0; i < 2; i++) a(P(in + 7*i)); ErrorPose r = a.getAverage(); pm(pv(pq(out, r.rotation()), r.translation(), 3), r.covariance(), 6, 6); }
template<int N> static void pg(double* out, const S::Gaussian<double,N>& g) { for (int i = 0; i < N; i++) out[i] = g.mean[i]; for (int i = 0; i < N*N; i++) out[N+i] = g.covariance[i]; out[N+N*N] = g.variance; out[N+N*N+1] = g.standardDeviation; }
VC(sta_gauss) { std::vector<Vector<double,2> > p; for (int i = 0; i < 3; i++) p.push_back(V<2>(in + 2*i)); S::Gaussian<double,2> g; iout[0] = S::estimate_gaussian(p.begin(), p.end(), g); pg<2>(out, g); }
VC(sta_gauss_empty) { std::vector<Vector<double,2> > p; std::vector<double> w; S::Gaussian<double,2> g; iout[0] = S::estimate_gaussian(p.begin(), p.end(), g); iout[1] = S::estimate_gaussian(p.begin(), p.end(), w.begin(), g); }
VC(sta_gauss_weighted) { std::vector<Vector<double,2> > p; std::vector<double> w; for (int i = 0; i < 3; i++) { p.push_back(V<2>(in + 2*i)); w.push_back(in[6+i]); } S::Gaussian<double,2> g; iout[0] = S::estimate_gaussian(p.begin(), p.end(), w.begin(), g); pg<2>(out, g); }
VC(sta_gauss_index) { std::vector<Vector<double,2> > p; std::vector<std::size_t> w; for (int i = 0; i < 4; i++) { p.push_back(V<2>(in + 2*i)); w.push_back(i % 2); } S::Gaussian<double,2> g; iout[0] = S::estimate_gaussian_index(p.begin(), p.end(), w.begin(), (std::size_t)1, g); pg<2>(out, g); }
VC(sta_corr) { std::vector<double> a(in, in + 3), b(in + 3, in + 6); out[0] = S::correlation(a.begin(), a.end(), b.begin(), b.end()); }
VC(sta_corr_short) { std::vector<double> a(in, in + 2), b(in + 2, in + 6); out[0] = Algorithm::computeCorrelation(a, b); out[1] = Algorithm::computeCorrelation(b, a); }
VC(sta_corr_alg) { std::vector<double> a(in, in + 3), b(in + 3, in + 6), e; out[0] = Algorithm::computeCorrelation(a, b); out[1] = Algorithm::computeCorrelation(e, e); out[2] = S::correlation(e.begin(), e.end(), e.begin(), e.end()); }
template<int N> static S::Gaussian<double,N> G(const double* in) { S::Gaussian<double,N> g; for (int i = 0; i < N; i++) g.mean[i] = in[i]; for (int i = 0; i < N*N; i++) g.covariance[i] = in[N+i]; g.variance = 0; g.standardDeviation = 0; return g; }
VC(sta_maha2) { S::Gaussian<double,2> g = G<2>(in); out[0] = S::MahalanobisDistance<S::Gaussian<double,2> >(g)(V<2>(in + 6)); }
VC(sta_maha3) { S::Gaussian<double,3> g = G<3>(in); out[0] = S::MahalanobisDistance<S::Gaussian<double,3> >(g)(V<3>(in + 12)); }
VC(sta_pdf2) { S::Gaussian<double,2> g = G<2>(in), h = G<2>(in + 8); S::Probability<S::Gaussian<double,2> > p(g), q(h); out[0] = p(V<2>(in + 6)); out[1] = p(V<2>(in)); out[2] = q(V<2>(in + 8)); }
typedef S::Weighted<S::Gaussian<double,2> > WG;
VC(sta_weighted) { S::Gaussian<double,2> g = G<2>(in); WG a(g, in[6]), b(g, in[7]), c(g), d; iout[0] = a < b; iout[1] = a > b; iout[2] = a == b; iout[3] = a != b; out[0] = a.weight; out[1] = c.weight; out[2] = d.weight; out[3] = a.mean[0]; out[4] = c.covariance[3]; }
VC(sta_loglike) { std::vector<WG> g; g.push_back(WG(G<2>(in), in[6])); g.push_back(WG(G<2>(in + 7), in[13])); std::vector<Vector<double,2> > x; x.push_back(V<2>(in + 14)); x.push_back(V<2>(in + 16));
	out[0] = S::log_likelihood<double>(g.begin(), g.end(), x.begin(), x.end()); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) out[1 + 2*i + j] = S::Probability<WG>(g[i])(x[j]); }
