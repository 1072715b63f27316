#include "vc.h"
#include <utMath/Matrix.h>
#include <utMath/Vector.h>
#include <utMath/ErrorVector.h>
#include <utMath/Stochastic/CovarianceTransform.h>
#include <utMath/Stochastic/Kalman.h>
#include <utMath/Stochastic/BackwardPropagation.h>
using namespace Ubitrack;
using namespace Ubitrack::Math;
template<class V> static const double* gv(V& v, const double* p, int n) { for (int i = 0; i < n; i++) v(i) = p[i]; return p + n; }
template<class M> static const double* gm(M& m, const double* p, int r, int c) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i,j) = p[c*i+j]; return p + r*c; }
template<class T> static double* pv(double* o, const T& v, int n) { for (int i = 0; i < n; i++) o[i] = v(i); return o + n; }
template<class T> static double* pm(double* o, const T& m, int r, int c) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o[c*i+j] = m(i,j); return o + r*c; }
// an arbitrary function: its value at a + G x (to see that the right arguments arrive) and its derivative are inputs
struct F {
	int n, m; const double* g; const double* f; const double* j;
	int size() const { return n; }
	template<class R, class X> void evaluate(R& r, const X& x) const { for (int i = 0; i < n; i++) { double s = f[i]; for (int k = 0; k < m; k++) s += g[i*m+k] * x(k); r(i) = s; } }
	template<class R, class X, class J> void evaluateWithJacobian(R& r, const X& x, J& jac) const { Vector<double> t(n); evaluate(t, x); for (int i = 0; i < n; i++) r(i) = t(i); jacobian(x, jac); }
	template<class X, class J> void jacobian(const X&, J& jac) const { for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) jac(i,k) = j[i*m+k]; }
};
struct F2 { F a, b;
	template<class R, class X, class Y, class J, class K> void evaluateWithJacobian(R& r, const X& x, const Y& y, J& jx, K& jy) const {
		Vector<double> t(a.n), s(a.n); a.evaluateWithJacobian(t, x, jx); b.evaluateWithJacobian(s, y, jy); for (int i = 0; i < a.n; i++) r(i) = t(i) + s(i); } };

VC(kal_cov) { Vector<double,3> x; Matrix<double,3,3> c; const double* p = gm(c, gv(x, in, 3), 3, 3); F f = { 2, 3, p, p + 6, p + 8 };
	ErrorVector<double,2> r = Stochastic::transformWithCovariance<2,3>(f, ErrorVector<double,3>(x, c)); pm(pv(out, r.value, 2), r.covariance, 2, 2); }
VC(kal_cov_inplace) { Vector<double> x(3); Matrix<double,0,0> c(3, 3); const double* p = gm(c, gv(x, in, 3), 3, 3); F f = { 3, 3, p, p + 9, p + 12 };
	Stochastic::transformWithCovariance(f, x, c, x, c); pm(pv(out, x, 3), c, 3, 3); }
template<int N> static void range(const double* in, double* out, int ob, int oe, int ib, int ie) {
	Vector<double> x(N); Matrix<double,0,0> c(N, N); const double* p = gm(c, gv(x, in, N), N, N); const int n = oe - ob, m = ie - ib; F f = { n, m, p, p + n*m, p + n*m + n };
	Stochastic::transformRangeInternalWithCovariance(f, x, c, ob, oe, ib, ie); pm(pv(out, x, N), c, N, N); }
VC(kal_range_mid) { range<5>(in, out, 1, 3, 1, 3); }
VC(kal_range_wide) { range<5>(in, out, 1, 3, 1, 5); }
VC(kal_range_first) { range<4>(in, out, 0, 2, 0, 4); }
VC(kal_range_last) { range<4>(in, out, 2, 4, 0, 4); }
VC(kal_range_other) { range<4>(in, out, 0, 1, 2, 4); }
VC(kal_binary) { Vector<double,3> x; Matrix<double,3,3> c; Vector<double,2> y; Matrix<double,2,2> d; const double* p = gm(d, gv(y, gm(c, gv(x, in, 3), 3, 3), 2), 2, 2);
	F2 f = { { 2, 3, p, p + 6, p + 8 }, { 2, 2, p + 14, p + 18, p + 20 } };
	ErrorVector<double,2> r = Stochastic::binarytransformWithCovariance<2,3,2>(f, ErrorVector<double,3>(x, c), ErrorVector<double,2>(y, d)); pm(pv(out, r.value, 2), r.covariance, 2, 2); }
template<int N, int M> static void meas(const double* in, double* out, int b, int e) {
	Vector<double> x(N); Matrix<double,0,0> c(N, N); Vector<double> z(M); Matrix<double,0,0> r(M, M); const double* p = gm(r, gv(z, gm(c, gv(x, in, N), N, N), M), M, M);
	F f = { M, e - b, p, p + M*(e-b), p + M*(e-b) + M }; Stochastic::kalmanMeasurementUpdate(x, c, f, z, r, b, e); pm(pv(out, x, N), c, N, N); }
VC(kal_meas_1) { meas<3,1>(in, out, 1, 3); }
VC(kal_meas_2) { meas<4,2>(in, out, 1, 4); }
VC(kal_meas_3) { meas<3,3>(in, out, 0, 3); }
template<int N, int M> static void measid(const double* in, double* out, int b) {
	Vector<double,N> x; Matrix<double,N,N> c; Vector<double,M> z; Matrix<double,M,M> r; gm(r, gv(z, gm(c, gv(x, in, N), N, N), M), M, M);
	ErrorVector<double,N> s(x, c); Stochastic::kalmanMeasurementUpdateIdentity<N,M>(s, ErrorVector<double,M>(z, r), b, b + M); pm(pv(out, s.value, N), s.covariance, N, N); }
VC(kal_id_1) { measid<3,1>(in, out, 1); }
VC(kal_id_2) { measid<4,2>(in, out, 1); }
VC(kal_id_3) { measid<4,3>(in, out, 1); }
VC(kal_back_id) { F f = { 3, 2, 0, 0, in }; Vector<double,2> x(0., 0.); Matrix<double,2,2> r; Stochastic::backwardPropagationIdentity(r, in[6], f, x); pm(out, r, 2, 2); }
VC(kal_back_diag) { F f = { 3, 2, 0, 0, in }; Vector<double,2> x(0., 0.); Matrix<double,2,2> r; Vector<double,3> v; gv(v, in + 6, 3); Stochastic::backwardPropagationDiagonal(r, v, f, x); pm(out, r, 2, 2); }
VC(kal_back) { F f = { 3, 2, 0, 0, in }; Vector<double,2> x(0., 0.); Matrix<double,2,2> r; Matrix<double,3,3> c; gm(c, in + 6, 3, 3); Stochastic::backwardPropagation(r, c, f, x); pm(out, r, 2, 2); }
