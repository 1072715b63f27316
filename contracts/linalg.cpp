#include "vc.h"
#include <vector>
#include <list>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Blas1.h>
#include <utMath/Blas2.h>
#include <utMath/Blas3.h>
#include <utMath/VectorFunctions.h>
#include <utMath/MatrixOperations.h>
#include <utMath/Functors/MatrixFunctors.h>
#include <utMath/Util/cast_assign.h>
#include SRC(utMath/Quaternion.cpp)
#include SRC(utUtil/Exception.cpp)
using namespace Ubitrack;
using namespace Ubitrack::Math;
template<int N> static Vector<double,N> V(const double* p) { Vector<double,N> v; for (int i = 0; i < N; i++) v(i) = p[i]; return v; }
static Vector<double> D(const double* p, int n) { Vector<double> v(n); for (int i = 0; i < n; i++) v(i) = p[i]; return v; }
template<int R, int C> static Matrix<double,R,C> M(const double* p) { Matrix<double,R,C> m; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i,j) = p[C*i+j]; return m; }
template<class T> static double* pv(double* o, const T& v, int n) { for (int i = 0; i < n; i++) o[i] = v(i); return o + n; }
template<class T> static double* pm(double* o, const T& m, int r, int c) { for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) o[c*i+j] = m(i,j); return o + r*c; }
// products and norms of fixed and dynamic vectors
template<int N> static void b1(const double* in, double* out) { Vector<double,N> a = V<N>(in), b = V<N>(in + N);
	out[0] = inner_product(a, b); out[1] = norm_1(a); out[2] = norm_2(a); out[3] = InnerProduct()(a); out[4] = distance(a, b); out[5] = squared_distance(a, b); pv(out + 6, normalize(a), N); }
VC(la_vec_1) { b1<1>(in, out); }
VC(la_vec_2) { b1<2>(in, out); }
VC(la_vec_3) { b1<3>(in, out); }
VC(la_vec_4) { b1<4>(in, out); }
VC(la_vec_7) { b1<7>(in, out); }
template<int N> static void b1d(const double* in, double* out) { Vector<double> a = D(in, N), b = D(in + N, N);
	out[0] = inner_product(a, b); out[1] = norm_1(a); out[2] = norm_2(a); out[3] = InnerProduct()(a); out[4] = distance(a, b); out[5] = squared_distance(a, b); pv(out + 6, normalize(a), N); }
VC(la_dyn_1) { b1d<1>(in, out); }
VC(la_dyn_2) { b1d<2>(in, out); }
VC(la_dyn_5) { b1d<5>(in, out); }
VC(la_range) { typedef Vector<double,3> X; std::vector<X> a, b; for (int i = 0; i < 3; i++) { a.push_back(V<3>(in + 3*i)); b.push_back(V<3>(in + 9 + 3*i)); }
	std::vector<double> r(12); distance(a.begin(), a.end(), r.begin()); distance(a.begin(), a.end(), b.begin(), r.begin() + 3);
	squared_distance(a.begin(), a.end(), r.begin() + 6); squared_distance(a.begin(), a.end(), b.begin(), r.begin() + 9); for (int i = 0; i < 12; i++) out[i] = r[i];
	normalize(a.begin(), a.end(), b.begin()); for (int i = 0; i < 3; i++) pv(out + 12 + 3*i, b[i], 3); }
VC(la_cross) { pv(out, cross_product(V<3>(in), V<3>(in + 3)), 3); }
// outer products
template<int A, int B> static void op(const double* in, double* out) { Vector<double,A> a = V<A>(in); Vector<double,B> b = V<B>(in + A); Matrix<double,A,B> r; outer_product(a, b, r); pm(pm(out, outer_product(a, b), A, B), r, A, B); }
VC(la_outer_22) { op<2,2>(in, out); }
VC(la_outer_23) { op<2,3>(in, out); }
VC(la_outer_42) { op<4,2>(in, out); }
VC(la_outer_13) { op<1,3>(in, out); }
VC(la_outer_range) { std::vector< Vector<double,2> > a; std::vector< Vector<double,3> > b; for (int i = 0; i < 2; i++) { a.push_back(V<2>(in + 2*i)); b.push_back(V<3>(in + 4 + 3*i)); }
	std::vector< Matrix<double,2,3> > r; outer_product(a.begin(), a.end(), b.begin(), std::back_inserter(r)); for (std::size_t i = 0; i < r.size(); i++) pm(out + 6*i, r[i], 2, 3); out[12] = (double)r.size(); }
// matrix times vector
template<int R, int C> static void mvp(const double* in, double* out) { Matrix<double,R,C> m = M<R,C>(in); Vector<double,C> v = V<C>(in + R*C); Vector<double,R> r; for (int i = 0; i < R; i++) r(i) = in[R*C + C + i];
	product(m, v, r); pv(pv(out, r, R), Product< Matrix<double,R,C>, Vector<double,C>, Vector<double,R> >()(m, v), R); }
VC(la_mv_22) { mvp<2,2>(in, out); }
VC(la_mv_23) { mvp<2,3>(in, out); }
VC(la_mv_34) { mvp<3,4>(in, out); }
VC(la_mv_42) { mvp<4,2>(in, out); }
VC(la_mv_31) { mvp<3,1>(in, out); }
VC(la_mv_range) { std::vector< Matrix<double,2,3> > a; std::vector< Vector<double,3> > b; for (int i = 0; i < 2; i++) { a.push_back(M<2,3>(in + 6*i)); b.push_back(V<3>(in + 12 + 3*i)); }
	std::vector< Vector<double,2> > r; product(a.begin(), a.end(), b.begin(), std::back_inserter(r)); for (std::size_t i = 0; i < r.size(); i++) pv(out + 2*i, r[i], 2); out[4] = (double)r.size(); }
// matrix times matrix
template<int R, int K, int C> static void mmp(const double* in, double* out) { Matrix<double,R,K> a = M<R,K>(in); Matrix<double,K,C> b = M<K,C>(in + R*K); Matrix<double,R,C> r = M<R,C>(in + R*K + K*C);
	product(a, b, r); pm(pm(out, r, R, C), Product< Matrix<double,R,K>, Matrix<double,K,C>, Matrix<double,R,C> >()(a, b), R, C); }
VC(la_mm_222) { mmp<2,2,2>(in, out); }
VC(la_mm_333) { mmp<3,3,3>(in, out); }
VC(la_mm_234) { mmp<2,3,4>(in, out); }
VC(la_mm_321) { mmp<3,2,1>(in, out); }
VC(la_mm_143) { mmp<1,4,3>(in, out); }
VC(la_mm_444) { mmp<4,4,4>(in, out); }
VC(la_mm_range) { std::vector< Matrix<double,2,2> > a, b; for (int i = 0; i < 2; i++) { a.push_back(M<2,2>(in + 4*i)); b.push_back(M<2,2>(in + 8 + 4*i)); }
	std::vector< Matrix<double,2,2> > r; product(a.begin(), a.end(), b.begin(), std::back_inserter(r)); for (std::size_t i = 0; i < r.size(); i++) pm(out + 4*i, r[i], 2, 2); out[8] = (double)r.size(); }
// determinants and inverses
VC(la_det_2) { out[0] = Functors::matrix_determinant()(M<2,2>(in)); }
VC(la_det_3) { out[0] = Functors::matrix_determinant()(M<3,3>(in)); }
VC(la_det_4) { out[0] = Functors::matrix_determinant()(M<4,4>(in)); }
VC(la_ludet_1) { out[0] = determinant(M<1,1>(in)); }
VC(la_ludet_2) { out[0] = determinant(M<2,2>(in)); }
VC(la_ludet_3) { out[0] = determinant(M<3,3>(in)); }
VC(la_ludet_4) { out[0] = determinant(M<4,4>(in)); }
VC(la_inv_2) { pm(out, Functors::matrix_inverse()(M<2,2>(in)), 2, 2); }
VC(la_inv_3) { pm(out, Functors::matrix_inverse()(M<3,3>(in)), 3, 3); }
VC(la_inv_4) { pm(out, Functors::matrix_inverse()(M<4,4>(in)), 4, 4); }
VC(la_luinv_2) { pm(out, invert_matrix(M<2,2>(in)), 2, 2); }
VC(la_luinv_3) { pm(out, invert_matrix(M<3,3>(in)), 3, 3); }
VC(la_luinv_4) { pm(out, invert_matrix(M<4,4>(in)), 4, 4); }
VC(la_pinv_32) { pm(out, pseudoInvert_matrix(M<3,2>(in)), 2, 3); }
VC(la_pinv_23) { pm(out, pseudoInvert_matrix(M<2,3>(in)), 3, 2); }
VC(la_pinv_33) { pm(out, pseudoInvert_matrix(M<3,3>(in)), 3, 3); }
// construction, order, equality
VC(la_ctor) { double* o = out; o = pv(o, Vector<double,2>(in[0], in[1]), 2); o = pv(o, Vector<double,3>(in[0], in[1], in[2]), 3); o = pv(o, Vector<double,4>(in[0], in[1], in[2], in[3]), 4); o = pv(o, Vector<double,5>(in), 5);
	o = pm(o, Matrix<double,2,3>(in), 2, 3); o = pm(o, Matrix<double,3,2>(in), 3, 2); o = pv(o, Vector<double,3>::zeros(), 3); o = pv(o, Vector<double>::zeros(2), 2);
	o = pm(o, Matrix<double,3,3>::identity(), 3, 3); o = pm(o, Matrix<double,2,3>::zeros(), 2, 3); o = pm(o, Matrix<double>::identity(2), 2, 2); o = pm(o, Matrix<double>::zeros(2, 3), 2, 3); o = pm(o, Matrix<double>::scalar(2, 3, in[0]), 2, 3); }
VC(la_cmp) { const Vector<double,3> a = V<3>(in), b = V<3>(in + 3); iout[0] = a < b; iout[1] = b < a; iout[2] = a == b; Matrix<double,2,2> c = M<2,2>(in), d = M<2,2>(in + 3); iout[3] = c == d; }
VC(la_hand) { Matrix<double,4,4> m = M<4,4>(in); leftHandToRightHandMatrix(m); pm(out, m, 4, 4); }
VC(la_content) { Matrix<double,2,3> m = M<2,3>(in); const Matrix<double,2,3>& cm = m; for (int i = 0; i < 6; i++) { out[i] = m.content()[i]; out[6 + i] = cm.content()[i]; }
	Vector<double,3> v = V<3>(in); const Vector<double,3>& cv = v; for (int i = 0; i < 3; i++) { out[12 + i] = v.content()[i]; out[15 + i] = cv.content()[i]; } iout[0] = m.size1(); iout[1] = m.size2(); iout[2] = v.size(); iout[3] = m.size(); }
VC(la_cast) { Matrix<double,2,3> m = M<2,3>(in); Matrix<float,2,3> f; Ubitrack::Math::Util::matrix_cast_assign(f, m); pm(out, f, 2, 3); Vector<float,3> w; Ubitrack::Math::Util::vector_cast_assign(w, V<3>(in)); pv(out + 6, w, 3); }
