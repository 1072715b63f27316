#include "vc.h"
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Optimization/LevenbergMarquardt.h>
#include <utMath/Optimization/Function/DiscreteJacobianApproximation.h>
#include <utMath/Optimization/TukeyWeightFunction.h>
#include SRC(utUtil/Exception.cpp)
using namespace Ubitrack;
using namespace Ubitrack::Math;
namespace O = Ubitrack::Math::Optimization;
// an arbitrary function: the k-th evaluation returns the k-th given value and derivative and records its argument
template<int M, int N> struct Any {
	const double* in; double* out; int k; int nan;
	Any(const double* i, double* o, int bad = -1) : in(i), out(o), k(0), nan(bad) {}
	template<class R, class P, class J> void evaluateWithJacobian(R& r, const P& p, J& j) {
		for (int i = 0; i < N; i++) out[N*k + i] = p(i);
		const double* q = in + k*(M + M*N);
		for (int i = 0; i < M; i++) { r(i) = k == nan ? std::sqrt(-1.0 - q[i]*q[i]) : q[i]; for (int l = 0; l < N; l++) j(i, l) = q[M + N*i + l]; }
		++k; }
};
// in: start (N), measurement (M), then the evaluations; out: arguments of the evaluations, result, residual, number of evaluations
template<int M, int N> static void lm(const double* in, double* out, int iters, O::LmSolverType s, double size, double factor, int bad = -1) {
	Vector<double> p(N), m(M); for (int i = 0; i < N; i++) p(i) = in[i]; for (int i = 0; i < M; i++) m(i) = in[N + i];
	Any<M,N> f(in + N + M, out, bad); double r = O::levenbergMarquardt(f, p, m, O::OptTerminate(iters), O::OptNoNormalize(), s, size, factor);
	double* o = out + N*(iters + 1); for (int i = 0; i < N; i++) *o++ = p(i); *o++ = r; *o++ = f.k; }
VC(opt_lm_chol) { lm<2,2>(in, out, 2, O::lmUseCholesky, 1.0, 10.0); }
VC(opt_lm_qr) { lm<2,2>(in, out, 2, O::lmUseQR, 1.0, 10.0); }
VC(opt_lm_svd) { lm<2,2>(in, out, 2, O::lmUseSVD, 1.0, 10.0); }
VC(opt_lm_step) { lm<2,1>(in, out, 3, O::lmUseCholesky, in[15], in[16]); }
VC(opt_lm_nan) { lm<2,2>(in, out, 2, O::lmUseCholesky, 1.0, 10.0, 1); }
struct W { const double* w; double* o; mutable int k; W(const double* p, double* q) : w(p), o(q), k(0) {} bool noWeights() const { return false; }
	template<class A, class B> void computeWeights(const A& e, B& v) const { for (std::size_t i = 0; i < e.size(); i++) { v(i) = w[e.size()*k + i]; o[e.size()*k + i] = e(i); } ++k; } };
// normalisation: adds a constant, so that its place is visible
struct Shift { double s; Shift(double x) : s(x) {} template<class A, class B> void evaluate(A& r, const B& x) const { for (std::size_t i = 0; i < x.size(); i++) r(i) = x(i) + s; } };
VC(opt_lm_weights) { Vector<double> p(2), m(2); for (int i = 0; i < 2; i++) { p(i) = in[i]; m(i) = in[2 + i]; } Any<2,2> f(in + 4, out);
	double r = O::weightedLevenbergMarquardt(f, p, m, O::OptTerminate(2), Shift(in[22]), W(in + 23, out + 10)); out[6] = p(0); out[7] = p(1); out[8] = r; out[9] = f.k; }
VC(opt_term) { iout[0] = O::OptTerminate((std::size_t)iin[0], in[0])((std::size_t)iin[1], in[1], in[2]); }
// a function given by a quadratic per component
struct Quad { const double* c; Quad(const double* p) : c(p) {} unsigned size() const { return 2; }
	template<class A, class B> void evaluate(A& r, const B& x) const { for (int i = 0; i < 2; i++) { const double* k = c + 5*i; r(i) = k[0] + k[1]*x(0) + k[2]*x(1) + k[3]*x(0)*x(0) + k[4]*x(1)*x(1); } } };
VC(opt_disc) { Vector<double> x(2), r(2); x(0) = in[0]; x(1) = in[1]; Quad q(in + 2); O::Function::DiscreteJacobianApproximation<Quad> d(q, in[12]); Matrix<double> J(2, 2), K(2, 2); d.evaluateWithJacobian(r, x, J); d.jacobian(x, K);
	out[0] = r(0); out[1] = r(1); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { out[2 + 2*i + j] = J(i,j); out[6 + 2*i + j] = K(i,j); } Vector<double> e(2); d.evaluate(e, x); out[10] = e(0); out[11] = e(1); out[12] = d.size(); }
VC(opt_tukey) { Vector<double> e(4), w(4); for (int i = 0; i < 4; i++) e(i) = in[i]; TukeyWeightFunction t(2, in[4]); t.computeWeights(e, w); for (int i = 0; i < 4; i++) out[i] = w(i); iout[0] = t.noWeights(); }
