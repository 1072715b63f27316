#include "vc.h"
#include <vector>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Pose.h>
#include <utAlgorithm/Homography.h>
#include <utAlgorithm/Projection.h>
#include <utAlgorithm/FundamentalMatrix.h>
#include <utAlgorithm/3DPointReconstruction.h>
#include SRC(utUtil/Exception.cpp)
#include SRC(utMath/Quaternion.cpp)
#include SRC(utMath/Pose.cpp)
#include SRC(utAlgorithm/Homography.cpp)
#include SRC(utAlgorithm/Projection.cpp)
#include SRC(utAlgorithm/3DPointReconstruction.cpp)
#include SRC(utAlgorithm/FundamentalMatrix.cpp)
using namespace Ubitrack;
using namespace Ubitrack::Math;
namespace A = Ubitrack::Algorithm;
template<class T, int N> static std::vector< Vector<T,N> > pts(const double* p, int n) { std::vector< Vector<T,N> > r; for (int i = 0; i < n; i++) { Vector<T,N> v; for (int j = 0; j < N; j++) v(j) = (T)p[N*i+j]; r.push_back(v); } return r; }
template<class T, int R, int C> static Matrix<T,R,C> mat(const double* p) { Matrix<T,R,C> m; for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) m(i,j) = (T)p[C*i+j]; return m; }
template<class X> static double* put(double* o, const X& m) { for (std::size_t i = 0; i < m.size1(); i++) for (std::size_t j = 0; j < m.size2(); j++) *o++ = m(i,j); return o; }
template<class X> static double* putv(double* o, const X& v) { for (std::size_t i = 0; i < v.size(); i++) *o++ = v(i); return o; }
static Pose pose7(const double* p) { return Pose(Quaternion(p[3], p[4], p[5], p[6]), Vector<double,3>(p[0], p[1], p[2])); }
static void putp(const Pose& p, double* o) { for (int i = 0; i < 3; i++) o[i] = p.translation()(i); o[3] = p.rotation().x(); o[4] = p.rotation().y(); o[5] = p.rotation().z(); o[6] = p.rotation().w(); }
VC(pj_hom4) { put(out, A::homographyDLT(pts<double,2>(in, 4), pts<double,2>(in + 8, 4))); }
VC(pj_hom5) { put(out, A::homographyDLT(pts<double,2>(in, 5), pts<double,2>(in + 10, 5))); }
VC(pj_homf) { put(out, A::homographyDLT(pts<float,2>(in, 5), pts<float,2>(in + 10, 5))); }
VC(pj_square) { put(out, A::squareHomography(pts<double,2>(in, 4))); }
VC(pj_squaref) { put(out, A::squareHomography(pts<float,2>(in, 4))); }
VC(pj_dlt6) { put(out, A::projectionDLT(pts<double,3>(in, 6), pts<double,2>(in + 18, 6))); }
VC(pj_dlt7) { put(out, A::projectionDLT(pts<double,3>(in, 7), pts<double,2>(in + 21, 7))); }
VC(pj_decomp) { Matrix<double,3,3> k, r; Vector<double,3> t; A::decomposeProjection(k, r, t, mat<double,3,4>(in)); putv(put(put(out, k), r), t); }
VC(pj_decompf) { Matrix<float,3,3> k, r; Vector<float,3> t; A::decomposeProjection(k, r, t, mat<float,3,4>(in)); putv(put(put(out, k), r), t); }
VC(pj_gl34) { put(out, A::projectionMatrixToOpenGL(in[0], in[1], in[2], in[3], in[4], in[5], mat<double,3,4>(in + 6))); }
VC(pj_gl33) { put(out, A::projectionMatrixToOpenGL(in[0], in[1], in[2], in[3], in[4], in[5], mat<double,3,3>(in + 6))); }
VC(pj_gl34f) { put(out, A::projectionMatrixToOpenGL((float)in[0], (float)in[1], (float)in[2], (float)in[3], (float)in[4], (float)in[5], mat<float,3,4>(in + 6))); }
VC(pj_gl33f) { put(out, A::projectionMatrixToOpenGL((float)in[0], (float)in[1], (float)in[2], (float)in[3], (float)in[4], (float)in[5], mat<float,3,3>(in + 6))); }
VC(pj_offaxis) { Vector<double,3> e(in), a(in + 3), b(in + 6), c(in + 9); put(out, A::offAxisProjectionMatrix(e, a, b, c, in[12], in[13], in[14], in[15])); }
VC(pj_origin) { Matrix<double,3,3> k = mat<double,3,3>(in); A::correctOrigin(k, (int)iin[0], (int)iin[1]); put(out, k); Matrix<float,3,3> f = mat<float,3,3>(in); A::correctOrigin(f, (int)iin[0], (int)iin[1]); put(out + 9, f); }
VC(pj_fund8) { put(out, A::getFundamentalMatrix(pts<double,2>(in, 8), pts<double,2>(in + 16, 8), 1)); }
VC(pj_fund9) { put(out, A::getFundamentalMatrix(pts<double,2>(in, 9), pts<double,2>(in + 18, 9), 1)); }
VC(pj_fund16) { put(out, A::getFundamentalMatrix(pts<double,2>(in, 16), pts<double,2>(in + 32, 16), 2)); }
VC(pj_fund_few) { put(out, A::getFundamentalMatrix(pts<double,2>(in, 7), pts<double,2>(in + 16, 7), 1)); }
VC(pj_fund_uneq) { put(out, A::getFundamentalMatrix(pts<double,2>(in, 8), pts<double,2>(in + 16, 7), 1)); }
VC(pj_fund_step) { put(out, A::getFundamentalMatrix(pts<double,2>(in, 8), pts<double,2>(in + 16, 8), 0)); }
VC(pj_fpose) { put(out, A::fundamentalMatrixFromPoses(pose7(in), pose7(in + 7), mat<double,3,3>(in + 14), mat<double,3,3>(in + 23))); }
VC(pj_posef) { putp(A::poseFromFundamentalMatrix(mat<double,3,3>(in), Vector<double,2>(in + 9), Vector<double,2>(in + 11), mat<double,3,3>(in + 13), mat<double,3,3>(in + 22)), out); }
VC(pj_pt2) { putv(out, A::get3DPosition(mat<double,3,4>(in), mat<double,3,4>(in + 12), Vector<double,2>(in + 24), Vector<double,2>(in + 26))); }
template<class T> static Vector<T,3> ptn(const double* in, int n, int m, std::size_t flag) { std::vector< Matrix<T,3,4> > P; for (int i = 0; i < n; i++) P.push_back(mat<T,3,4>(in + 14*i)); std::vector< Vector<T,2> > x; for (int i = 0; i < m; i++) x.push_back(pts<T,2>(in + 14*i + 12, 1)[0]); return A::get3DPosition(P, x, flag); }
VC(pj_pt3) { putv(out, ptn<double>(in, 3, 3, 0)); }
VC(pj_pt2n) { putv(out, ptn<double>(in, 2, 2, 0)); }
VC(pj_pt3f) { putv(out, ptn<float>(in, 3, 3, 0)); }
VC(pj_pt3o) { putv(out, ptn<double>(in, 3, 3, 1)); std::vector< Matrix<double,3,4> > P; std::vector< Vector<double,2> > x; for (int i = 0; i < 3; i++) { P.push_back(mat<double,3,4>(in + 14*i)); x.push_back(Vector<double,2>(in + 14*i + 12)); } out[6] = -1; putv(out + 3, A::get3DPositionWithResidual(P, x, 1, out + 6)); }
VC(pj_pt_few) { putv(out, ptn<double>(in, 1, 1, 0)); }
VC(pj_pt_uneq) { putv(out, ptn<double>(in, 3, 2, 0)); }
VC(pj_dist) { Matrix<double,3,3> F = mat<double,3,3>(in); Vector<double,2> a(in + 9), b(in + 11); out[0] = A::pointToPointDist(a, b, F); out[1] = A::pointToPointDist(Vector<double,3>(a(0), a(1), 1), Vector<double,3>(b(0), b(1), 1), F); }
VC(pj_recon) { std::vector< Vector<double,3> > r = A::reconstruct3DPoints(pts<double,2>(in, 4), pts<double,2>(in + 8, 4), mat<double,3,4>(in + 16), mat<double,3,4>(in + 28), mat<double,3,3>(in + 40)); iout[0] = r.size(); for (std::size_t i = 0; i < r.size() && i < 4; i++) putv(out + 3*i, r[i]); }

VC(pj_fundf) { put(out, A::getFundamentalMatrix(pts<float,2>(in, 12), pts<float,2>(in + 24, 12), 1)); }
VC(pj_pt2f) { putv(out, A::get3DPosition(mat<float,3,4>(in), mat<float,3,4>(in + 12), pts<float,2>(in + 24, 1)[0], pts<float,2>(in + 26, 1)[0])); }
VC(pj_distf) { Matrix<float,3,3> F = mat<float,3,3>(in); Vector<float,2> a = pts<float,2>(in + 9, 1)[0], b = pts<float,2>(in + 11, 1)[0]; out[0] = A::pointToPointDist(a, b, F); out[1] = A::pointToPointDist(Vector<float,3>(a(0), a(1), 1), Vector<float,3>(b(0), b(1), 1), F); }
VC(pj_reconf) { std::vector< Vector<float,3> > r = A::reconstruct3DPoints(pts<float,2>(in, 4), pts<float,2>(in + 8, 4), mat<float,3,4>(in + 16), mat<float,3,4>(in + 28), mat<float,3,3>(in + 40)); iout[0] = r.size(); for (std::size_t i = 0; i < r.size() && i < 4; i++) putv(out + 3*i, r[i]); }
VC(pj_pt_few_f) { putv(out, ptn<float>(in, 1, 1, 0)); }
VC(pj_pt_uneq_f) { putv(out, ptn<float>(in, 3, 2, 0)); }
static void ptres(const double* in, int n, int m, double* out) { std::vector< Matrix<double,3,4> > P; for (int i = 0; i < n; i++) P.push_back(mat<double,3,4>(in + 14*i)); std::vector< Vector<double,2> > x; for (int i = 0; i < m; i++) x.push_back(pts<double,2>(in + 14*i + 12, 1)[0]); putv(out, A::get3DPositionWithResidual(P, x, 0, out + 3)); }
VC(pj_pt_few_r) { ptres(in, 1, 1, out); }
VC(pj_pt_uneq_r) { ptres(in, 3, 2, out); }
VC(pj_pt3r) { ptres(in, 3, 3, out); }
