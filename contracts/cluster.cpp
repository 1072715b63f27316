#include "vc.h"
#include <vector>
#include <iostream>
#include <cassert>
#include <utMath/Matrix.h>
#include <utMath/Vector.h>
#include <utMath/Stochastic/k_means.h>
#include <utMath/Stochastic/Gaussian.h>
#include <utMath/Stochastic/Weighted.h>
#include <utMath/Stochastic/expectation_maximization.h>
#include SRC(utUtil/Exception.cpp)
using namespace Ubitrack;
using namespace Ubitrack::Math;
namespace S = Ubitrack::Math::Stochastic;
typedef Vector<double,2> V2;
static std::vector<V2> pts(const double* in, int n) { std::vector<V2> p; for (int i = 0; i < n; i++) { V2 v; v(0) = in[2*i]; v(1) = in[2*i+1]; p.push_back(v); } return p; }
static void kmeans(const double* in, double* out, long long* iout, int n, int k)
{
  std::vector<V2> p = pts(in, n), m = pts(in + 2*n, k); std::vector<std::size_t> ix(n, 99);
  out[0] = S::k_means(p.begin(), p.end(), m.begin(), m.end(), ix.begin(), SquaredDistance<V2>());
  for (int i = 0; i < k; i++) { out[1+2*i] = m[i](0); out[2+2*i] = m[i](1); }
  for (int i = 0; i < n; i++) iout[i] = ix[i];
}
VC(clu_kmeans_1) { kmeans(in, out, iout, 3, 1); }
VC(clu_kmeans_32) { kmeans(in, out, iout, 3, 2); }
VC(clu_kmeans_12) { kmeans(in, out, iout, 12, 3); }
VC(clu_kmeans_auto) { std::vector<V2> p = pts(in, 12), c; std::vector<std::size_t> ix;
  S::k_means(p.begin(), p.end(), 3, std::back_inserter(c), std::back_inserter(ix));
  iout[0] = c.size(); iout[1] = ix.size(); for (int i = 0; i < 12; i++) iout[2+i] = i < (int)ix.size() ? (long long)ix[i] : -1;
  for (int i = 0; i < 3; i++) { out[2*i] = i < (int)c.size() ? c[i](0) : 0; out[2*i+1] = i < (int)c.size() ? c[i](1) : 0; } }
VC(clu_select) { std::vector<V2> p = pts(in, 6), c; iout[0] = S::copy_probability(p.begin(), p.end(), 3, std::back_inserter(c), Distance<V2>()); iout[1] = c.size();
  for (int i = 0; i < 3; i++) { out[2*i] = i < (int)c.size() ? c[i](0) : 0; out[2*i+1] = i < (int)c.size() ? c[i](1) : 0; } }
VC(clu_greedy) { std::vector<V2> p = pts(in, 4), c; S::copy_greedy(p.begin(), p.end(), 3, std::back_inserter(c)); iout[0] = c.size(); for (int i = 0; i < 3; i++) { out[2*i] = c[i](0); out[2*i+1] = c[i](1); } }
typedef S::Weighted<S::Gaussian<double,2> > WG;
VC(clu_em) { std::vector<V2> p = pts(in, 10); std::vector<WG> g;
  for (int k = 0; k < 2; k++) { S::Gaussian<double,2> q; const double* s = in + 20 + 7*k; for (int i = 0; i < 2; i++) q.mean[i] = s[i]; for (int i = 0; i < 4; i++) q.covariance[i] = s[2+i]; q.variance = q.standardDeviation = 0; g.push_back(WG(q, s[6])); }
  out[0] = S::expectation_maximization(p.begin(), p.end(), g.begin(), g.end());
  out[1] = S::log_likelihood<double>(g.begin(), g.end(), p.begin(), p.end());
  for (int k = 0; k < 2; k++) { double* s = out + 2 + 7*k; for (int i = 0; i < 2; i++) s[i] = g[k].mean[i]; for (int i = 0; i < 4; i++) s[2+i] = g[k].covariance[i]; s[6] = g[k].weight; } }
VC(clu_kmeans_any) { kmeans(in, out, iout, (int)iin[0], (int)iin[1]); }
VC(clu_auto_any) { int n = (int)iin[0], k = (int)iin[1]; std::vector<V2> p = pts(in, n), c; std::vector<std::size_t> ix;
  S::k_means(p.begin(), p.end(), k, std::back_inserter(c), std::back_inserter(ix));
  iout[20] = c.size(); iout[21] = ix.size(); for (int i = 0; i < 20; i++) iout[i] = i < (int)ix.size() ? (long long)ix[i] : -1;
  for (int i = 0; i < 5; i++) { out[2*i] = i < (int)c.size() ? c[i](0) : 0; out[2*i+1] = i < (int)c.size() ? c[i](1) : 0; } }
VC(clu_em_any) { int n = (int)iin[0], K = (int)iin[1]; std::vector<V2> p = pts(in, n); std::vector<WG> g;
  for (int k = 0; k < K; k++) { S::Gaussian<double,2> q; const double* s = in + 2*n + 7*k; for (int i = 0; i < 2; i++) q.mean[i] = s[i]; for (int i = 0; i < 4; i++) q.covariance[i] = s[2+i]; q.variance = q.standardDeviation = 0; g.push_back(WG(q, s[6])); }
  out[0] = S::expectation_maximization(p.begin(), p.end(), g.begin(), g.end());
  out[1] = S::log_likelihood<double>(g.begin(), g.end(), p.begin(), p.end());
  for (int k = 0; k < K; k++) { double* s = out + 2 + 7*k; for (int i = 0; i < 2; i++) s[i] = g[k].mean[i]; for (int i = 0; i < 4; i++) s[2+i] = g[k].covariance[i]; s[6] = g[k].weight; } }
