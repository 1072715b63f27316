#include "vc.h"
#include <cstdlib>
#include <stdlib.h>
#include <cmath>
#include <cassert>
#include <stdexcept>
// the random numbers are inputs of the contract: every sequence is covered
static const long long* vc_rnd;
namespace std { inline int vc_rand() { return (int)*vc_rnd++; } }
using std::vc_rand;
#define rand vc_rand
#include <vector>
#include <algorithm>
#include <iterator>
#include <utMath/Optimization/Ransac.h>
#include SRC(utUtil/Exception.cpp)
using namespace Ubitrack::Math::Optimization;
// data that know their index; hypotheses that know their number; arbitrary distances from a table
static const long long* vc_dist; static const long long* vc_ok; static long long* vc_log; static int vc_run, vc_n, vc_set;
struct Item { typedef double value_type; long long i; };
struct Hyp { long long k; Hyp() : k(-7) {} };
template<class I> static bool est(Hyp& h, I b, I e, I b2, I e2) {
	long long n = e - b; long long* o = vc_log + 5*vc_run; o[0] = n; int j = 0; for (I p = b, q = b2; p != e; ++p, ++q, ++j) if (j < 4) o[1 + j] = p->i == q->i ? p->i : -9; if (e2 - b2 != n) o[0] = -9;
	h.k = vc_run; return vc_ok[vc_run++] != 0; }
struct Fun {
	struct Estimator { template<class I> bool operator()(Hyp& h, I b, I e) const { return est(h, b, e, b, e); } template<class I> bool operator()(Hyp& h, I b, I e, I b2, I e2) const { return est(h, b, e, b2, e2); }
		void operator()(Hyp& h, const std::vector<Item>& a, const std::vector<Item>& b) const { if (!est(h, a.begin(), a.end(), b.begin(), b.end())) throw std::runtime_error("no estimate"); } };
	struct Evaluator { long long operator()(const Hyp& h, const Item& a) const { return vc_dist[vc_n*h.k + a.i]; } long long operator()(const Hyp& h, const Item& a, const Item& b) const { return a.i == b.i ? vc_dist[vc_n*h.k + a.i] : 1LL << 60; } };
};
// iin: threshold, random numbers (2 per run), success flags (runs + 1), distances (runs * n); iout: returned count, number of estimator calls, number of the result, then per call 5 numbers
static std::vector<Item> items(int n) { std::vector<Item> v; for (int i = 0; i < n; i++) { Item t; t.i = i; v.push_back(t); } return v; }
static void setup(const long long* iin, long long* iout, int runs, int n, int nrand) { vc_rnd = iin + 1; vc_ok = iin + 1 + nrand*runs; vc_dist = vc_ok + runs + 1; vc_log = iout + 3; vc_run = 0; vc_n = n; for (int i = 0; i < 5*(runs + 1); i++) vc_log[i] = -1; }
static void done(long long* iout, std::size_t r, const Hyp& h) { iout[0] = (long long)r; iout[1] = vc_run; iout[2] = h.k; }
static void r1(const long long* iin, long long* iout, int runs, int n, std::size_t set, std::size_t mn) { std::vector<Item> v = items(n); setup(iin, iout, runs, n, n - 1); Hyp h;
	std::size_t r = ransac(v.begin(), v.end(), h, Fun(), RansacParameter<long long>(iin[0], set, mn, (std::size_t)runs)); done(iout, r, h); }
static void r2(const long long* iin, long long* iout, int runs, int n, std::size_t set, std::size_t mn) { std::vector<Item> v = items(n), w = v; setup(iin, iout, runs, n, n - 1); Hyp h;
	std::size_t r = ransac(v.begin(), v.end(), w.begin(), w.end(), h, Fun(), RansacParameter<long long>(iin[0], set, mn, (std::size_t)runs)); done(iout, r, h); }
VC(ran_one) { r1(iin, iout, 2, 3, 2, 2); }
VC(ran_pair) { r2(iin, iout, 2, 3, 2, 2); }
VC(ran_one4) { r1(iin, iout, 1, 4, 2, 3); }
VC(ran_list) { std::vector<Item> v = items(3), w = v; setup(iin, iout, 2, 3, 2); Hyp h; std::vector<bool> m(3, false); Fun::Estimator e; Fun::Evaluator d;
	std::size_t r = ransac(h, v, w, (double)iin[0], 2, 2, (std::size_t)iin[14], 2, e, d, &m); done(iout, r, h); for (int i = 0; i < 3; i++) iout[18 + i] = m[i]; }
VC(ran_param) { RansacParameter<double> p(in[0], (std::size_t)iin[0], (std::size_t)iin[1], in[1], in[2]); out[0] = p.threshold; iout[0] = p.setSize; iout[1] = p.nMinInlier; iout[2] = p.nMaxIterations;
	RansacParameter<double> q(in[0], (std::size_t)iin[0], (std::size_t)iin[1], (std::size_t)iin[2]); out[1] = q.threshold; iout[3] = q.setSize; iout[4] = q.nMinInlier; iout[5] = q.nMaxIterations; }
