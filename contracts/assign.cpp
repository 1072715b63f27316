#include "vc.h"
#include <vector>
#include <iostream>
#include <cassert>
#include <utMath/Matrix.h>
#include <utMath/Vector.h>
#include <utMath/Graph/Munkres.h>
using namespace Ubitrack;
using namespace Ubitrack::Math;
static void solve(const double* in, long long* iout, int r, int c)
{
  Matrix<double,0,0> m(r, c);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i,j) = in[c*i+j];
  Graph::Munkres<double> k(m);
  k.solve();
  std::vector<std::size_t> a = k.getRowMatchList(), b = k.getColMatchList();
  int n = r > c ? r : c;
  iout[0] = a.size(); iout[1] = b.size();
  for (int i = 0; i < n; i++) { iout[2+i] = i < (int)a.size() ? (long long)a[i] : -1; iout[2+n+i] = i < (int)b.size() ? (long long)b[i] : -1; }
}
VC(asg_22) { solve(in, iout, 2, 2); }
VC(asg_23) { solve(in, iout, 2, 3); }
VC(asg_32) { solve(in, iout, 3, 2); }
VC(asg_33) { solve(in, iout, 3, 3); }
VC(asg_44) { solve(in, iout, 4, 4); }
VC(asg_55) { solve(in, iout, 5, 5); }
VC(asg_25) { solve(in, iout, 2, 5); }
VC(asg_42) { solve(in, iout, 4, 2); }
VC(asg_reuse) { Matrix<double,0,0> m(2,2); for (int i = 0; i < 4; i++) m(i/2,i%2) = in[i]; Graph::Munkres<double> k; k.setMatrix(m); k.solve(); std::vector<std::size_t> a = k.getRowMatchList(), b = k.getColMatchList();
  iout[0] = a.size(); iout[1] = b.size(); for (int i = 0; i < 2; i++) { iout[2+i] = a[i]; iout[4+i] = b[i]; } }
// in: two matrices of up to 9x9; iin: sizes of the first (0: none) and of the second
VC(asg_any) {
  Graph::Munkres<double> k;
  const double* s = in;
  for (int p = 0; p < 2; p++) {
    int r = (int)iin[2*p], c = (int)iin[2*p+1];
    if (r) {
      Matrix<double,0,0> m(r, c);
      for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i,j) = s[c*i+j];
      k.setMatrix(m); k.solve();
    }
    s += 81;
  }
  std::vector<std::size_t> a = k.getRowMatchList(), b = k.getColMatchList();
  iout[0] = a.size(); iout[1] = b.size();
  for (int i = 0; i < 9; i++) { iout[2+i] = i < (int)a.size() ? (long long)a[i] : -1; iout[11+i] = i < (int)b.size() ? (long long)b[i] : -1; }
}
