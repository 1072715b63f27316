#include "vc.h"
#include <algorithm>
#include <utMath/Matrix.h>
#include <utMath/Vector.h>
#include SRC(utMath/Quaternion.cpp)
#include <utUtil/StaticAssert.h>
#include <utMath/Util/RotationCast.h>
using namespace Ubitrack;
using namespace Ubitrack::Math;
typedef Vector<double,3> V3; typedef Vector<double,4> V4; typedef Matrix<double,3,3> M3; typedef Matrix<double,4,4> M4;
static Quaternion Q(const double* p) { return Quaternion(p[0], p[1], p[2], p[3]); }
static V3 v3(const double* p) { return V3(p[0], p[1], p[2]); }
static V4 v4(const double* p) { return V4(p[0], p[1], p[2], p[3]); }
static M3 m3(const double* p) { M3 m; for (int i = 0; i < 9; i++) m(i/3, i%3) = p[i]; return m; }
static void put(double* o, const Quaternion& q) { o[0] = q.x(); o[1] = q.y(); o[2] = q.z(); o[3] = q.w(); }
static void put(double* o, const V3& v) { for (int i = 0; i < 3; i++) o[i] = v(i); }
static void put(double* o, const V4& v) { for (int i = 0; i < 4; i++) o[i] = v(i); }
template<class M> static void putm(double* o, const M& m, int n) { for (int i = 0; i < n*n; i++) o[i] = m(i/n, i%n); }
VC(conv_cast_mq) { put(out, Math::Util::RotationCast<Quaternion>()(m3(in))); }
VC(conv_cast_aq) { put(out, Math::Util::RotationCast<Quaternion>()(v4(in))); }
VC(conv_cast_vq) { put(out, Math::Util::RotationCast<Quaternion>()(v3(in))); }
VC(conv_cast_qq) { put(out, Math::Util::RotationCast<Quaternion>()(Q(in))); put(out + 4, Math::Util::RotationCast<V4>()(v4(in))); put(out + 8, Math::Util::RotationCast<V3>()(v3(in))); }
VC(conv_cast_qa) { put(out, Math::Util::RotationCast<V4>()(Q(in))); }
VC(conv_cast_va) { put(out, Math::Util::RotationCast<V4>()(v3(in))); }
VC(conv_cast_ma) { put(out, Math::Util::RotationCast<V4>()(m3(in))); }
VC(conv_cast_av) { put(out, Math::Util::RotationCast<V3>()(v4(in))); }
VC(conv_cast_qv) { put(out, Math::Util::RotationCast<V3>()(Q(in))); }
VC(conv_cast_mv) { put(out, Math::Util::RotationCast<V3>()(m3(in))); }
VC(conv_cast_qm) { putm(out, Math::Util::RotationCast<M3>()(Q(in)), 3); }
VC(conv_cast_am) { putm(out, Math::Util::RotationCast<M3>()(v4(in)), 3); }
VC(conv_cast_vm) { putm(out, Math::Util::RotationCast<M3>()(v3(in)), 3); }
VC(conv_cast_qm4) { putm(out, Math::Util::RotationCast<M4>()(Q(in)), 4); }
VC(conv_cast_am4) { putm(out, Math::Util::RotationCast<M4>()(v4(in)), 4); }
