#include "vc.h"
#include <cstring>
#include <sstream>
#include <fstream>
#include <vector>
#include <utSerialization/Serialization.h>
#include <utMath/Scalar.h>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Quaternion.h>
#include <utMath/Pose.h>
#include <utMath/ErrorPose.h>
#include <utMath/ErrorVector.h>
#include <utMath/RotationVelocity.h>
#include <utMath/CameraIntrinsics.h>
#include <utMeasurement/Measurement.h>
#include SRC(utMath/Quaternion.cpp)
#include SRC(utMath/Pose.cpp)
#include SRC(utMath/ErrorPose.cpp)
#include SRC(utMeasurement/Timestamp.cpp)
#include SRC(utUtil/Exception.cpp)
using namespace Ubitrack;
namespace M = Ubitrack::Math;

#include "serial_types.h"

// A generic archive in the sense of boost::serialization: it stores the numbers it is given in order and hands them out in order.
struct Tape {
	double r[160]; unsigned long long k[160]; char tag[160]; int w, p, load, bad;
	explicit Tape() : w(0), p(0), load(0), bad(0) {}
	typedef boost::mpl::bool_<false> is_loading_; 
	void num(double& v) { if (load) { if (p >= w || tag[p] != 'd') bad = 1; else v = r[p++]; } else { r[w] = v; tag[w++] = 'd'; } }
	template<class I> void integer(I& v) { if (load) { if (p >= w || tag[p] != 'i') bad = 1; else v = (I)k[p++]; } else { k[w] = (unsigned long long)v; tag[w++] = 'i'; } }
};
template<bool L> struct Arch {
	typedef boost::mpl::bool_<L> is_loading; typedef boost::mpl::bool_<!L> is_saving;
	Tape& t; explicit Arch(Tape& x) : t(x) { t.load = L; }
	Arch& operator&(double& v) { t.num(v); return *this; }
	Arch& operator&(int& v) { t.integer(v); return *this; }
	Arch& operator&(unsigned long& v) { t.integer(v); return *this; }
	Arch& operator&(unsigned long long& v) { t.integer(v); return *this; }
	template<class T> Arch& operator&(T& v) { boost::serialization::serialize(*this, v, 0u); return *this; }
	template<class T> Arch& operator&(std::vector<T>& v) { unsigned long n = v.size(); *this & n; if (L) v.resize(n); for (unsigned long i = 0; i < n; i++) *this & v[i]; return *this; }
};
// msgpack: the packer records the sequence it is given as a tree of objects
struct Pack { msgpack::object o[160]; int used; msgpack::object* st[16]; int left[16]; int d; };
namespace msgpack { MSGPACK_API_VERSION_NAMESPACE(v1) {
template<> class packer<Pack> {
	Pack& p;
	msgpack::object& slot() { while (p.d > 0 && p.left[p.d - 1] == 0) --p.d; if (p.d == 0) return p.o[p.used++]; --p.left[p.d - 1]; return *p.st[p.d - 1]++; }
public:
	packer(Pack* x) : p(*x) {} packer(Pack& x) : p(x) {}
	packer& pack_array(uint32_t n) { msgpack::object& s = slot(); s.type = type::ARRAY; s.via.array.size = n; s.via.array.ptr = p.o + p.used; p.st[p.d] = p.o + p.used; p.left[p.d] = n; ++p.d; p.used += n; return *this; }
	packer& pack_nil() { slot().type = type::NIL; return *this; }
	packer& pack(const double& v) { msgpack::object& s = slot(); s.type = type::FLOAT64; s.via.f64 = v; return *this; }
	packer& pack(const int& v) { msgpack::object& s = slot(); if (v < 0) { s.type = type::NEGATIVE_INTEGER; s.via.i64 = v; } else { s.type = type::POSITIVE_INTEGER; s.via.u64 = v; } return *this; }
	packer& pack(const unsigned long& v) { msgpack::object& s = slot(); s.type = type::POSITIVE_INTEGER; s.via.u64 = v; return *this; }
	packer& pack(const unsigned long long& v) { msgpack::object& s = slot(); s.type = type::POSITIVE_INTEGER; s.via.u64 = v; return *this; }
	template<class T> packer& pack(const T& v) { msgpack::adaptor::pack<T>()(*this, v); return *this; }
};
} }

template<class T> static void tape(const double* in, double* out, long long* iout) {
	typedef typename Un<T>::type V; Tape t; V v = Io<T>::make(in), w = V();
	{ Arch<false> a(t); a & v; } { Arch<true> a(t); a & w; }
	iout[0] = t.bad; iout[1] = t.p == t.w; Io<T>::flat(w, out);
}
template<class T> static void mtape(const double* in, double* out, const long long* iin, long long* iout) {
	Tape t; Measurement::Measurement<T> v((Measurement::Timestamp)iin[0], Io<T>::make(in)), w(boost::shared_ptr<T>(new T()));
	{ Arch<false> a(t); a & v; } { Arch<true> a(t); a & w; }
	iout[0] = t.bad; iout[1] = t.p == t.w; iout[2] = (long long)w.time(); Io<T>::flat(*w, out);
}
template<class T> static void mpack(const double* in, double* out, long long* iout) {
	typedef typename Un<T>::type V; static Pack p; p.used = 0; p.d = 0; V v = Io<T>::make(in), w = V();
	msgpack::packer<Pack> k(p); k.pack(v); msgpack::adaptor::convert<V>()(p.o[0], w);
	iout[0] = 0; iout[1] = 1; Io<T>::flat(w, out);
}
template<class T> static void mmpack(const double* in, double* out, const long long* iin, long long* iout) {
	static Pack p; p.used = 0; p.d = 0; Measurement::Measurement<T> v((Measurement::Timestamp)iin[0], Io<T>::make(in)), w;
	msgpack::packer<Pack> k(p); k.pack(v); msgpack::adaptor::convert<Measurement::Measurement<T> >()(p.o[0], w);
	iout[0] = 0; iout[1] = !!w; iout[2] = (long long)w.time(); Io<T>::flat(*w, out);
}
template<class T> static void asval(const double* in, double* out, long long* iout) {
	typedef typename Un<T>::type V; static Pack p; p.used = 0; p.d = 0; V v = Io<T>::make(in);
	msgpack::packer<Pack> k(p); k.pack(v); V w = p.o[0].as<V>();
	iout[0] = 0; iout[1] = 1; Io<T>::flat(w, out);
}
template<class T> static void masval(const double* in, double* out, const long long* iin, long long* iout) {
	static Pack p; p.used = 0; p.d = 0; Measurement::Measurement<T> v((Measurement::Timestamp)iin[0], Io<T>::make(in));
	msgpack::packer<Pack> k(p); k.pack(v); Measurement::Measurement<T> w = p.o[0].as<Measurement::Measurement<T> >();
	iout[0] = 0; iout[1] = !!w; iout[2] = (long long)w.time(); Io<T>::flat(*w, out);
}
template<class T> static void mmobj(const double* in, double* out, const long long* iin, long long* iout) {
	Measurement::Measurement<T> v((Measurement::Timestamp)iin[0], Io<T>::make(in)), w; msgpack::zone z; msgpack::object::with_zone o(z);
	msgpack::adaptor::object_with_zone<Measurement::Measurement<T> >()(o, v); msgpack::adaptor::convert<Measurement::Measurement<T> >()(o, w);
	iout[0] = 0; iout[1] = !!w; iout[2] = (long long)w.time(); Io<T>::flat(*w, out);
}
template<class T> static void mobj(const double* in, double* out, long long* iout) {
	typedef typename Un<T>::type V; msgpack::zone z; V v = Io<T>::make(in), w = V(); msgpack::object::with_zone o(z);
	msgpack::adaptor::object_with_zone<V>()(o, v); msgpack::adaptor::convert<V>()(o, w);
	iout[0] = 0; iout[1] = 1; Io<T>::flat(w, out);
}
#define KI ki = iin; ko = iout;
#define ALL(name, ...) VC(ser_tape_##name) { KI tape<__VA_ARGS__ >(in, out, iout); } VC(ser_pack_##name) { KI mpack<__VA_ARGS__ >(in, out, iout); } VC(ser_obj_##name) { KI mobj<__VA_ARGS__ >(in, out, iout); } VC(ser_as_##name) { KI asval<__VA_ARGS__ >(in, out, iout); }
#define MEAS(name, ...) VC(ser_tape_m_##name) { KI mtape<__VA_ARGS__ >(in, out, iin, iout); } VC(ser_pack_m_##name) { KI mmpack<__VA_ARGS__ >(in, out, iin, iout); } VC(ser_as_m_##name) { KI masval<__VA_ARGS__ >(in, out, iin, iout); } VC(ser_obj_m_##name) { KI mmobj<__VA_ARGS__ >(in, out, iin, iout); }
ALL(scalar, M::Scalar<double>)
ALL(int, M::Scalar<int>)
ALL(vec2, M::Vector<double, 2>)
ALL(vec3, M::Vector<double, 3>)
ALL(vec8, M::Vector<double, 8>)
ALL(mat33, M::Matrix<double, 3, 3>)
ALL(mat34, M::Matrix<double, 3, 4>)
ALL(mat43, M::Matrix<double, 4, 3>)
ALL(mat44, M::Matrix<double, 4, 4>)
ALL(quat, M::Quaternion)
ALL(pose, M::Pose)
ALL(epose, M::ErrorPose)
ALL(evec2, M::ErrorVector<double, 2>)
ALL(evec3, M::ErrorVector<double, 3>)
ALL(velocity, M::RotationVelocity)
ALL(cam2, Cam<2>)
ALL(cam3, Cam<3>)
ALL(cam6, Cam<6>)
ALL(poses, std::vector<M::Pose>)
VC(ser_pack_dyn) { mpack<M::Vector<double, 0> >(in, out, iout); }
VC(ser_as_dyn) { asval<M::Vector<double, 0> >(in, out, iout); }
VC(ser_obj_dyn) { mobj<M::Vector<double, 0> >(in, out, iout); }
MEAS(pose, M::Pose)
MEAS(int, M::Scalar<int>)
MEAS(pos, M::Vector<double, 3>)
MEAS(epose, M::ErrorPose)
MEAS(list, std::vector<M::Vector<double, 3> >)

// malformed input: a valid object whose outer array is given another length (iin[0]) or another type
template<class T> static void bad(const double* in, const long long* iin, int type) {
	typedef typename Un<T>::type V; static Pack p; p.used = 0; p.d = 0; V v = Io<T>::make(in), w = V();
	msgpack::packer<Pack> k(p); k.pack(v); if (type) p.o[0].type = (msgpack::type::object_type)type; else p.o[0].via.array.size = (uint32_t)iin[0];
	if (iin[3]) w = p.o[0].as<V>(); else msgpack::adaptor::convert<V>()(p.o[0], w);
}
#define BAD(name, ...) VC(ser_len_##name) { KI bad<__VA_ARGS__ >(in, iin, 0); iout[0] = 1; } VC(ser_str_##name) { KI bad<__VA_ARGS__ >(in, iin, msgpack::type::STR); iout[0] = 1; }
BAD(vec3, M::Vector<double, 3>)
BAD(mat34, M::Matrix<double, 3, 4>)
BAD(quat, M::Quaternion)
BAD(pose, M::Pose)
BAD(epose, M::ErrorPose)
BAD(evec3, M::ErrorVector<double, 3>)
BAD(cam2, Cam<2>)

// an empty measurement is written as nil and read back as an invalid, empty one
VC(ser_nil) {
	static Pack p; p.used = 0; p.d = 0; Measurement::Measurement<M::Pose> v, w((Measurement::Timestamp)7, M::Pose());
	msgpack::packer<Pack> k(p); k.pack(v); msgpack::adaptor::convert<Measurement::Measurement<M::Pose> >()(p.o[0], w);
	Measurement::Measurement<M::Pose> a = p.o[0].as<Measurement::Measurement<M::Pose> >();
	msgpack::zone z; msgpack::object::with_zone o(z); msgpack::adaptor::object_with_zone<Measurement::Measurement<M::Pose> >()(o, v);
	iout[0] = p.used == 1 && p.o[0].type == msgpack::type::NIL; iout[1] = !w && w.invalid(); iout[2] = !a && a.invalid(); iout[3] = o.type == msgpack::type::NIL;
}
// a measurement of another length or type is refused
VC(ser_badm) {
	static Pack p; p.used = 0; p.d = 0; Measurement::Measurement<M::Vector<double, 3> > v((Measurement::Timestamp)5, M::Vector<double, 3>(in[0], in[1], in[2])), w;
	msgpack::packer<Pack> k(p); k.pack(v); p.o[0].via.array.size = (uint32_t)iin[0]; if (iin[1]) p.o[0].type = msgpack::type::STR;
	if (iin[3]) w = p.o[0].as<Measurement::Measurement<M::Vector<double, 3> > >(); else msgpack::adaptor::convert<Measurement::Measurement<M::Vector<double, 3> > >()(p.o[0], w);
	iout[0] = 1;
}
