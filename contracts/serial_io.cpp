#include "vc.h"
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <sstream>
#include <fstream>
#include <vector>
#include <utSerialization/Serialization.h>
#include <utMath/Scalar.h>
#include <utMath/Vector.h>
#include <utMath/Matrix.h>
#include <utMath/Quaternion.h>
#include <utMath/Pose.h>
#include <utMath/ErrorPose.h>
#include <utMath/ErrorVector.h>
#include <utMath/RotationVelocity.h>
#include <utMath/CameraIntrinsics.h>
#include <utMeasurement/Measurement.h>
#include <utUtil/CalibFile.h>
#include <utUtil/SimpleStringIArchive.h>
#include <utUtil/SimpleStringOArchive.h>
#include SRC(utMath/Quaternion.cpp)
#include SRC(utMath/Pose.cpp)
#include SRC(utMath/ErrorPose.cpp)
#include SRC(utMeasurement/Timestamp.cpp)
#include SRC(utUtil/Exception.cpp)
using namespace Ubitrack; using namespace Ubitrack::Serialization;
namespace M = Ubitrack::Math;
#include "serial_types.h"
template<class V> static void same(const V& v, V& w) {}
// one value through every real channel; the results lie one after the other in out
template<class V> static void through(int ch, const V& v, V& w) {
	std::stringstream s;
	if (ch == 0) { serialize(PROTOCOL_BOOST_TEXT, s, v); boost::archive::text_iarchive a(s); BoostArchive::deserialize(a, w); }
	if (ch == 1) { serialize(PROTOCOL_BOOST_BINARY, s, v); boost::archive::binary_iarchive a(s); BoostArchive::deserialize(a, w); }
	if (ch == 2) { serialize(PROTOCOL_MSGPACK, s, v); std::string b = s.str(); msgpack::unpacker p; p.reserve_buffer(b.size()); memcpy(p.buffer(), b.data(), b.size()); p.buffer_consumed(b.size()); MsgpackArchive::deserialize(p, w); }
}
struct File { char name[64]; File() { strcpy(name, "/tmp/vc_calib_XXXXXX"); int f = mkstemp(name); if (f >= 0) close(f); } ~File() { unlink(name); } };
template<class T> static void rt(const double* in, double* out) {
	typedef typename Un<T>::type V; V v = Io<T>::make(in); const int n = Io<T>::n;
	for (int ch = 0; ch < 3; ch++) { V w = V(); through(ch, v, w); Io<T>::flat(w, out + ch*n); }
	{ File f; Util::writeCalibFile(f.name, v); V w = V(); Util::readCalibFile(f.name, w); Io<T>::flat(w, out + 3*n); }
	{ File f; Util::writeBinaryCalibFile(f.name, v); V w = V(); Util::readBinaryCalibFile(f.name, w); Io<T>::flat(w, out + 4*n); }
}
template<class T> static void mrt(const double* in, double* out, const long long* iin, long long* iout) {
	Measurement::Measurement<T> v((Measurement::Timestamp)iin[0], Io<T>::make(in)); const int n = Io<T>::n;
	for (int ch = 0; ch < 3; ch++) { Measurement::Measurement<T> w(0, boost::shared_ptr<T>(new T())); through(ch, v, w); Io<T>::flat(*w, out + ch*n); iout[ch] = w.time(); }
	{ File f; Util::writeCalibFile(f.name, v); Measurement::Measurement<T> w; Util::readCalibFile(f.name, w); Io<T>::flat(*w, out + 3*n); iout[3] = w.time(); }
	{ File f; Util::writeCalibFile(f.name, v); T w; Util::readCalibFileDropMeasurement(f.name, w); Io<T>::flat(w, out + 4*n); iout[4] = v.time(); }
}
template<class T> static void str(const double* in, double* out) { typedef typename Un<T>::type V; V v = Io<T>::make(in), w = V(); Util::SimpleStringOArchive o; o << v; Util::SimpleStringIArchive i(o.str()); i >> w; Io<T>::flat(w, out); }
#define KI ki = iin; ko = iout;
#define RT(name, ...) VC(ser_io_##name) { KI rt<__VA_ARGS__ >(in, out); }
#define MRT(name, ...) VC(ser_iom_##name) { KI mrt<__VA_ARGS__ >(in, out, iin, iout); }
#define ST(name, ...) VC(ser_str_##name) { KI str<__VA_ARGS__ >(in, out); }
RT(mat34, M::Matrix<double, 3, 4>)
RT(pose, M::Pose)
RT(epose, M::ErrorPose)
RT(evec3, M::ErrorVector<double, 3>)
RT(cam3, Cam<3>)
RT(poses, std::vector<M::Pose>)
MRT(pose, M::Pose)
MRT(epose, M::ErrorPose)
MRT(list, std::vector<M::Vector<double, 3> >)
ST(io_vec3, M::Vector<double, 3>)
ST(io_pose, M::Pose)
ST(io_mat33, M::Matrix<double, 3, 3>)
VC(ser_io_missing) { M::Pose p; int n = 0; try { Util::readCalibFile("/nonexistent/vc/calib", p); } catch (const Util::Exception&) { n |= 1; } try { Util::readBinaryCalibFile("/nonexistent/vc/calib", p); } catch (const Util::Exception&) { n |= 2; } try { Util::writeCalibFile("/nonexistent/vc/calib", p); } catch (const Util::Exception&) { n |= 4; }
	{ File f; { std::ofstream o(f.name); o << "no archive"; } try { Util::readCalibFile(f.name, p); } catch (const Util::Exception&) { n |= 8; } }
	Measurement::Pose m; try { Util::readCalibFile("/nonexistent/vc/calib", m); } catch (const Util::Exception&) { n |= 16; } iout[0] = n; }
// files which are no archive, hold another type or end early, unknown protocols, strings that end early
template<class F> static int refused(F f) { try { f(); } catch (const Util::Exception&) { return 1; } catch (...) { return 2; } return 0; }
struct Text { Text(const char* n, const std::string& s) { std::ofstream o(n, std::ios::binary); o << s; } };
static std::string slurp(const char* n) { std::ifstream i(n, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
template<class T> static void badfile(const double* in, long long* iout, int n0) {
	T v = Io<T>::make(in), w; Measurement::Measurement<T> m((Measurement::Timestamp)5, Io<T>::make(in)), q; File f; int k = 0;
	Text a(f.name, "no archive");
	iout[k++] = refused([&] { Util::readCalibFile(f.name, w); }); iout[k++] = refused([&] { Util::readCalibFile(f.name, q); }); iout[k++] = refused([&] { Util::readCalibFileDropMeasurement(f.name, w); }); iout[k++] = refused([&] { Util::readBinaryCalibFile(f.name, w); });
	Text b(f.name, "");
	iout[k++] = refused([&] { Util::readCalibFile(f.name, w); }); iout[k++] = refused([&] { Util::readCalibFile(f.name, q); }); iout[k++] = refused([&] { Util::readCalibFileDropMeasurement(f.name, w); }); iout[k++] = refused([&] { Util::readBinaryCalibFile(f.name, w); });
	Util::writeCalibFile(f.name, v); std::string s = slurp(f.name); Text c(f.name, s.substr(0, s.size() * n0 / 100)); iout[k++] = refused([&] { Util::readCalibFile(f.name, w); });
	Util::writeCalibFile(f.name, m); s = slurp(f.name); Text d(f.name, s.substr(0, s.size() * n0 / 100)); iout[k++] = refused([&] { Util::readCalibFile(f.name, q); }); iout[k++] = refused([&] { Util::readCalibFileDropMeasurement(f.name, w); });
	Util::writeBinaryCalibFile(f.name, v); s = slurp(f.name); Text e(f.name, s.substr(0, s.size() * n0 / 100)); iout[k++] = refused([&] { Util::readBinaryCalibFile(f.name, w); });
	std::stringstream u; iout[k++] = refused([&] { serialize(PROTOCOL_UNKNOWN, u, v); });
	Util::SimpleStringOArchive o; o << v; s = o.str(); s = s.substr(0, s.size() * n0 / 100); s = s.substr(0, s.find_last_of(' ') + 1); Util::SimpleStringIArchive i(s); iout[k++] = refused([&] { i >> w; });
}
VC(ser_io_bad_pose) { badfile<M::Pose>(in, iout, (int)iin[0]); }
VC(ser_io_bad_mat33) { badfile<M::Matrix<double, 3, 3> >(in, iout, (int)iin[0]); }
VC(ser_io_bad_epose) { badfile<M::ErrorPose>(in, iout, (int)iin[0]); }
// a matrix whose size is not part of its type is refused by msgpack, which does not store sizes
VC(ser_io_dynmat) {
	M::Matrix<double, 0, 0> m(2, 2); m(0, 0) = in[0]; m(0, 1) = in[1]; m(1, 0) = in[2]; m(1, 1) = in[3]; iout[0] = iout[1] = 0;
	std::stringstream s; try { serialize(PROTOCOL_MSGPACK, s, m); } catch (const msgpack::type_error&) { iout[0] = 1; }
	msgpack::zone z; msgpack::object::with_zone o(z); try { msgpack::adaptor::object_with_zone<M::Matrix<double, 0, 0> >()(o, m); } catch (const msgpack::type_error&) { iout[1] = 1; }
}
