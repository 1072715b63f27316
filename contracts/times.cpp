#include "vc.h"
#include <cstring>
#include <cstdio>
#include <time.h>
#include <sys/time.h>
#include <string>
#include <iostream>
#include <sstream>
#include <iomanip>
#include <algorithm>
#include <boost/shared_ptr.hpp>
#include <utMath/Vector.h>
#include <utMath/Pose.h>
#include <utMeasurement/Measurement.h>
// the clock and the sleeping system call are given by the contract
static long long vc_sec, vc_usec; static long long vc_asec, vc_ansec;
static int vc_gettimeofday(struct timeval* t, void*) { t->tv_sec = vc_sec; t->tv_usec = vc_usec; return 0; }
static int vc_nanosleep(const struct timespec* t, struct timespec*) { vc_asec = t->tv_sec; vc_ansec = t->tv_nsec; return 0; }
#define gettimeofday vc_gettimeofday
#define nanosleep vc_nanosleep
#include SRC(utMeasurement/Timestamp.cpp)
#include SRC(utMeasurement/TimestampSync.cpp)
#include SRC(utUtil/OS.cpp)
#include SRC(utUtil/BlockTimer.cpp)
using namespace Ubitrack; using namespace Ubitrack::Measurement;
namespace U = Ubitrack::Util;
VC(tim_now) { vc_sec = iin[0]; vc_usec = iin[1]; iout[0] = (long long)now(); }
VC(tim_counter) { vc_sec = iin[0]; vc_usec = iin[1]; iout[0] = U::getHighPerformanceCounter(); out[0] = U::getHighPerformanceFrequency(); }
VC(tim_sleep) { vc_asec = vc_ansec = -1; U::sleep((unsigned)iin[0], (unsigned)iin[1]); iout[0] = vc_asec; iout[1] = vc_ansec; }
VC(tim_block) { U::BlockTimer b("t"); vc_sec = iin[0]; vc_usec = iin[1]; { U::BlockTimer::Time t(b); vc_sec = iin[2]; vc_usec = iin[3]; } { vc_sec = iin[4]; vc_usec = iin[5]; U::BlockTimer::Time t(b); vc_sec = iin[6]; vc_usec = iin[7]; }
	out[0] = b.getTotalTime(); out[1] = b.getAvgTime(); iout[0] = (long long)b.getRuns(); iout[1] = b.initialized(); }
VC(tim_block_new) { alignas(16) static char m[sizeof(U::BlockTimer)], g[64]; vc_sec = iin[0]; vc_usec = iin[1]; U::BlockTimer* b = new (m) U::BlockTimer("t", *reinterpret_cast<log4cpp::Category*>(g)); U::BlockTimer c("u");
	iout[0] = (long long)b->getRuns(); iout[1] = b->initialized(); iout[2] = (long long)b->getStartTime(); iout[3] = (long long)c.getRuns(); iout[4] = c.initialized(); iout[5] = (long long)c.getStartTime(); out[0] = b->getTotalTime(); out[1] = c.getTotalTime();
	b->addMeasurement((unsigned long long)iin[2]); iout[6] = (long long)b->getRuns(); out[2] = b->getTotalTime(); out[3] = b->getAvgTime(); }
VC(tim_meas) {
	typedef Ubitrack::Measurement::Measurement<Math::Vector<double, 2> > P; Math::Vector<double, 2> v(in[0], in[1]); Timestamp t = (Timestamp)iin[0], t2 = (Timestamp)iin[1];
	P a(t, v), b(v), c(t), d; boost::shared_ptr<Math::Vector<double, 2> > s(new Math::Vector<double, 2>(v)); P e(s), f(t, s);
	P k = a.clone(), l = c.clone(); P shared = a; (*k)(0) = in[2]; v(1) = in[2]; shared.time(t2); (*f)(1) = in[2];
	out[0] = (*a)(0); out[1] = (*a)(1); out[2] = (*k)(0); out[3] = (*k)(1); out[4] = (*b)(0); out[5] = (*b)(1); out[6] = (*e)(0); out[7] = (*e)(1); out[8] = (*shared)(0);
	iout[0] = (long long)a.time(); iout[1] = (long long)b.time(); iout[2] = (long long)c.time(); iout[3] = (long long)d.time(); iout[4] = (long long)e.time(); iout[5] = (long long)f.time(); iout[6] = (long long)k.time(); iout[7] = (long long)l.time(); iout[8] = (long long)shared.time();
	iout[9] = a.invalid(); iout[10] = d.invalid(); iout[11] = !!a && !c && !l && !d && a.get() != k.get() && a.get() == shared.get(); a.invalidate(); iout[12] = a.invalid(); iout[13] = (long long)a.time(); a.time(t2); iout[14] = (long long)a.time(); }
VC(tim_sync_first) { TimestampSync s(in[0], in[1]); iout[0] = s.getEventCount(); iout[1] = (long long)s.convertNativeToLocal(in[2], (Timestamp)iin[0]); iout[2] = s.getEventCount(); }
VC(tim_sync_now) { TimestampSync s(in[0], in[1]); vc_sec = iin[0]; vc_usec = iin[1]; iout[0] = (long long)s.convertNativeToLocal(in[2]); }
// a history: in: native frequency, local frequency, then native times; iin: number of events, then local times
VC(tim_sync_hist) { TimestampSync s(in[0], in[1]); for (int i = 0; i < iin[0]; i++) iout[i] = (long long)s.convertNativeToLocal(in[2 + i], (Timestamp)iin[1 + i]); }
VC(tim_str) { std::string a = timestampToShortString((Timestamp)iin[0]), b = timestampToString((Timestamp)iin[0]); iout[0] = a.size(); iout[1] = b.size(); for (std::size_t i = 0; i < 40; i++) { iout[2 + i] = i < a.size() ? a[i] : 0; iout[42 + i] = i < b.size() ? b[i] : 0; } }
