#include "vc.h"
#include <string>
#include <utMeasurement/TimestampSync.h>
#include SRC(utMeasurement/TimestampSync.cpp)
namespace Ubitrack { namespace Measurement { Timestamp now() { return 0; } } }
using namespace Ubitrack::Measurement;
// one step from an arbitrary state of the filter
struct S : TimestampSync {
	S() : TimestampSync(1000.0) {}
	void set(const double* in, const long long* iin) { m_lastNative = in[1]; m_estGain = in[2]; m_p1 = in[3]; m_p2 = in[4]; m_p3 = in[5]; m_fLocalNoise = in[6]; m_fGainNoise = in[7]; m_fMeasurementNoise = in[8]; m_avgDeviationSquare = in[9]; m_estLocal = (Timestamp)iin[1]; m_outlierBudget = (int)iin[2]; m_events = (unsigned)iin[3]; }
	void noise(double* out) { out[0] = m_fLocalNoise; out[1] = m_fGainNoise; out[2] = m_fMeasurementNoise; }
	void get(double* out, long long* iout) { out[0] = m_estGain; out[1] = m_p1; out[2] = m_p2; out[3] = m_p3; out[4] = m_avgDeviationSquare; out[5] = m_lastNative; iout[1] = (long long)m_estLocal; iout[2] = m_outlierBudget; iout[3] = m_events; }
};
VC(tim_step) { S s; s.set(in, iin); iout[0] = (long long)s.convertNativeToLocal(in[0], (Timestamp)iin[0]); s.get(out, iout); }
VC(tim_freq) { S s; s.setFrequency(in[0], in[1]); long long d[4]; s.get(out, d); s.noise(out + 6); }
