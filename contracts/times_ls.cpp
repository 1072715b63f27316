#include "vc.h"
#include <cmath>
#include <string>
#include <utMeasurement/TimestampSyncLS.h>
namespace Ubitrack { namespace Measurement { Timestamp now() { return 0; } } }
using namespace Ubitrack::Measurement;
VC(tim_ls_hist) { TimestampSyncLS s; for (int i = 0; i < iin[0]; i++) iout[i] = (long long)s.convertNativeToLocal(in[i], (Timestamp)iin[1 + i]); iout[iin[0]] = s.getEventCount(); }
// one step from an arbitrary state of the regression
struct SL : TimestampSyncLS {
	void set(const double* in, const long long* iin) { m_avgNative = in[1]; m_avgNativeSquare = in[2]; m_avgLocal = in[3]; m_avgLocalNative = in[4]; m_avgDeviationSquare = in[5]; m_firstLocal = (Timestamp)iin[1]; m_outlierBudget = (int)iin[2]; m_events = (unsigned)iin[3]; }
	void get(double* out, long long* iout) { out[0] = m_avgNative; out[1] = m_avgNativeSquare; out[2] = m_avgLocal; out[3] = m_avgLocalNative; out[4] = m_avgDeviationSquare; iout[1] = (long long)m_firstLocal; iout[2] = m_outlierBudget; iout[3] = m_events; }
};
VC(tim_ls_step) { SL s; s.set(in, iin); iout[0] = (long long)s.convertNativeToLocal(in[0], (Timestamp)iin[0]); s.get(out, iout); }
VC(tim_ls_init) { SL s; s.get(out, iout); iout[0] = (long long)s.convertNativeToLocal(in[0], (Timestamp)iin[0]); s.get(out + 5, iout + 3); }
