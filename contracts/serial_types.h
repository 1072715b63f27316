// A value is built from numbers and read back into numbers through its public interface.
template<class T> struct Io;
static const long long* ki; static long long* ko;
template<> struct Io<M::Scalar<double> > { enum { n = 1 }; static M::Scalar<double> make(const double* d) { return M::Scalar<double>(d[0]); } static void flat(const M::Scalar<double>& v, double* o) { o[0] = v.m_value; } };
template<> struct Io<M::Scalar<int> > { enum { n = 1 }; static M::Scalar<int> make(const double* d) { return M::Scalar<int>((int)ki[1]); } static void flat(const M::Scalar<int>& v, double* o) { o[0] = 0; ko[3] = v.m_value; } };
template<std::size_t N> struct Io<M::Vector<double, N> > { enum { n = N }; static M::Vector<double, N> make(const double* d) { M::Vector<double, N> v; for (std::size_t i = 0; i < N; i++) v(i) = d[i]; return v; } static void flat(const M::Vector<double, N>& v, double* o) { for (std::size_t i = 0; i < N; i++) o[i] = v(i); } };
template<> struct Io<M::Vector<double, 0> > { enum { n = 5 }; static M::Vector<double, 0> make(const double* d) { M::Vector<double, 0> v(5); for (std::size_t i = 0; i < 5; i++) v(i) = d[i]; return v; } static void flat(const M::Vector<double, 0>& v, double* o) { for (std::size_t i = 0; i < 5; i++) o[i] = v.size() == 5 ? v(i) : -1e9; } };
template<std::size_t R, std::size_t C> struct Io<M::Matrix<double, R, C> > { enum { n = R*C }; static M::Matrix<double, R, C> make(const double* d) { M::Matrix<double, R, C> v; for (std::size_t i = 0; i < R; i++) for (std::size_t j = 0; j < C; j++) v(i, j) = d[i*C + j]; return v; }
	static void flat(const M::Matrix<double, R, C>& v, double* o) { for (std::size_t i = 0; i < R; i++) for (std::size_t j = 0; j < C; j++) o[i*C + j] = v(i, j); } };
template<> struct Io<M::Quaternion> { enum { n = 4 }; static M::Quaternion make(const double* d) { return M::Quaternion(d[0], d[1], d[2], d[3]); } static void flat(const M::Quaternion& v, double* o) { o[0] = v.x(); o[1] = v.y(); o[2] = v.z(); o[3] = v.w(); } };
template<> struct Io<M::Pose> { enum { n = 7 }; static M::Pose make(const double* d) { return M::Pose(Io<M::Quaternion>::make(d), Io<M::Vector<double, 3> >::make(d + 4)); } static void flat(const M::Pose& v, double* o) { Io<M::Quaternion>::flat(v.rotation(), o); Io<M::Vector<double, 3> >::flat(v.translation(), o + 4); } };
template<> struct Io<M::ErrorPose> { enum { n = 43 }; static M::ErrorPose make(const double* d) { return M::ErrorPose(Io<M::Quaternion>::make(d), Io<M::Vector<double, 3> >::make(d + 4), Io<M::Matrix<double, 6, 6> >::make(d + 7)); } static void flat(const M::ErrorPose& v, double* o) { Io<M::Pose>::flat(v, o); Io<M::Matrix<double, 6, 6> >::flat(v.covariance(), o + 7); } };
template<std::size_t N> struct Io<M::ErrorVector<double, N> > { enum { n = N + N*N }; static M::ErrorVector<double, N> make(const double* d) { return M::ErrorVector<double, N>(Io<M::Vector<double, N> >::make(d), Io<M::Matrix<double, N, N> >::make(d + N)); } static void flat(const M::ErrorVector<double, N>& v, double* o) { Io<M::Vector<double, N> >::flat(v.value, o); Io<M::Matrix<double, N, N> >::flat(v.covariance, o + N); } };
template<> struct Io<M::RotationVelocity> { enum { n = 3 }; static M::RotationVelocity make(const double* d) { return M::RotationVelocity(d[0], d[1], d[2]); } static void flat(const M::RotationVelocity& v, double* o) { for (int i = 0; i < 3; i++) o[i] = v(i); } };
// intrinsics with R radial parameters
template<int R> struct Cam { typedef M::CameraIntrinsics<double> T; };
template<class T> struct Un { typedef T type; };
template<int R> struct Un<Cam<R> > { typedef M::CameraIntrinsics<double> type; };
template<int R> struct Io<Cam<R> > { enum { n = 11 + R }; static M::CameraIntrinsics<double> make(const double* d) { M::Vector<double, R> r; for (int i = 0; i < R; i++) r(i) = d[11 + i]; M::Vector<double, 2> t(d[9], d[10]); return M::CameraIntrinsics<double>(Io<M::Matrix<double, 3, 3> >::make(d), r, t, (std::size_t)ki[1], (std::size_t)ki[2]); }
	static void flat(const M::CameraIntrinsics<double>& v, double* o) { Io<M::Matrix<double, 3, 3> >::flat(v.matrix, o); o[9] = v.tangential_params(0); o[10] = v.tangential_params(1); ko[3] = v.dimension(0); ko[4] = v.dimension(1); for (int i = 0; i < R; i++) o[11 + i] = v.radial_params(i); ko[5] = v.radial_size; ko[6] = v.calib_type; } };
template<class T> struct Io<std::vector<T> > { enum { n = 2*Io<T>::n + 1 }; static std::vector<T> make(const double* d) { std::vector<T> v; v.push_back(Io<T>::make(d)); v.push_back(Io<T>::make(d + Io<T>::n)); return v; }
	static void flat(const std::vector<T>& v, double* o) { o[2*Io<T>::n] = v.size(); if (v.size() == 2) { Io<T>::flat(v[0], o); Io<T>::flat(v[1], o + Io<T>::n); } } };

