From 50d22d200b62545eeb18a57e6d513c0f47661dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:27 +0000
Subject: [PATCH 01/52] fix: matrix to quaternion conversion loses rotations by
 180 degrees

The trace branch was taken for any positive T, also when T is pure rounding
noise; the result then was the identity instead of the half turn.
---
 src/utMath/Quaternion.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Quaternion.cpp b/src/utMath/Quaternion.cpp
index 793c624..1bcfe7b 100644
--- a/src/utMath/Quaternion.cpp
+++ b/src/utMath/Quaternion.cpp
@@ -37,7 +37,8 @@ Quaternion::Quaternion( const Math::Matrix< double, 0, 0 >& mat )
 	double S, X, Y, Z, W;
 	double T = 1.0 + mat(0,0) + mat(1,1) + mat(2,2);
 
-	if (T > 0) {
+	// for rotations close to 180 degrees T is dominated by rounding errors
+	if (T > 1e-6) {
 		S = sqrt(T) * 2;
 		X = ( mat(1,2) - mat(2,1) ) / S;
 		Y = ( mat(2,0) - mat(0,2) ) / S;
-- 
2.43.0


From 4a30fdb1119704a829ed726e2efaf196bbbcf353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:27 +0000
Subject: [PATCH 02/52] fix: sign of the first Euler angle at the lower pole

With beta = -pi/2 and gamma = 0 the remaining rotation is about the first
axis by +2*atan2(x,w), exactly as at the upper pole.
---
 src/utMath/Quaternion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Quaternion.cpp b/src/utMath/Quaternion.cpp
index 1bcfe7b..9b704d2 100644
--- a/src/utMath/Quaternion.cpp
+++ b/src/utMath/Quaternion.cpp
@@ -189,7 +189,7 @@ Vector< double, 3 > Quaternion::getEulerAngles( Quaternion::t_EulerSequence seq
 	// Singularity at south pole
 	if ( beta < -0.998 ) 
 	{
-		alpha = -2 * atan2( x_, w_ );
+		alpha = 2 * atan2( x_, w_ );
 		beta  = -boost::math::constants::pi<double>() / 2;
 		gamma = 0;
 
-- 
2.43.0


From 32c059a93e8b1bb84a076945fbd2558677b1dc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:36 +0000
Subject: [PATCH 03/52] fix: sign of the rotation error when inverting a pose
 with covariance

---
 src/utMath/ErrorPose.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index d34f432..517fe04 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -114,21 +114,21 @@ void inversionJacobian( Matrix< double, 6, 6 >& j, const Pose& p )
 	j( 3, 0 ) = 0.;
 	j( 3, 1 ) = 0.;
 	j( 3, 2 ) = 0.;
-	j( 3, 3 ) = 1. + t5445 + t5446;
-	j( 3, 4 ) = 2. * t5364 * t5369 - 2. * t5362 * t5371;
-	j( 3, 5 ) = 2. * t5430;
+	j( 3, 3 ) =  - 1. - t5445 - t5446;
+	j( 3, 4 ) =  - 2. * t5364 * t5369 + 2. * t5362 * t5371;
+	j( 3, 5 ) =  - 2. * t5430;
 	j( 4, 0 ) = 0.;
 	j( 4, 1 ) = 0.;
 	j( 4, 2 ) = 0.;
-	j( 4, 3 ) = 2. * t5373;
-	j( 4, 4 ) = 1. + t5446 + t5453;
-	j( 4, 5 ) =  - 2. * t5362 * t5364 + 2. * t5369 * t5371;
+	j( 4, 3 ) =  - 2. * t5373;
+	j( 4, 4 ) =  - 1. - t5446 - t5453;
+	j( 4, 5 ) = 2. * t5362 * t5364 - 2. * t5369 * t5371;
 	j( 5, 0 ) = 0.;
 	j( 5, 1 ) = 0.;
 	j( 5, 2 ) = 0.;
-	j( 5, 3 ) =  - 2. * t5362 * t5369 + 2. * t5364 * t5371;
-	j( 5, 4 ) = 2. * t5410;
-	j( 5, 5 ) = 1. + t5445 + t5453;
+	j( 5, 3 ) = 2. * t5362 * t5369 - 2. * t5364 * t5371;
+	j( 5, 4 ) =  - 2. * t5410;
+	j( 5, 5 ) =  - 1. - t5445 - t5453;
 }
 
 
-- 
2.43.0


From 06243450bda4cb70632385107325efdbde4a03d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:59 +0000
Subject: [PATCH 04/52] fix: invertMultiply propagated the covariance of A * B
 instead of A^-1 * B

---
 src/utMath/ErrorPose.cpp | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index 517fe04..564adf8 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -590,20 +590,8 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector<
 
 ErrorPose invertMultiply( const ErrorPose& a, const ErrorPose& b )
 {
-	// covariance transform
-	Matrix< double, 6, 6 > jacobian1;
-	Matrix< double, 6, 6 > jacobian2;
-	Matrix< double, 6, 6 > tmp;
-	Matrix< double, 6, 6 > newCovariance;
-	multiplicationJacobians( jacobian1, jacobian2, a, b );
-	
-	// here we could save some time by regarding the zero and identity blocks of the jacobians...
-	noalias( tmp ) = ublas::prod( jacobian1, a.covariance() );
-	noalias( newCovariance ) = ublas::prod( tmp, ublas::trans( jacobian1 ) );
-	noalias( tmp ) = ublas::prod( jacobian2, b.covariance() );
-	noalias( newCovariance ) += ublas::prod( tmp, ublas::trans( jacobian2 ) );
-
-	return ErrorPose( ~static_cast< const Pose& >( a ) * static_cast< const Pose& >( b ), newCovariance );
+	// the errors of a and b are independent, so chaining the two operations gives the covariance of A^-1 * B
+	return ( ~a ) * b;
 }
 
 
-- 
2.43.0


From 1ba2847f1c9e6ffa88087e358f3d1b2b2d7f84dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:59 +0000
Subject: [PATCH 05/52] fix: pose times vector with errors ignored the
 covariance of the vector

---
 src/utMath/ErrorPose.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index 564adf8..5e655b8 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -584,6 +584,12 @@ ErrorVector< double, 3 > operator*( const ErrorPose& a, const Math::ErrorVector<
 	noalias( tmp ) = ublas::prod( jacobian, a.covariance() );
 	noalias( newCovariance ) = ublas::prod( tmp, ublas::trans( jacobian ) );
 
+	// add the rotated error of the vector
+	const Matrix< double, 3, 3 > rotation( a.rotation() );
+	Matrix< double, 3, 3 > tmp2;
+	noalias( tmp2 ) = ublas::prod( rotation, b.covariance );
+	noalias( newCovariance ) += ublas::prod( tmp2, ublas::trans( rotation ) );
+
 	return ErrorVector< double, 3 >( static_cast< const Pose& >( a ) * b.value, newCovariance );
 }
 
-- 
2.43.0


From 136acf75e27aac703124541030023bedf1f7eb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:39 +0000
Subject: [PATCH 06/52] fix: conversion between multiplicative and additive
 pose errors used the conjugate rotation

---
 src/utMath/ErrorPose.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utMath/ErrorPose.cpp b/src/utMath/ErrorPose.cpp
index 5e655b8..90fa9ae 100644
--- a/src/utMath/ErrorPose.cpp
+++ b/src/utMath/ErrorPose.cpp
@@ -474,12 +474,12 @@ struct ErrorConversion
 	{
 		result = input;
 		jacobian( 0, 0 ) = jacobian( 1, 1 ) = jacobian( 2, 2 ) = jacobian( 3, 3 ) = r.w();
-		jacobian( 0, 1 ) = jacobian( 3, 2 ) = r.z();
-		jacobian( 0, 2 ) = jacobian( 1, 3 ) = -r.y();
-		jacobian( 0, 3 ) = jacobian( 2, 1 ) = -r.x();
-		jacobian( 1, 0 ) = jacobian( 2, 3 ) = -r.z();
-		jacobian( 1, 2 ) = jacobian( 3, 0 ) = r.x();
-		jacobian( 2, 0 ) = jacobian( 3, 1 ) = r.y();
+		jacobian( 0, 1 ) = jacobian( 3, 2 ) = -r.z();
+		jacobian( 0, 2 ) = jacobian( 1, 3 ) = r.y();
+		jacobian( 0, 3 ) = jacobian( 2, 1 ) = r.x();
+		jacobian( 1, 0 ) = jacobian( 2, 3 ) = r.z();
+		jacobian( 1, 2 ) = jacobian( 3, 0 ) = -r.x();
+		jacobian( 2, 0 ) = jacobian( 3, 1 ) = -r.y();
 	}
 
 };
-- 
2.43.0


From 9131b877f2bc18daad1079000fb4a4a40c0d6d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:57 +0000
Subject: [PATCH 07/52] fix: velocity jacobian of the quaternion time update
 used the squared time step

---
 src/utTracking/Function/QuaternionTimeUpdate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utTracking/Function/QuaternionTimeUpdate.h b/src/utTracking/Function/QuaternionTimeUpdate.h
index ddf6a1e..c051a12 100644
--- a/src/utTracking/Function/QuaternionTimeUpdate.h
+++ b/src/utTracking/Function/QuaternionTimeUpdate.h
@@ -75,7 +75,6 @@ public:
 		{
 			Math::RotationVelocity v( ublas::subrange( input, 4 + 3 * i, 4 + 3 * ( i + 1 ) ) );
 			r = r * v.integrate( t );
-			t *= m_deltaTime;
 			
 			jacobian( 0, 4 + i * 3 + 0 ) =  t * q.w() / 2;
 			jacobian( 0, 4 + i * 3 + 1 ) = -t * q.z() / 2;
@@ -92,6 +91,8 @@ public:
 			jacobian( 3, 4 + i * 3 + 0 ) = -t * q.x() / 2;
 			jacobian( 3, 4 + i * 3 + 1 ) = -t * q.y() / 2;
 			jacobian( 3, 4 + i * 3 + 2 ) = -t * q.z() / 2;
+
+			t *= m_deltaTime;
 		}
 		
 		r.toVector( result );
-- 
2.43.0


From 5521b08e0754ed974d420b3fe960f1063af24bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:57 +0000
Subject: [PATCH 08/52] fix: rotation velocity integration never used the sine
 and returned non-unit quaternions

---
 src/utMath/Optimization/Function/RotationVelocityIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/Function/RotationVelocityIntegration.h b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
index ea504aa..55a8e87 100644
--- a/src/utMath/Optimization/Function/RotationVelocityIntegration.h
+++ b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
@@ -72,7 +72,7 @@ struct RotationVelocityIntegration
 		typedef typename VT1::value_type T;
 		T fNorm = boost::numeric::ublas::norm_2( q );
 		T s;
-		if ( fabs( fNorm * m_dt ) > 1e12 )
+		if ( fabs( fNorm * m_dt ) > 1e-12 )
 			s = sin( fNorm * m_dt * T( 0.5 ) ) / fNorm;
 		else
 			s = m_dt * T( 0.5 );
-- 
2.43.0


From f1d9e55f8ae94dcf3dcd5374766bdd8c7bb09efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:57 +0000
Subject: [PATCH 09/52] fix: scalar row of the rotation velocity integration
 jacobian

---
 src/utMath/Optimization/Function/RotationVelocityIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/Function/RotationVelocityIntegration.h b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
index 55a8e87..b1d19c8 100644
--- a/src/utMath/Optimization/Function/RotationVelocityIntegration.h
+++ b/src/utMath/Optimization/Function/RotationVelocityIntegration.h
@@ -102,7 +102,7 @@ struct RotationVelocityIntegration
 	{
 		typedef typename MT1::value_type T;
 		boost::numeric::ublas::subrange( jac, 0, 3, 0, 3 ) = T( m_dt * 0.5 ) * boost::numeric::ublas::identity_matrix< T >( 3 );
-		boost::numeric::ublas::row( jac, 3 ) = T( m_dt * -0.25 ) * v;
+		boost::numeric::ublas::row( jac, 3 ) = T( m_dt * m_dt * -0.25 ) * v;
 	}
 
 	double m_dt;
-- 
2.43.0


From 7b31900b9242949072add8fa2227c1adbaf4d0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:57 +0000
Subject: [PATCH 10/52] fix: third row of the 3D-3D pose jacobian

---
 src/utAlgorithm/PoseEstimation3D3D/Optimization.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
index 2ac36fe..a7878d2 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
@@ -173,8 +173,8 @@ public:
 			J( i*3+1, 6 ) = t14;
 			J( i*3+2, 2 ) = 1;
 			J( i*3+2, 3 ) = t14;
-			J( i*3+2, 4 ) = -t8+t9+t15;
-			J( i*3+2, 5 ) = t4+t5-t6;
+			J( i*3+2, 4 ) = -t8-t9+t15;
+			J( i*3+2, 5 ) = t7;
 			J( i*3+2, 6 ) = t2+t3-t16;
 			
 			J( i*3+0, 1 ) = J( i*3+0, 2 ) = 0;
-- 
2.43.0


From 172fe9338f40c29e348524145b59b4a371430763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:54 +0000
Subject: [PATCH 11/52] fix: jacobian of the rotation hand-eye combination by
 the second rotation

---
 src/utAlgorithm/Function/RotHecFunction.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/Function/RotHecFunction.h b/src/utAlgorithm/Function/RotHecFunction.h
index 8f7d6e7..49d5208 100644
--- a/src/utAlgorithm/Function/RotHecFunction.h
+++ b/src/utAlgorithm/Function/RotHecFunction.h
@@ -128,7 +128,25 @@ public:
 		jacobian1( 3, 2 ) = -m_x.z();
 		jacobian1( 3, 3 ) =  m_x.w();
 		
-		jacobian2 = -jacobian1;
+		jacobian2( 0, 0 ) = -m_x.w();
+		jacobian2( 0, 1 ) =  m_x.z();
+		jacobian2( 0, 2 ) = -m_x.y();
+		jacobian2( 0, 3 ) = -m_x.x();
+
+		jacobian2( 1, 0 ) = -m_x.z();
+		jacobian2( 1, 1 ) = -m_x.w();
+		jacobian2( 1, 2 ) =  m_x.x();
+		jacobian2( 1, 3 ) = -m_x.y();
+
+		jacobian2( 2, 0 ) =  m_x.y();
+		jacobian2( 2, 1 ) = -m_x.x();
+		jacobian2( 2, 2 ) = -m_x.w();
+		jacobian2( 2, 3 ) = -m_x.z();
+
+		jacobian2( 3, 0 ) =  m_x.x();
+		jacobian2( 3, 1 ) =  m_x.y();
+		jacobian2( 3, 2 ) =  m_x.z();
+		jacobian2( 3, 3 ) = -m_x.w();
 	}
 	
 protected:
-- 
2.43.0


From dd3ae01dc9d8708a431a9e0605b1adb72562659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:50 +0000
Subject: [PATCH 12/52] fix: backwardPropagationDiagonal weighted only the
 first rows of the jacobian

---
 src/utMath/Stochastic/BackwardPropagation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/BackwardPropagation.h b/src/utMath/Stochastic/BackwardPropagation.h
index fbc25f0..37da224 100644
--- a/src/utMath/Stochastic/BackwardPropagation.h
+++ b/src/utMath/Stochastic/BackwardPropagation.h
@@ -235,7 +235,7 @@ void backwardPropagationDiagonal( MT1& result, const VT2& input, MT3& jacobian )
 	typedef typename Math::Matrix< VType, 0, 0 > MatType;
 
 	// multiply jacobian with E^(-1/2)
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	for ( unsigned i = 0; i < input.size(); i++ )
 		ublas::row( jacobian, i ) *= VType( 1 ) / sqrt( input( i ) );
 
 	// perform SVD on jacobian
-- 
2.43.0


From 5c7e9309a4c1328d10a98b9a70b9142e445bcd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:00 +0000
Subject: [PATCH 13/52] fix: backwardPropagation used the eigenvectors
 untransposed and only part of the eigenvalues

---
 src/utMath/Stochastic/BackwardPropagation.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/utMath/Stochastic/BackwardPropagation.h b/src/utMath/Stochastic/BackwardPropagation.h
index 37da224..7bf0cde 100644
--- a/src/utMath/Stochastic/BackwardPropagation.h
+++ b/src/utMath/Stochastic/BackwardPropagation.h
@@ -70,9 +70,6 @@ namespace Ubitrack { namespace Math { namespace Stochastic {
 template< class MT1, class MT2, class F, class VT1 > 
 void backwardPropagation( MT1& result, const MT2& input, const F& function, const VT1& params )
 {
-	// !!!! FIXME: this function doesn't seeem to work.  !!!!!
-	// Use backwardPropagationIdentity, which gives different results
-	
 	namespace lapack = boost::numeric::bindings::lapack;
 	namespace blas = boost::numeric::bindings::blas;
 	namespace ublas = boost::numeric::ublas;
@@ -84,25 +81,25 @@ void backwardPropagation( MT1& result, const MT2& input, const F& function, cons
 	MatType jacobian( input.size1(), result.size1() );
 	function.jacobian( params, jacobian );
 	
-	// factorize E into Q^T * T * Q
+	// factorize E into Q * T * Q^T
 	MatType Q( input );
 	Math::Vector< VType > t( input.size1() );
 	lapack::syev( 'V', 'U', Q, t, lapack::minimal_workspace() );
 	
-	// compute Q * J
+	// compute Q^T * J
 	MatType QJ( jacobian.size1(), jacobian.size2() );
-	blas::gemm( Q, jacobian, QJ );
+	blas::gemm( 'T', 'N', VType( 1 ), Q, jacobian, VType( 0 ), QJ );
 
     // compute T^(-1/2)	
-	VType precision( t( 0 ) * VType( 1e-8 ) );
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	VType precision( t( t.size() - 1 ) * VType( 1e-8 ) );
+	for ( unsigned i = 0; i < t.size(); i++ )
 		if ( t( i ) < precision )
 			t( i ) = 0;
 		else
 			t( i ) = 1 / sqrt( t( i ) );
 
-	// compute J' = T^(-1/2) * Q * J
-	for ( unsigned i = 0; i < result.size1(); i++ )
+	// compute J' = T^(-1/2) * Q^T * J
+	for ( unsigned i = 0; i < t.size(); i++ )
 		ublas::row( QJ, i ) *= t( i );
 
 	// perform SVD on QJ
-- 
2.43.0


From bfd45dbab0399796cd14a65d259dfcd2f762db48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:18 +0000
Subject: [PATCH 14/52] fix: rotation-only filter predicted far future for
 times before the last measurement

---
 src/utTracking/RotationOnlyKf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utTracking/RotationOnlyKf.cpp b/src/utTracking/RotationOnlyKf.cpp
index b0af0fa..3419d25 100644
--- a/src/utTracking/RotationOnlyKf.cpp
+++ b/src/utTracking/RotationOnlyKf.cpp
@@ -126,7 +126,7 @@ void RotationOnlyKF::timeUpdate( Measurement::Timestamp t )
 Measurement::Rotation RotationOnlyKF::predict( Measurement::Timestamp t )
 {
 	// time update: forward filter to requested timestamp
-	double dt = ( t - m_time ) * 1e-9;
+	double dt = ( (long long int)( t - m_time ) ) * 1e-9;
 	Math::ErrorVector< double, 4 > result = Math::Stochastic::transformWithCovariance< 4, 7 >( Function::QuaternionTimeUpdate( dt ), m_state );
 	
 	return Measurement::Rotation( t, Math::Quaternion::fromVector( result.value ).normalize() );
-- 
2.43.0


From eee3c8e872932aaec4827dd011dbb256719aeb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:11 +0000
Subject: [PATCH 15/52] fix: last row of the 4x4 transformation of homogeneous
 points

---
 src/utMath/Geometry/PointTransformation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Geometry/PointTransformation.h b/src/utMath/Geometry/PointTransformation.h
index b02dbf0..7b20288 100644
--- a/src/utMath/Geometry/PointTransformation.h
+++ b/src/utMath/Geometry/PointTransformation.h
@@ -178,7 +178,7 @@ public:
 		const T e1 = transMat( 0, 0 ) * vec( 0 ) + transMat( 0, 1 ) * vec( 1 ) + transMat( 0, 2 ) * vec( 2 ) + transMat( 0, 3 ) * vec( 3 );
 		const T e2 = transMat( 1, 0 ) * vec( 0 ) + transMat( 1, 1 ) * vec( 1 ) + transMat( 1, 2 ) * vec( 2 ) + transMat( 1, 3 ) * vec( 3 );
 		const T e3 = transMat( 2, 0 ) * vec( 0 ) + transMat( 2, 1 ) * vec( 1 ) + transMat( 2, 2 ) * vec( 2 ) + transMat( 2, 3 ) * vec( 3 );
-		const T e4 = transMat( 3, 0 ) * vec( 0 ) + transMat( 3, 1 ) * vec( 1 ) + transMat( 3, 3 ) * vec( 2 ) + transMat( 3, 3 ) * vec( 3 );
+		const T e4 = transMat( 3, 0 ) * vec( 0 ) + transMat( 3, 1 ) * vec( 1 ) + transMat( 3, 2 ) * vec( 2 ) + transMat( 3, 3 ) * vec( 3 );
 		return Math::Vector< T, 4 > ( e1, e2, e3, e4 );
 	}
 };
-- 
2.43.0


From d8d68cf966946d7d30d2f1bf45fbb9c7941aab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:35 +0000
Subject: [PATCH 16/52] fix: eccentricity of rotated conics used half of the
 cross term

---
 src/utMath/Geometry/Conic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index b5c4a96..7d73f37 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -438,7 +438,7 @@ public:
 	T operator() ( const Math::Vector< T, 6 > &conic ) const
 	{
 		const T a = conic( 0 );
-		const T b = conic( 1 ) * static_cast< T > ( 0.5 );
+		const T b = conic( 1 );
 		const T c = conic( 2 );
 		// const T d = conic( 3 ) * static_cast< T > ( 0.5 );
 		// const T e = conic( 4 ) * static_cast< T > ( 0.5 );
-- 
2.43.0


From b25c50d829081c5d5918d29dd28b80b4f064aa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:35 +0000
Subject: [PATCH 17/52] fix: conics without a center were not reported

---
 src/utMath/Geometry/Conic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index 7d73f37..ec6a7a2 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -395,9 +395,9 @@ public:
 		// const T f = conic( 5 );
 	
 		// (b^2)-ac
-		const T divisor = static_cast< T >( 1 ) / ( b*b - a*c );
-		if( divisor == 0 )
+		if( b*b - a*c == 0 )
 			UBITRACK_THROW( "Could not calculate the center, divisor equals zero" );
+		const T divisor = static_cast< T >( 1 ) / ( b*b - a*c );
 		// c*d-b*e / divisor
 		const T x = ( c*d - b*e ) * divisor;
 		// a*e-b*d / divisor
-- 
2.43.0


From c49cd895b8b47dbb172c9e20d9f770560aa73e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:35 +0000
Subject: [PATCH 18/52] fix: angle and semi-axes of circles and of diagonal
 ellipses

---
 src/utMath/Geometry/Conic.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utMath/Geometry/Conic.h b/src/utMath/Geometry/Conic.h
index ec6a7a2..21d13f1 100644
--- a/src/utMath/Geometry/Conic.h
+++ b/src/utMath/Geometry/Conic.h
@@ -266,6 +266,8 @@ public:
 		const T a = conic( 0 );
 		const T b = conic( 1 );
 		const T c = conic( 2 );
+		if( a == c ) // circle or diagonal axes, the quotient below is not defined
+			return ( b == 0 ) ? static_cast< T > ( 0 ) : static_cast< T > ( ( b < 0 ? 0.25 : -0.25 ) * M_PI );
 		const T angle = std::atan( b  / ( a - c ) ) * static_cast< T > ( 0.5 ); 
 		// return 0.5 * std::atan( ( 2.0 * b ) / ( a - c ) ); 
 		return ( a <= c ? angle : ( static_cast< T > ( M_PI * static_cast< T > ( 0.5 ) ) ) + angle );
-- 
2.43.0


From f2857993f97ae4bbd94cbd5f03348fb54736b4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:43 +0000
Subject: [PATCH 19/52] fix: CameraIntrinsics with three radial parameters uses
 all three

---
 src/utMath/CameraIntrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index da35e1b..bea4202 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -155,7 +155,7 @@ public:
 		: calib_type( OPENCV_3_2 )
 		, dimension(Math::Vector< std::size_t, 2 >(width, height))
 		, matrix( intrinsicMatrix )
-		, radial_size( 2 )
+		, radial_size( 3 )
 		, radial_params( radial_type::zeros() )
 		, tangential_params( _tangential )
 		{
-- 
2.43.0


From 244011c88178c2b6fe75ab05e9578515dfe797d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:43 +0000
Subject: [PATCH 20/52] fix: fish-eye CameraIntrinsics leaves no radial
 parameter uninitialised

---
 src/utMath/CameraIntrinsics.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index bea4202..5623bea 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -181,6 +181,7 @@ public:
 		, dimension(Math::Vector< std::size_t, 2 >(width, height))
 		, matrix( intrinsicMatrix )
 		, radial_size( 4 )
+		, radial_params( radial_type::zeros() )
 		, tangential_params( tangential_type::zeros() )
 		{
 			radial_params( 0 ) = _radial( 0 );
-- 
2.43.0


From 9283be031caeec6ffe2f0a78dd8bad6b01fb9cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:43 +0000
Subject: [PATCH 21/52] fix: CameraIntrinsics constructor keeps the image size
 it is given

---
 src/utMath/CameraIntrinsics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/CameraIntrinsics.h b/src/utMath/CameraIntrinsics.h
index 5623bea..bbbe6fc 100644
--- a/src/utMath/CameraIntrinsics.h
+++ b/src/utMath/CameraIntrinsics.h
@@ -194,7 +194,7 @@ public:
 	template< typename IntType >
 	CameraIntrinsics(const Math::Vector< IntType, 2 >& size, const Math::Matrix< T, 3, 3 > &intrinsicMatrix, const std::size_t radSize, const Math::Vector< T, 6 > &_radial, const Math::Vector< T, 2 > &_tangential, const std::size_t width = 0, const std::size_t height = 0)
 		: calib_type( UNKNOWN )
-		, dimension(Math::Vector< std::size_t, 2 >(width, height))
+		, dimension(Math::Vector< std::size_t, 2 >( width ? width : static_cast< std::size_t >( size( 0 ) ), height ? height : static_cast< std::size_t >( size( 1 ) )))
 		, matrix( intrinsicMatrix )
 		, radial_size( radSize )
 		, radial_params( _radial )
-- 
2.43.0


From d5092e87a4f291e2eb52d3594873f95531b39050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:12 +0000
Subject: [PATCH 22/52] fix: average of poses with covariance rotates the error
 by the mean, not by its inverse

---
 src/utMath/Stochastic/Average.h | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/utMath/Stochastic/Average.h b/src/utMath/Stochastic/Average.h
index 8c94588..a2aab28 100644
--- a/src/utMath/Stochastic/Average.h
+++ b/src/utMath/Stochastic/Average.h
@@ -273,7 +273,7 @@ public:
 	{
 	
 		/*
-		 * Use inverted mean value to transform the additive 7x7
+		 * Use the mean value to transform the additive 7x7
 		 * covariance to the 6x6 multiplicative format The conversion is
 		 * conducted according to the following formulas:
 		 * 
@@ -303,16 +303,9 @@ public:
 		super::mean_type meanVec;
 		Util::castToVector( meanPose, meanVec );
 		
-		super::mean_type invMeanVec;
-		Util::castToVector( (~meanPose), invMeanVec );
-		
-		
 		const varianz_type covarianz = ( m_covariance / m_counter );
-		Math::ErrorVector< precision_type, 7 > ev( invMeanVec, covarianz - Math::outer_product( meanVec, meanVec ) );
-		const Math::ErrorPose invEp = Math::ErrorPose::fromAdditiveErrorVector( ev );
-		// We created the error pose from the inverted mean value above, to obtain the transformed 6x6 covariance
-		// Now, we recreate the error pose with the computed mean value.	
-		return value_type( meanPose, invEp.covariance() );
+		Math::ErrorVector< precision_type, 7 > ev( meanVec, covarianz - Math::outer_product( meanVec, meanVec ) );
+		return value_type( meanPose, Math::ErrorPose::fromAdditiveErrorVector( ev ).covariance() );
 	};
 	
 };
-- 
2.43.0


From c35c6239b7da606c418517d1b48944eb9f4b79ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:36 +0000
Subject: [PATCH 23/52] fix: Munkres never reported where it found an uncovered
 zero

---
 src/utMath/Graph/Munkres.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index 3f1310f..ccbf1e8 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -138,9 +138,9 @@ Munkres< T >::Munkres( Math::Matrix< T, 0, 0 > & matrix)
 
 template< typename T >
 bool Munkres< T >::find_uncovered_in_matrix(T item, std::size_t & row, std::size_t & col) {
-	for ( std::size_t row( 0 ) ; row < m_max ; ++row )
+	for ( row = 0 ; row < m_max ; ++row )
 		if ( !row_mask[row] )
-			for ( std::size_t col( 0 ) ; col < m_max ; ++col )
+			for ( col = 0 ; col < m_max ; ++col )
 				if ( !col_mask[col] )
 					if ( m_matrix( row, col ) == item )
 						return true;
-- 
2.43.0


From 9f4b95ff81e21b7e785f3b3ced043b89e583a120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:36 +0000
Subject: [PATCH 24/52] fix: Munkres padded rectangular matrices outside the
 padding range

---
 src/utMath/Graph/Munkres.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Graph/Munkres.h b/src/utMath/Graph/Munkres.h
index ccbf1e8..28563c2 100644
--- a/src/utMath/Graph/Munkres.h
+++ b/src/utMath/Graph/Munkres.h
@@ -376,14 +376,14 @@ void Munkres< T >::setMatrix( Math::Matrix< T, 0, 0 > & matrix )
 	{
 		m_matrix.resize( matrix.size1(), matrix.size1() );
 		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), 0, matrix.size2() ) = matrix;
-		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), matrix.size2(), matrix.size1() - matrix.size2() ) = 
+		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), matrix.size2(), matrix.size1() ) = 
 			boost::numeric::ublas::scalar_matrix< T >( matrix.size1(), matrix.size1() - matrix.size2(), vMax );
 	}
 	else
 	{
 		m_matrix.resize( matrix.size2(), matrix.size2(), false );
 		boost::numeric::ublas::subrange( m_matrix, 0, matrix.size1(), 0, matrix.size2() ) = matrix;
-		boost::numeric::ublas::subrange( m_matrix, matrix.size1(), matrix.size2() - matrix.size1(), 0, matrix.size2() ) = 
+		boost::numeric::ublas::subrange( m_matrix, matrix.size1(), matrix.size2(), 0, matrix.size2() ) = 
 			boost::numeric::ublas::scalar_matrix< T >( matrix.size2() - matrix.size1(), matrix.size2(), vMax );
 	}
 
-- 
2.43.0


From 80203c681c160d6b342b773a9f21158908aaf195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:53 +0000
Subject: [PATCH 25/52] fix: k_means divided by zero for a mean no value
 belongs to

---
 src/utMath/Stochastic/k_means.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Stochastic/k_means.h b/src/utMath/Stochastic/k_means.h
index e08e87e..55659ad 100644
--- a/src/utMath/Stochastic/k_means.h
+++ b/src/utMath/Stochastic/k_means.h
@@ -318,7 +318,13 @@ typename std::iterator_traits< OutputIterator >::value_type::value_type k_means(
 		
 		// reset the amount of gathered values for the means, could be done nicer...
 		for( std::size_t k = 0; k<n_cluster; ++k )
-			means_temp[ k ] /= std::count ( indices.begin(), indices.end(), k );
+		{
+			const std::size_t n_values = std::count ( indices.begin(), indices.end(), k );
+			if( n_values > 0 )
+				means_temp[ k ] /= n_values;
+			else // no value belongs to this mean, keep it where it was
+				means_temp[ k ] = *( itMeanBegin + k );
+		}
 		
 		// calculate the summarized difference
 		std::vector< value_type > norms1;
-- 
2.43.0


From 7124ffc0a014fb8c9b4b92b8f9935aeac88b943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:43 +0000
Subject: [PATCH 26/52] fix: casting the matrix of a half turn to a quaternion
 lost the signs of the axis

---
 src/utMath/Util/RotationCast.h | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index 5530956..be02acd 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -104,9 +104,27 @@ struct RotationCast< Math::Quaternion >
 		const T qxt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 + m00div4 - m11div4 - m22div4 ) ) ) ); 
 		const T qyt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 - m00div4 + m11div4 - m22div4 ) ) ) ); 
 		const T qzt = static_cast< T > ( std::sqrt( std::max( 0., ( 0.25 - m00div4 - m11div4 + m22div4 ) ) ) ); 
-		const T qx = ( matrix( 2, 1 ) - matrix( 1, 2 ) ) < 0 ? -qxt : qxt;
-		const T qy = ( matrix( 0, 2 ) - matrix( 2, 0 ) ) < 0 ? -qyt : qyt;
-		const T qz = ( matrix( 1, 0 ) - matrix( 0, 1 ) ) < 0 ? -qzt : qzt;
+		// the differences of the off-diagonal elements vanish for half turns,
+		// therefore only the sign of the largest component is taken from them
+		T qx = qxt, qy = qyt, qz = qzt;
+		if ( qxt >= qyt && qxt >= qzt )
+		{
+			qx = ( matrix( 2, 1 ) - matrix( 1, 2 ) ) < 0 ? -qxt : qxt;
+			qy = ( matrix( 1, 0 ) + matrix( 0, 1 ) ) * qx < 0 ? -qyt : qyt;
+			qz = ( matrix( 0, 2 ) + matrix( 2, 0 ) ) * qx < 0 ? -qzt : qzt;
+		}
+		else if ( qyt >= qzt )
+		{
+			qy = ( matrix( 0, 2 ) - matrix( 2, 0 ) ) < 0 ? -qyt : qyt;
+			qx = ( matrix( 1, 0 ) + matrix( 0, 1 ) ) * qy < 0 ? -qxt : qxt;
+			qz = ( matrix( 2, 1 ) + matrix( 1, 2 ) ) * qy < 0 ? -qzt : qzt;
+		}
+		else
+		{
+			qz = ( matrix( 1, 0 ) - matrix( 0, 1 ) ) < 0 ? -qzt : qzt;
+			qx = ( matrix( 0, 2 ) + matrix( 2, 0 ) ) * qz < 0 ? -qxt : qxt;
+			qy = ( matrix( 2, 1 ) + matrix( 1, 2 ) ) * qz < 0 ? -qyt : qyt;
+		}
 		return return_type( qx, qy, qz, qw );
 	}
 	
-- 
2.43.0


From 3da710b83984ec083bae223a6811092e1ab850b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:43 +0000
Subject: [PATCH 27/52] fix: casting the identity quaternion to axis and angle
 divided by zero

---
 src/utMath/Util/RotationCast.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index be02acd..e1aa153 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -183,8 +183,10 @@ struct RotationCast< Math::Vector< T, 4 > >
 	
 	return_type operator()( const Math::Quaternion & quat ) const
 	{
-		const T angle = 2 * std::acos( quat.w() );
-		const T divisor = std::sqrt( 1 - quat.w()*quat.w() );
+		const T divisor = std::sqrt( quat.x()*quat.x() + quat.y()*quat.y() + quat.z()*quat.z() );
+		if ( divisor < 1e-10 )
+			return return_type( 0, 0, 0, 0 );
+		const T angle = 2 * std::atan2( divisor, static_cast< T >( quat.w() ) );
 		const T x = quat.x() / divisor;
 		const T y = quat.y() / divisor;
 		const T z = quat.z() / divisor;
-- 
2.43.0


From 92fb0bc445cfdb2aa434d16d51b95433bd48081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:43 +0000
Subject: [PATCH 28/52] fix: casting the matrix of a half turn to axis and
 angle divided by zero

---
 src/utMath/Util/RotationCast.h | 30 ++----------------------------
 1 file changed, 2 insertions(+), 28 deletions(-)

diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index e1aa153..ba102fc 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -212,34 +212,8 @@ struct RotationCast< Math::Vector< T, 4 > >
 	{
 		UBITRACK_STATIC_ASSERT( ( ( M == 3 || M == 4 ) && ( N == 3 || N == 4 ) ), NO_MATCHING_MATRIX_REPRESENTATION_FOR_ROTATION );
 		
-		//easy way here
-		// const Math::Quaternion quat = RotationCast< Math::Quaternion >()( matrix );
-		// return RotationCast< return_type >()( quat );
-		
-		/// @todo put in more checks, this transformation is not really reliable at the moment
-		const T angle = std::acos( ( matrix( 0, 0 ) + matrix( 1, 1 ) + matrix( 2, 2 ) - 1 ) / 2 );
-		if ( angle != angle || angle < 1e-10 )
-			return return_type( 0, 0, 0, 0 );
-		
-		//std::cout << "Angle " << angle ;
-		const T m2112 = matrix( 2, 1 ) - matrix( 1, 2 );
-		const T m0220 = matrix( 0, 2 ) - matrix( 2, 0 );
-		const T m1001 = matrix( 1, 0 ) - matrix( 0, 1 );
-		
-		const T divisor = sqrt( m2112*m2112 + m0220*m0220 + m1001*m1001 );
-		//std::cout << " Divisor " << divisor << "\n";
-		const T rx = m2112 / divisor;
-		const T ry = m0220 / divisor;
-		const T rz = m1001 / divisor;
-		return return_type( rx, ry, rz, angle );
-		
-		// alternative way:
-		// const T divisor = 2*std::sin( angle ) ;//sqrt( m2112*m2112 + m0220*m0220 + m1001*m1001 );
-		// //std::cout << " Divisor " << divisor << "\n";
-		// const T rx = m2112 / divisor;
-		// const T ry = m0220 / divisor;
-		// const T rz = m1001 / divisor;
-		// return return_type( rx, ry, rz, angle );
+		const Math::Quaternion quat = RotationCast< Math::Quaternion >()( matrix );
+		return RotationCast< return_type >()( quat );
 	}
 };
 
-- 
2.43.0


From 7aec4a3cc5eb117b652a56770b0a033ec596dc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:43 +0000
Subject: [PATCH 29/52] fix: casting a rotation to a 4x4 matrix left the fourth
 row and column uninitialised

---
 src/utMath/Util/RotationCast.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utMath/Util/RotationCast.h b/src/utMath/Util/RotationCast.h
index ba102fc..bd81f83 100644
--- a/src/utMath/Util/RotationCast.h
+++ b/src/utMath/Util/RotationCast.h
@@ -304,7 +304,7 @@ struct RotationCast< Matrix< T, M, N > >
 		const T wy = static_cast< T > ( other.w() * other.y() );
 		const T wz = static_cast< T > ( other.w() * other.z() );
 		
-		return_type result;
+		return_type result( return_type::identity() );
 		// first matrix row
 		result( 0, 0 ) = ww + xx - yy - zz;
 		result( 1, 0 ) = 2* ( xy + wz );
@@ -344,7 +344,7 @@ struct RotationCast< Matrix< T, M, N > >
 		const T s = std::sin( axisAngle[ 3 ] );
 		const T t = 1 - c;
 
-		return_type matrix;
+		return_type matrix( return_type::identity() );
 		// diagonal entries first
 		matrix( 0, 0 ) = c + rx*rx*t;
 		matrix( 1, 1 ) = c + ry*ry*t;
-- 
2.43.0


From dc2f5133fd6a6d0940ce82658eca00ef5c262b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:10 +0000
Subject: [PATCH 30/52] fix: Levenberg-Marquardt accepted steps whose residual
 is not a number

---
 src/utMath/Optimization/LevenbergMarquardt.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/LevenbergMarquardt.h b/src/utMath/Optimization/LevenbergMarquardt.h
index 0acd021..83c6d65 100644
--- a/src/utMath/Optimization/LevenbergMarquardt.h
+++ b/src/utMath/Optimization/LevenbergMarquardt.h
@@ -208,7 +208,7 @@ typename X::value_type weightedLevenbergMarquardt( P& problem, X& params, const
 		bTerminate = terminationCriteria( iteration, fErr, fErrPrev );
 
 		// update parameters
-		if ( fErr >= fErrPrev )
+		if ( !( fErr < fErrPrev ) )
 			fLambda *= T( fStepFactor );
 		else
 		{
-- 
2.43.0


From 7cfe1e64e13319524da6a5f724d198fcc80b7844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:06 +0000
Subject: [PATCH 31/52] fix: non-square matrices were scrambled when read from
 msgpack

---
 src/utSerialization/MsgpackSerializer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index bb0231e..66efd9f 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -334,7 +334,7 @@ struct as<Ubitrack::Math::Matrix<T, M, N>, typename std::enable_if<msgpack::has_
       Ubitrack::Math::Matrix<T, M, N> result(M, N);
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               result(i,j) = o.via.array.ptr[idx].as<T>();
           }
       }
@@ -357,7 +357,7 @@ struct convert<Ubitrack::Math::Matrix<T, M, N> > {
       }
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
 			  msgpack::adaptor::convert<T>()(o.via.array.ptr[idx], v(i, j));
               //v(i,j) = o.via.array.ptr[idx].as<T>();
           }
@@ -379,7 +379,7 @@ struct pack<Ubitrack::Math::Matrix<T, M, N> > {
       o.pack_array((uint32_t)num_elements);
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               o.pack(v(i,j));
           }
       }
@@ -402,7 +402,7 @@ struct object_with_zone<Ubitrack::Math::Matrix<T, M, N> > {
               o.zone.allocate_align(sizeof(msgpack::object)*o.via.array.size));
       for (std::size_t i = 0; i<M; ++i) {
           for (std::size_t j = 0; j<N; ++j) {
-              std::size_t idx = i*M + j;
+              std::size_t idx = i*N + j;
               o.via.array.ptr[idx] = msgpack::object(v(i,j), o.zone);
           }
       }
-- 
2.43.0


From 83a7028d5629b69c11fb9e7671a82a218273fc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:06 +0000
Subject: [PATCH 32/52] fix: msgpack object of a vector contained only its last
 element

---
 src/utSerialization/MsgpackSerializer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 66efd9f..8002f47 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -309,7 +309,7 @@ struct object_with_zone<Ubitrack::Math::Vector<T, N> > {
       o.via.array.ptr = static_cast<msgpack::object*>(
               o.zone.allocate_align(sizeof(msgpack::object)*o.via.array.size));
       for (std::size_t i = 0; i<num_elements; ++i) {
-          o.via.array.ptr[0] = msgpack::object(v(i), o.zone);
+          o.via.array.ptr[i] = msgpack::object(v(i), o.zone);
       }
   }
 };
-- 
2.43.0


From 0e3a77e20e18612b199f984993828636488363cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:47 +0000
Subject: [PATCH 33/52] fix: reading a vector of unknown size from msgpack
 wrote outside the vector

---
 src/utSerialization/MsgpackSerializer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index 8002f47..c2abc73 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -270,6 +270,8 @@ struct convert<Ubitrack::Math::Vector<T, N> > {
       std::size_t num_elements = o.via.array.size;
       if (N>0) {
           if (num_elements!=N) throw msgpack::type_error();
+      } else {
+          v.resize(num_elements);
       }
       for (std::size_t i = 0; i<num_elements; ++i) {
 		  msgpack::adaptor::convert<T>()(o.via.array.ptr[i], v(i));
-- 
2.43.0


From 0188b1bbe5b246e776cc562d874326bdedbfd0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:08 +0000
Subject: [PATCH 34/52] fix: sleep returned at once when milliseconds and
 nanoseconds add up to a second or more

---
 src/utUtil/OS.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utUtil/OS.cpp b/src/utUtil/OS.cpp
index 95e3627..efb4c7f 100644
--- a/src/utUtil/OS.cpp
+++ b/src/utUtil/OS.cpp
@@ -67,8 +67,9 @@ double getHighPerformanceFrequency()
 void sleep( unsigned ms, unsigned ns )
 {	
 	timespec t;
-	t.tv_sec = ms / 1000;
-	t.tv_nsec = ( ms % 1000 ) * 1000000 + ns;
+	const unsigned long long total = ms * 1000000ULL + ns;
+	t.tv_sec = total / 1000000000;
+	t.tv_nsec = total % 1000000000;
 	nanosleep( &t, NULL );
 }
 
-- 
2.43.0


From 82383225703c18b83a9565b3cbbc7c68190dec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:39 +0000
Subject: [PATCH 35/52] fix: derivative of the rigid alignment ignored the
 normalisation of the rotation

---
 src/utAlgorithm/PoseEstimation3D3D/Optimization.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
index a7878d2..187dc3e 100644
--- a/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
+++ b/src/utAlgorithm/PoseEstimation3D3D/Optimization.h
@@ -181,6 +181,16 @@ public:
 			J( i*3+1, 0 ) = J( i*3+1, 2 ) = 0;
 			J( i*3+2, 0 ) = J( i*3+2, 1 ) = 0;
 			
+			// the rotation is normalized in evaluate(): remove the part along the quaternion
+			for( std::size_t k( i*3 ); k < i*3+3; ++k )
+			{
+				const VType d = J( k, 3 )*qx + J( k, 4 )*qy + J( k, 5 )*qz + J( k, 6 )*qw;
+				J( k, 3 ) = ( J( k, 3 ) - d*qx ) / n;
+				J( k, 4 ) = ( J( k, 4 ) - d*qy ) / n;
+				J( k, 5 ) = ( J( k, 5 ) - d*qz ) / n;
+				J( k, 6 ) = ( J( k, 6 ) - d*qw ) / n;
+			}
+			
 			// const VType t2 = qy*qy;
 			// const VType t3 = qz*qz;
 			// const VType t4 = qw*qw;
-- 
2.43.0


From e4f28c8f59d2bfa09ff298d5da8802445e86f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:49 +0000
Subject: [PATCH 36/52] fix: tool tip optimisation failed when a residual
 component is exactly zero

---
 src/utAlgorithm/ToolTip/Optimization.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utAlgorithm/ToolTip/Optimization.h b/src/utAlgorithm/ToolTip/Optimization.h
index 76c2609..7979d1d 100644
--- a/src/utAlgorithm/ToolTip/Optimization.h
+++ b/src/utAlgorithm/ToolTip/Optimization.h
@@ -179,10 +179,10 @@ public:
 			const VType t32 = t18*t18;
 			const VType t40 = t23*t23;
 			const VType t41 = t31+t32+t40;
-			const VType t42 = 1.0/sqrt(t41);
-			const VType t43 = (t14/fabs(t14));
-			const VType t44 = (t30/fabs(t30));
-			const VType t45 = (t39/fabs(t39));
+			const VType t42 = t41 > 0 ? 1.0/sqrt(t41) : 0; // no direction at distance zero
+			const VType t43 = t14 < 0 ? -1 : 1;
+			const VType t44 = t30 < 0 ? -1 : 1;
+			const VType t45 = t39 < 0 ? -1 : 1;
 			J( i, 0 ) = static_cast< typename MT::value_type >( t17*t42*t43 );
 			J( i, 1 ) = static_cast< typename MT::value_type >( t18*t42*t44 );
 			J( i, 2 ) = static_cast< typename MT::value_type >( t23*t42*t45 );
-- 
2.43.0


From bf898b6dd873c5c2f4699ec3585f469c9be38c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:16 +0000
Subject: [PATCH 37/52] fix: reading a measurement from msgpack by value did
 not compile and took the value from the time stamp

---
 src/utSerialization/MsgpackSerializer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utSerialization/MsgpackSerializer.h b/src/utSerialization/MsgpackSerializer.h
index c2abc73..0012bcf 100644
--- a/src/utSerialization/MsgpackSerializer.h
+++ b/src/utSerialization/MsgpackSerializer.h
@@ -132,12 +132,12 @@ template<typename T>
 struct as<Ubitrack::Measurement::Measurement<T>, typename std::enable_if<msgpack::has_as<T>::value>::type> {
   Ubitrack::Measurement::Measurement<T> operator()(msgpack::object const& o) const
   {
-      if (o.is_nil()) return nullptr;
+      if (o.is_nil()) return Ubitrack::Measurement::Measurement<T>();
       if (o.type!=msgpack::type::ARRAY) throw msgpack::type_error();
       if (o.via.array.size!=2) throw msgpack::type_error();
       return Ubitrack::Measurement::Measurement<T>(
               o.via.array.ptr[0].as<unsigned long long>(),
-              boost::shared_ptr<T>(o.via.array.ptr[0].as<T>())
+              o.via.array.ptr[1].as<T>()
       );
   }
 };
-- 
2.43.0


From c23996b87e354453b13498be6a30dce70e65901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:17 +0000
Subject: [PATCH 38/52] fix: decomposing a scaled projection matrix returned a
 translation of another scale

---
 src/utAlgorithm/Projection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/Projection.cpp b/src/utAlgorithm/Projection.cpp
index 50cb7a5..6a78465 100644
--- a/src/utAlgorithm/Projection.cpp
+++ b/src/utAlgorithm/Projection.cpp
@@ -199,8 +199,9 @@ template< typename T > void decomposeProjectionImpl( Math::Matrix< T, 3, 3 >& k,
 	T f = -1 / k( 2, 2 );
 	k *= f;
 
-	// compute translation vector: t = K^-1 p^4
+	// compute translation vector: t = K^-1 p^4, for p^4 of the same scale as K
 	Math::Matrix< T, 3, 1 > ttmp = ublas::subrange( P, 0, 3, 3, 4 );
+	ttmp *= f;
 	blas::trsm( 'L', 'U', 'N', 'N', 1.0f, k, ttmp );
 	t = ublas::column( ttmp, 0 );
 }
-- 
2.43.0


From cd148e2bdf164ccab656b2cf52a83821671058c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:09 +0000
Subject: [PATCH 39/52] fix: pose of a plane z = c was returned as if the plane
 were z = 0 when not refined

---
 src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
index de771dd..36f3c92 100644
--- a/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
+++ b/src/utAlgorithm/PoseEstimation2D3D/PlanarPoseEstimation.cpp
@@ -421,7 +421,9 @@ Math::ErrorPose computePose(
 			OPT_LOG_TRACE( "Homography: " << H );
 
 			// compute initial pose from homography
-			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK );
+			// the homography starts from the plane z = last_dim
+			pose = Algorithm::PoseEstimation2D3D::poseFromHomography( H, invK )
+				* Math::Pose( Math::Quaternion(), Math::Vector< double, 3 >( 0, 0, -last_dim ) );
 			
 			OPT_LOG_TRACE( "Pose from homography: " << pose )
 		}
-- 
2.43.0


From 8e48971a4144e55666b6acf03c90c9d264b18946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:13 +0000
Subject: [PATCH 40/52] fix: Levenberg-Marquardt threw in single precision
 after 38 rejected steps because the damping overflowed

---
 src/utMath/Optimization/LevenbergMarquardt.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/LevenbergMarquardt.h b/src/utMath/Optimization/LevenbergMarquardt.h
index 83c6d65..ac59b0f 100644
--- a/src/utMath/Optimization/LevenbergMarquardt.h
+++ b/src/utMath/Optimization/LevenbergMarquardt.h
@@ -37,6 +37,7 @@
 #ifdef HAVE_LAPACK
 
 // Boost
+#include <limits>
 #include <boost/scoped_ptr.hpp>
 
 #include <boost/numeric/ublas/matrix_proxy.hpp>
@@ -209,7 +210,13 @@ typename X::value_type weightedLevenbergMarquardt( P& problem, X& params, const
 
 		// update parameters
 		if ( !( fErr < fErrPrev ) )
-			fLambda *= T( fStepFactor );
+		{
+			// no step improves any more when the damping reaches the range of T
+			if ( fLambda < std::numeric_limits< T >::max() / T( fStepFactor ) )
+				fLambda *= T( fStepFactor );
+			else
+				bTerminate = true;
+		}
 		else
 		{
 			fLambda /= T( fStepFactor );
-- 
2.43.0


From 3d37583f47122c83966251a3aba386ed53db8592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:37 +0000
Subject: [PATCH 41/52] fix: process noise of a motion model was uninitialised
 until every order had been set

---
 src/utTracking/LinearPoseMotionModel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utTracking/LinearPoseMotionModel.h b/src/utTracking/LinearPoseMotionModel.h
index 43536fd..75d8059 100644
--- a/src/utTracking/LinearPoseMotionModel.h
+++ b/src/utTracking/LinearPoseMotionModel.h
@@ -51,7 +51,7 @@ public:
 	LinearPoseMotionModel( int posOrder, int oriOrder )
 		: m_posOrder( posOrder )
 		, m_oriOrder( oriOrder )
-		, m_processNoise( 3 + 3 * m_posOrder + ( m_oriOrder >= 0 ? 4 + 3 * m_oriOrder : 0 ) )
+		, m_processNoise( Math::Vector< double >::zeros( 3 + 3 * m_posOrder + ( m_oriOrder >= 0 ? 4 + 3 * m_oriOrder : 0 ) ) )
 	{
 	}
 	
-- 
2.43.0


From 6cb9ad68a83e6ecbc48531631cad4d38947b1dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:21 +0000
Subject: [PATCH 42/52] fix: dual quaternion hand-eye calibration failed or
 lost precision when a solution of its quadratic lies at infinity

---
 .../PoseEstimation6D6D/DualQuaternion.cpp     | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
index 67b41b1..fa18df0 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
@@ -46,19 +46,18 @@ namespace Ubitrack{ namespace Math {
 
 struct SolveQuadratic
 {
+	/// solves a*x^2 + b*x*y + c*y^2 = 0 for the ratios (x1:y1) and (x2:y2), also if a or c vanish
 	template< typename T >
-	Math::Vector< T, 2 > operator()( const Math::Vector< T, 3 >& quadratic ) const
+	Math::Vector< T, 4 > operator()( const Math::Vector< T, 3 >& quadratic ) const
 	{
-		// solve ax^2 + bx + c = 0 for x_{1,2}
 		// assume input vector with following order[ c b a ]
 		const T c = quadratic[ 0 ];
 		const T b = quadratic[ 1 ];
-		const T m2a = 2.*quadratic[ 2 ]; // <-- 2a is needed anyway
+		const T a = quadratic[ 2 ];
 		
-		const T root = std::sqrt( (b*b)-(2.*m2a*c) );// <- 2a instead of 4a, see above
-		const T x1 = (-b + root) / m2a;// <- here as well 2a instead of 4a
-		const T x2 = -(b + root) / m2a;
-		return Math::Vector< T, 2 >( x1, x2 );
+		const T root = std::sqrt( (b*b)-(4*a*c) );
+		const T m = ( b < 0 ? root - b : -b - root ) / 2; // <- no cancellation
+		return Math::Vector< T, 4 >( m, a, c, m );
 	}
 };
 
@@ -188,15 +187,16 @@ bool estimatePose6D_6D6D_impl( InputIterator itBeginEye, const InputIterator itE
 	const value_type b = inner_product( u1, v2 ) + inner_product( u2, v1 ); 
 	const value_type c = inner_product( u2, v2 );
 	const Math::Vector< value_type, 3 > quEq( c, b, a );
-	const Math::Vector< value_type, 2 > s12 = Ubitrack::Math::SolveQuadratic()( quEq );
+	const Math::Vector< value_type, 4 > s12 = Ubitrack::Math::SolveQuadratic()( quEq );
 	
 	const value_type dotU1 = inner_product( u1, u1 );
 	const value_type dotU1U2_2 = inner_product( u1, u2 ) * 2; // <- 2 times inner product
 	const value_type dotU2 = inner_product( u2, u2 );
-	const value_type s1 = s12[ 0 ] * s12[ 0 ] * dotU1 + s12[ 0 ] * dotU1U2_2 + dotU2;
-	const value_type s2 = s12[ 1 ] * s12[ 1 ] * dotU1 + s12[ 1 ] * dotU1U2_2 + dotU2;
-	const value_type lambda2 = (s1 > s2) ? std::sqrt( 1/s1 ) : std::sqrt( 1/s2 );
-	const value_type lambda1 = (s1 > s2) ? lambda2 * s12[ 0 ] : lambda2 * s12[ 1 ];
+	const value_type s1 = s12[ 0 ] * s12[ 0 ] * dotU1 + s12[ 0 ] * s12[ 1 ] * dotU1U2_2 + s12[ 1 ] * s12[ 1 ] * dotU2;
+	const value_type s2 = s12[ 2 ] * s12[ 2 ] * dotU1 + s12[ 2 ] * s12[ 3 ] * dotU1U2_2 + s12[ 3 ] * s12[ 3 ] * dotU2;
+	const value_type scale = std::sqrt( 1/std::max( s1, s2 ) );
+	const value_type lambda1 = (s1 > s2) ? scale * s12[ 0 ] : scale * s12[ 2 ];
+	const value_type lambda2 = (s1 > s2) ? scale * s12[ 1 ] : scale * s12[ 3 ];
 	
 	if( (lambda1 != lambda1) || (lambda2 != lambda2) )
 	{
-- 
2.43.0


From 807660eb38604d8d479eba08794ac754f4ec7b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:21 +0000
Subject: [PATCH 43/52] fix: selection of relative poses compared every cluster
 with the first pose only

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
index a9e6df0..18d5441 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
@@ -506,7 +506,7 @@ protected:
 		IndexListType::const_iterator itIndex = indices.begin();
 		const IndexListType::const_iterator itIndexEnd = indices.end();
 		
-		for( std::size_t i = 0; itIndex != itIndexEnd; ++itIndex, *itPose , ++i )
+		for( std::size_t i = 0; itIndex != itIndexEnd; ++itIndex, ++itPose , ++i )
 		{
 			// choose codebook entry to lookup corresponding pose measurement
 			InputIterator2 itCodebook = itBeginCluster;	
-- 
2.43.0


From fe0a70205a5d254303a54eefd47ca218a40647a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:42 +0000
Subject: [PATCH 44/52] fix: hand-eye calibration from three or four poses
 evaluated a single movement and read uninitialised singular values

---
 src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h b/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
index fea1a31..b41c81d 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
@@ -41,6 +41,7 @@
 #include "DualQuaternion.h"
 
 // std
+#include <algorithm> // std::max
 #include <vector>
 #include <iterator>
 
@@ -156,7 +157,8 @@ protected:
 		assert( nRel == relativePosesAllB.size() );
 		// std::cerr << "nRel " << nRel << "\n";
 		// determine the number of k-means by simple rule (maybe not accurate)
-		const std::size_t n = m ? m : static_cast< std::size_t >( sqrt( nRel/2. ) );
+		// at least two relative movements are needed for a solution
+		const std::size_t n = m ? m : std::max( static_cast< std::size_t >( 2 ), static_cast< std::size_t >( sqrt( nRel/2. ) ) );
 		
 		// std::cerr << "n " << n << "\n";
 		relativePosesBestMatchA.reserve( n );
-- 
2.43.0


From 9e247a3d387c20af67dc26b74ea7c45343e380a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:42 +0000
Subject: [PATCH 45/52] fix: hand-eye calibration kept the selected movements
 of earlier calls

---
 src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h b/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
index b41c81d..a4d6b87 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/HandEyeCalibration.h
@@ -161,6 +161,8 @@ protected:
 		const std::size_t n = m ? m : std::max( static_cast< std::size_t >( 2 ), static_cast< std::size_t >( sqrt( nRel/2. ) ) );
 		
 		// std::cerr << "n " << n << "\n";
+		relativePosesBestMatchA.clear();
+		relativePosesBestMatchB.clear();
 		relativePosesBestMatchA.reserve( n );
 		relativePosesBestMatchB.reserve( n );
 		m_DataSelection.resetComparisonPoses( n, relativePosesAllA );
-- 
2.43.0


From c3726cbf2309c99ad355a1bf8f24eb2bd85f6455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:31 +0000
Subject: [PATCH 46/52] fix: RotationHecKalmanFilter aligns the signs of the
 scalar parts, not of the quaternions

---
 src/utAlgorithm/RotationHecKalmanFilter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/RotationHecKalmanFilter.cpp b/src/utAlgorithm/RotationHecKalmanFilter.cpp
index 522f211..f95ee8d 100644
--- a/src/utAlgorithm/RotationHecKalmanFilter.cpp
+++ b/src/utAlgorithm/RotationHecKalmanFilter.cpp
@@ -57,7 +57,9 @@ void RotationHecKalmanFilter::addMeasurement( const Math::Quaternion& a, const M
 	// TODO: for error propagation use RotHecCombine
 
 	// do the filter update
-	Function::RotHecMeasurement mf( a, b.negateIfCloser( a ) );
+	// a and b are conjugate rotations: the signs of their scalar parts have to agree, not their directions
+	const double sb = ( a.w() < 0 ) != ( b.w() < 0 ) ? -1 : 1;
+	Function::RotHecMeasurement mf( a, Math::Quaternion( sb * b.x(), sb * b.y(), sb * b.z(), sb * b.w() ) );
 	Math::Stochastic::kalmanMeasurementUpdate< 4, 4 >( m_state, mf, kalmanMeasurement, 0, m_state.value.size() );
 
 	// normalize the result to ensure quaternion properties
-- 
2.43.0


From f157830e02b485f1b27842e70a4edb1f75401b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:25 +0000
Subject: [PATCH 47/52] fix: dual quaternion hand-eye calibration aligns the
 signs of each pair of motions

---
 src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
index fa18df0..45dddc5 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
+++ b/src/utAlgorithm/PoseEstimation6D6D/DualQuaternion.cpp
@@ -87,7 +87,10 @@ bool estimatePose6D_6D6D_impl( InputIterator itBeginEye, const InputIterator itE
 	for( std::size_t index = 0; index<n; ++index, ++itBeginEye, ++itBeginHand )
 	{
 		const dual_type a = *itBeginEye;
-		const dual_type b = *itBeginHand;
+		dual_type b = *itBeginHand;
+		// b and -b are the same motion: take the one that has the scalar parts of a
+		if( a[ 0 ]*b[ 0 ] + a[ 4 ]*b[ 4 ] < 0 )
+			b *= value_type( -1 );
 
 		const value_type ax = a[ 1 ];
 		const value_type ay = a[ 2 ];
-- 
2.43.0


From 2f15d1195e371810d0f6a7088c18391c7329d3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:45 +0000
Subject: [PATCH 48/52] fix: hemisphere alignment keeps the rotation when it
 goes the shorter way round

---
 src/utAlgorithm/PoseEstimation6D6D/DataSelection.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
index 18d5441..6711403 100644
--- a/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
+++ b/src/utAlgorithm/PoseEstimation6D6D/DataSelection.h
@@ -312,7 +312,8 @@ struct hemisphere_alignment< Math::Vector< T, 6 >, true >
 		if( angle > 3.1415926535897932384626433832795 )
 		{
 			const T new_angle = (2*3.1415926535897932384626433832795) - angle;
-			const T ratio = new_angle/angle;
+			// the same rotation the other way round is about the opposite axis
+			const T ratio = -new_angle/angle;
 			result[ 0 ] *= ratio;
 			result[ 1 ] *= ratio;
 			result[ 2 ] *= ratio;
-- 
2.43.0


From a85da2a56d0240ee7ddfb6a49e868bbab4dcbab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:08 +0000
Subject: [PATCH 49/52] fix: bundle adjustment rescales the translation when it
 normalizes the quaternion

---
 src/utAlgorithm/BundleAdjustment.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utAlgorithm/BundleAdjustment.cpp b/src/utAlgorithm/BundleAdjustment.cpp
index f137c7c..f32357b 100644
--- a/src/utAlgorithm/BundleAdjustment.cpp
+++ b/src/utAlgorithm/BundleAdjustment.cpp
@@ -319,8 +319,11 @@ void simpleBundleAdjustmentImpl (
 	for ( std::size_t cameraIndex = 0; cameraIndex < n_cams; ++cameraIndex, ++poseIter )
 	{
 		const std::size_t index = 7*cameraIndex;
-		const Math::Quaternion quat = Math::Quaternion::fromVector( boost::numeric::ublas::subrange( paramVector, index, index+4 ) ).normalize();
-		const Math::Vector< value_type, 3 > trans ( boost::numeric::ublas::subrange( paramVector, index+4, index+7 ) );
+		const Math::Quaternion q = Math::Quaternion::fromVector( boost::numeric::ublas::subrange( paramVector, index, index+4 ) );
+		// the optimization does not keep the quaternion at unit length and therefore estimates |q|^2 * R and |q|^2 * t
+		const value_type scale = static_cast< value_type >( q.x() * q.x() + q.y() * q.y() + q.z() * q.z() + q.w() * q.w() );
+		const Math::Quaternion quat = Math::Quaternion( q ).normalize();
+		const Math::Vector< value_type, 3 > trans ( boost::numeric::ublas::subrange( paramVector, index+4, index+7 ) / scale );
 		*poseIter = Math::Pose( quat, trans );
 		LOG4CPP_TRACE( logger, "Camera #" << cameraIndex << " translation: " << poseIter->translation() << ", quaternion: " << poseIter->rotation() << " (updated)." );
 	}
-- 
2.43.0


From f8fcaa3f8ff83c6b660c0be2de7894314d12e408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:27 +0000
Subject: [PATCH 50/52] fix: multi-camera pose estimation starts from the
 inverse camera pose

---
 src/utAlgorithm/MultipleCameraPoseOptimization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
index bd57117..c624276 100644
--- a/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
+++ b/src/utAlgorithm/MultipleCameraPoseOptimization.cpp
@@ -130,7 +130,7 @@ std::pair < Math::ErrorPose , double >
 		// Compute initial pose
 		if (!hasInitialPoseProvided) {
 			OPT_LOG_DEBUG(  "Compute initial pose with "<<p2dLocal.at(maxObsIndex).size() << " observations for camera " << maxObsIndex );
-			initialPose = camPoses.at( maxObsIndex ) * Algorithm::PoseEstimation2D3D::computePose( p2dLocal.at( maxObsIndex) , p3dLocalFiltered.at( maxObsIndex) ,
+			initialPose = ~camPoses.at( maxObsIndex ) * Algorithm::PoseEstimation2D3D::computePose( p2dLocal.at( maxObsIndex) , p3dLocalFiltered.at( maxObsIndex) ,
 				camMatrices.at( maxObsIndex ), PoseEstimation2D3D::PLANAR_HOMOGRAPHY ); // there are no scoped enums in C++98 (only in C++0x onwards)
 			OPT_LOG_DEBUG(  "Initial pose "<<initialPose );
 		}
-- 
2.43.0


From bea411126bb11f654c156c67e294ebce3b1924d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:05 +0000
Subject: [PATCH 51/52] fix: VectorNorm.h closes all of its namespaces

---
 src/utMath/Optimization/NewFunction/VectorNorm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utMath/Optimization/NewFunction/VectorNorm.h b/src/utMath/Optimization/NewFunction/VectorNorm.h
index cc09cd5..3198b14 100644
--- a/src/utMath/Optimization/NewFunction/VectorNorm.h
+++ b/src/utMath/Optimization/NewFunction/VectorNorm.h
@@ -56,4 +56,4 @@ struct VectorNorm
 	}
 };
 
-} } } // namespace Ubitrack::Algorithm::Normalize
+} } } } // namespace Ubitrack::Math::Optimization::Function
-- 
2.43.0


From 260b33ec87d68b45c3fa75c440d7affc494681ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:21 +0000
Subject: [PATCH 52/52] fix: report a calibration file without a valid header
 like any other malformed file

---
 src/utUtil/CalibFile.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/utUtil/CalibFile.h b/src/utUtil/CalibFile.h
index 5349785..138dc91 100644
--- a/src/utUtil/CalibFile.h
+++ b/src/utUtil/CalibFile.h
@@ -115,10 +115,9 @@ void readCalibFile( const std::string& sFile, Measurement::Measurement< T >& res
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for reading" );
 
-	// create iarchive
-	boost::archive::text_iarchive archive( stream );
-
     try {
+	    // create iarchive
+	    boost::archive::text_iarchive archive( stream );
 	    // read data
 	    archive >> result;
     } catch (std::exception& ) {
@@ -146,10 +145,9 @@ void readCalibFileDropMeasurement( const std::string& sFile, T& result )
 	if ( !stream.good() )
 		UBITRACK_THROW( "Could not open file " + sFile + " for reading" );
 
-	// create iarchive
-	boost::archive::text_iarchive archive( stream );
-
 	try {
+	    // create iarchive
+	    boost::archive::text_iarchive archive( stream );
 	    // read data
 	    archive >> interResult;
     } catch (std::exception& ) {
-- 
2.43.0

