From e2b730de631e2b0643275a88d17937662f17d162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:22 +0000
Subject: [PATCH 01/97] fix: matrix4Invert left the eliminated coefficients in
 place, so the inverse of a full 4x4 matrix (e.g. Complex metric of KerrKS)
 was wrong

---
 lib/Utils.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils.C b/lib/Utils.C
index 0f4e500..d78f56d 100644
--- a/lib/Utils.C
+++ b/lib/Utils.C
@@ -384,7 +384,7 @@ void Gyoto::matrix4Invert(double Am1[4][4], double const A[4][4]) {
     // subtract this row times of factor to each later row
     for (jj = j+1; jj < 4; ++jj) {
       fact = tmp[j][jj];
-      for (i=j+1; i<4; ++i) tmp[i][jj] -= fact*tmp[i][j];
+      for (i=j; i<4; ++i) tmp[i][jj] -= fact*tmp[i][j];
       for (i=0; i<4; ++i) Am1[i][jj] -= fact*Am1[i][j];
     }
   }
-- 
2.43.0


From d4aac3fb4bb057db45db08f629c441011237b251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:49 +0000
Subject: [PATCH 02/97] fix: Hayward::gmunu_up(pos, 0, 3) had the signs of the
 r>0 branch for r<0, in disagreement with the matrix form

---
 lib/Hayward.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Hayward.C b/lib/Hayward.C
index 0e33e97..13308ca 100644
--- a/lib/Hayward.C
+++ b/lib/Hayward.C
@@ -344,7 +344,7 @@ double Hayward::gmunu_up(const double * pos, int mu, int nu) const
       if ((mu==1) && (nu==1)) return (a2_*r3+r5-2.*a2b2-2.*b2_*r2-2.*r4)/sigma/dm;
       if ((mu==2) && (nu==2)) return 1./sigma;
       if ((mu==3) && (nu==3)) return (a2_*r3*cth2-2.*a2b2*cth2+r5-2.*b2_*r2-2.*r4)/(a4_*r3*cth2+a2_*r5*cth2-2.*a4b2*cth2-2.*a2b2*r2*cth2+2.*a2_*r4*sth2+a2_*r5+r7-2.*a2b2*r2-2.*a2_*r4-2.*b2_*r4-2.*r6)/sth2;
-      if (((mu==0) && (nu==3)) || ((mu==3) && (nu==0)))return  -2.*spin_*r4/sigma/(a2_*r3+r5+2.*a2b2+2.*b2_*r2-2.*r4);
+      if (((mu==0) && (nu==3)) || ((mu==3) && (nu==0)))return  -2.*spin_*r4/sigma/(a2_*r3+r5-2.*a2b2-2.*b2_*r2-2.*r4);
     }
   
   return 0.;
-- 
2.43.0


From e75e01754144ac35b2c76e056a08dfb3c95efaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:54 +0000
Subject: [PATCH 03/97] fix: BalasinGrumiller Christoffel symbols used a wrong
 theta-derivative of the metric potential (sign, and R instead of r0 in two
 terms)

---
 lib/BalasinGrumiller.C | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/BalasinGrumiller.C b/lib/BalasinGrumiller.C
index ad883d8..db38dc0 100644
--- a/lib/BalasinGrumiller.C
+++ b/lib/BalasinGrumiller.C
@@ -122,11 +122,11 @@ double W = (Rvalue_ - r0value_) * V0value_ + (V0value_ * (-sqrt(Rvalue_*Rvalue_
          + (r - r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
          + (r + r0value_*cos(theta)) / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
 
-  double DWDth = (V0value_ * Rvalue_ * r * sin(theta) * (
-         1.0 / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
-         - 1.0 / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
-         - 1.0 / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
-         + 1.0 / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
+  double DWDth = (V0value_ * r * sin(theta) * (
+         -Rvalue_ / sqrt(Rvalue_*Rvalue_ + r*r - 2.0*Rvalue_*r*cos(theta))
+         + Rvalue_ / sqrt(Rvalue_*Rvalue_ + r*r + 2.0*Rvalue_*r*cos(theta))
+         + r0value_ / sqrt(r0value_*r0value_ + r*r - 2.0*r0value_*r*cos(theta))
+         - r0value_ / sqrt(r0value_*r0value_ + r*r + 2.0*r0value_*r*cos(theta)))) / 2.0;
 
 
 dst[0][0][1] = dst[0][1][0] = (DWDr*W)/(2.0*r*r*sin(theta)*sin(theta));
-- 
2.43.0


From ae758288145fe593898348da4f87174d38544f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:54 +0000
Subject: [PATCH 04/97] fix: KonoplyaRezzollaZhidenko: the a00 term was missing
 from the radial derivative of N^2, so Christoffel symbols were wrong for
 a00!=0

---
 lib/KonoplyaRezzollaZhidenko.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index f7f7c2f..4f6b23c 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -445,7 +445,7 @@ double KonoplyaRezzollaZhidenko::drN2(const double rr, const double th) const{
          k23 = DefineHorizonParameters(HorizonParameter::k23, r0);
          
   double drN2 = r0/rr2*(1.-epsilon0*r0/rr+(a00-epsilon0+k00)*r02/rr2+a01*r03/rr3)
-              +(1.-r0/rr)*(epsilon0*r0/rr2-2.*(k00-epsilon0)*r02/rr3-3.*a01*r03/rr4)
+              +(1.-r0/rr)*(epsilon0*r0/rr2-2.*(a00-epsilon0+k00)*r02/rr3-3.*a01*r03/rr4)
               -(2.*(k20+epsilon2)*r02/rr3
               +k21*k22*r04/rr5/((1.+(k23+k22)*(1.-r0/rr))*(1.+(k23+k22)*(1.-r0/rr)))
               +3.*(k21/(1.+k22*(1.-r0/rr)/(1.+k23*(1.-r0/rr)))+a20)*r03/rr4
-- 
2.43.0


From 02f643724e87382896549c71f698e8566d327316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:10 +0000
Subject: [PATCH 05/97] fix: Hayward, ReissnerNordstrom, RezzollaZhidenko and
 SchwarzschildHarmonic ignored the Keplerian option in circularVelocity

---
 lib/Hayward.C               | 8 ++++++++
 lib/ReissnerNordstrom.C     | 8 ++++++++
 lib/RezzollaZhidenko.C      | 8 ++++++++
 lib/SchwarzschildHarmonic.C | 8 ++++++++
 4 files changed, 32 insertions(+)

diff --git a/lib/Hayward.C b/lib/Hayward.C
index 13308ca..cbdd084 100644
--- a/lib/Hayward.C
+++ b/lib/Hayward.C
@@ -99,6 +99,14 @@ double Hayward::getPotential(double const pos[4], double l_cst) const {
 
 void Hayward::circularVelocity(double const coor[4], double vel[4],
 			       double dir) const {
+  if (keplerian_) {
+    // If keplerian_ is true, let the generic implementation return
+    // the Newtonian Keplerian (i.e. r^-3/2) velocity instead of the
+    // true circular velocity
+    Generic::circularVelocity(coor, vel, dir);
+    return;
+  }
+
 # if GYOTO_DEBUG_ENABLED
   GYOTO_DEBUG<<"coor=["<<coor[0]<<", "<<coor[1]<<", "<<coor[2]<<", "<<coor[3]
 	     <<"], dir="<<dir<<endl;
diff --git a/lib/ReissnerNordstrom.C b/lib/ReissnerNordstrom.C
index ebd093e..132bc0f 100644
--- a/lib/ReissnerNordstrom.C
+++ b/lib/ReissnerNordstrom.C
@@ -139,6 +139,14 @@ int ReissnerNordstrom::isStopCondition(double const * const coord) const {
 
 void ReissnerNordstrom::circularVelocity(double const * coor, double* vel,
 					     double dir) const {
+  if (keplerian_) {
+    // If keplerian_ is true, let the generic implementation return
+    // the Newtonian Keplerian (i.e. r^-3/2) velocity instead of the
+    // true circular velocity
+    Generic::circularVelocity(coor, vel, dir);
+    return;
+  }
+
   double sinth = sin(coor[2]);
   double coord[4] = {coor[0], coor[1]*sinth, M_PI*0.5, coor[3]};
   if (charge_*charge_ > coord[1])
diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index 7f01d9a..4b68e71 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -300,6 +300,14 @@ int RezzollaZhidenko::isStopCondition(double const * const coord) const {
 void RezzollaZhidenko::circularVelocity(double const coor[4], double vel[4],
 					double dir) const {
 
+  if (keplerian_) {
+    // If keplerian_ is true, let the generic implementation return
+    // the Newtonian Keplerian (i.e. r^-3/2) velocity instead of the
+    // true circular velocity
+    Generic::circularVelocity(coor, vel, dir);
+    return;
+  }
+
 # if GYOTO_DEBUG_ENABLED
   GYOTO_DEBUG<<"coor=["<<coor[0]<<", "<<coor[1]<<", "<<coor[2]<<", "<<coor[3]
 	     <<"], dir="<<dir<<endl;
diff --git a/lib/SchwarzschildHarmonic.C b/lib/SchwarzschildHarmonic.C
index d8c0a72..415349c 100644
--- a/lib/SchwarzschildHarmonic.C
+++ b/lib/SchwarzschildHarmonic.C
@@ -105,6 +105,14 @@ int SchwarzschildHarmonic::isStopCondition(double const * const coord) const {
 
 void SchwarzschildHarmonic::circularVelocity(double const * coor, double* vel,
 					     double dir) const {
+  if (keplerian_) {
+    // If keplerian_ is true, let the generic implementation return
+    // the Newtonian Keplerian (i.e. r^-3/2) velocity instead of the
+    // true circular velocity
+    Generic::circularVelocity(coor, vel, dir);
+    return;
+  }
+
   double sinth = sin(coor[2]);
   double rBL = coor[1]+1.;
   double coord[4] = {coor[0], rBL*sinth, M_PI*0.5, coor[3]};
-- 
2.43.0


From 3fe1df13bea5aa188c95dbfef8e06f676ae60f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:27 +0000
Subject: [PATCH 06/97] fix: circularVelocity of RezzollaZhidenko,
 KonoplyaRezzollaZhidenko and ChernSimons ignored the orbit direction; RZ and
 KRZ were not normalised (KRZ: nor projected) off the equatorial plane

---
 include/GyotoKonoplyaRezzollaZhidenko.h |  2 +-
 lib/ChernSimons.C                       |  2 +-
 lib/KonoplyaRezzollaZhidenko.C          | 15 +++++++--------
 lib/RezzollaZhidenko.C                  |  5 ++---
 4 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/include/GyotoKonoplyaRezzollaZhidenko.h b/include/GyotoKonoplyaRezzollaZhidenko.h
index e5513db..319d8b4 100644
--- a/include/GyotoKonoplyaRezzollaZhidenko.h
+++ b/include/GyotoKonoplyaRezzollaZhidenko.h
@@ -92,7 +92,7 @@ class Gyoto::Metric::KonoplyaRezzollaZhidenko
   double dthW(const double rr, const double th) const;
   double drK2(const double rr, const double th) const;
   double dthK2(const double rr, const double th) const;
-  double KeplerianSpecificAngularMomentum(const double rr, const double th) const;
+  double KeplerianSpecificAngularMomentum(const double rr, const double th, const double dir=1.) const;
   double KeplerianAngularVelocity(const double rr, const double th, const double ell) const;
   double KeplerianEnergy(const double rr, const double th, const double Omega) const;
   double KeplerianAngularMomentum(const double rr, const double th, const double Omega) const;
diff --git a/lib/ChernSimons.C b/lib/ChernSimons.C
index 7176b55..1faf716 100644
--- a/lib/ChernSimons.C
+++ b/lib/ChernSimons.C
@@ -319,7 +319,7 @@ void ChernSimons::circularVelocity(double const coor[4], double vel[4],
   // This is Omega_CS:
   vel[3] =
     (
-     aa*fact+56.*r5*r2*sqrt(4.*(r3-a2)/r4+a2*fact*fact/(3136.*r5*r5*r4))
+     aa*fact+dir*56.*r5*r2*sqrt(4.*(r3-a2)/r4+a2*fact*fact/(3136.*r5*r5*r4))
      )
     /
     (
diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index 4f6b23c..5b4b270 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -669,7 +669,7 @@ int KonoplyaRezzollaZhidenko::isStopCondition(double const * const coord) const
   return coord[1] < rsink ;
 }
 
-double KonoplyaRezzollaZhidenko::KeplerianSpecificAngularMomentum(const double rr, const double th) const {
+double KonoplyaRezzollaZhidenko::KeplerianSpecificAngularMomentum(const double rr, const double th, const double dir) const {
   double rr2 = rr*rr, rr3 = rr2*rr, 
          sinth = sin(th), sinth2 = sinth*sinth;
   double NN2 = N2(rr, th), NN22 = NN2*NN2, drNN2 = drN2(rr,th),
@@ -683,10 +683,10 @@ double KonoplyaRezzollaZhidenko::KeplerianSpecificAngularMomentum(const double r
   double gtt = -(NN2-WW2*sinth2)/KK2,
          gtp = -WW*rr*sinth2,
          gpp = KK2*rr2*sinth2;
-  // Positive Omega for for a prograde motion
+  // Omega has the sign of dir (positive for a prograde motion)
   double Omega1 = -(gtp+ell1*gtt)/(gpp+ell1*gtp);//,
     //Omega2 = -(gtp+ell2*gtt)/(gpp+ell2*gtp);
-  double ell = (Omega1 > 0) ? ell1 : ell2;       
+  double ell = (dir*Omega1 > 0) ? ell1 : ell2;       
   return ell;
 } 
 
@@ -754,16 +754,15 @@ void KonoplyaRezzollaZhidenko::circularVelocity(double const coor[4], double vel
   GYOTO_DEBUG<<"coor=["<<coor[0]<<", "<<coor[1]<<", "<<coor[2]<<", "<<coor[3]
 	     <<"], dir="<<dir<<endl;
 # endif
-  double th = coor[2], sinth = sin(th), rr = coor[1]*sinth;// rr projected on equat plane // Irene: why?? 
-  double coord[4] = {coor[0],rr,M_PI*0.5,coor[3]};
-  double ell = KeplerianSpecificAngularMomentum(rr,th),
+  double th = M_PI*0.5, rr = coor[1]*sin(coor[2]);// position projected on equat plane
+  double ell = KeplerianSpecificAngularMomentum(rr,th,dir),
          Omega = KeplerianAngularVelocity(rr,th,ell);
 
   vel[1] = vel[2] = 0.;
-  // In Kerr: vel[3] = 1./((dir*pow(coord[1], 1.5) + spin_)); // Irene: dir?? 
+  // In Kerr: vel[3] = 1./((dir*pow(rr, 1.5) + spin_));
   vel[3] = Omega; //sqrt(2./rr)*sqrt((drNN2-2.*WW*drWW-(NN2-WW2)*drKK2)/KK22); // this is Omega=dphi/dt
 
-  vel[0] = SysPrimeToTdot(coord, vel+1); // dt/dtau
+  vel[0] = SysPrimeToTdot(coor, vel+1); // dt/dtau
   vel[3] *= vel[0]; // dphi/dtau
 # if GYOTO_DEBUG_ENABLED
   GYOTO_DEBUG_ARRAY(vel,4);
diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index 4b68e71..f632c92 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -313,13 +313,12 @@ void RezzollaZhidenko::circularVelocity(double const coor[4], double vel[4],
 	     <<"], dir="<<dir<<endl;
 # endif
   double sinth = sin(coor[2]), rr = coor[1]*sinth;// rr projected on equat plane
-  double coord[4] = {coor[0],rr,M_PI*0.5,coor[3]};
 
   vel[1] = vel[2] = 0.;
   double Np = Nprime(rr), NN=sqrt(N2(rr));
-  vel[3] = sqrt(Np*NN/rr); // this is Omega=dphi/dt
+  vel[3] = dir*sqrt(Np*NN/rr); // this is Omega=dphi/dt
 
-  vel[0] = SysPrimeToTdot(coord, vel+1); // dt/dtau
+  vel[0] = SysPrimeToTdot(coor, vel+1); // dt/dtau
   vel[3] *= vel[0]; // dphi/dtau
 # if GYOTO_DEBUG_ENABLED
   GYOTO_DEBUG_ARRAY(vel,4);
-- 
2.43.0


From af08cd214c5aca2910e8fc785713519d83ea828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:27 +0000
Subject: [PATCH 07/97] fix: KerrKS::circularVelocity ignored the spin, so the
 velocity was not that of a circular geodesic

---
 lib/KerrKS.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/KerrKS.C b/lib/KerrKS.C
index ee28cf9..3351289 100644
--- a/lib/KerrKS.C
+++ b/lib/KerrKS.C
@@ -271,7 +271,7 @@ void KerrKS::circularVelocity(double const coor[4], double vel[4],
   }
 
   double rcross=sqrt ( coor[1]*coor[1] + coor[2]*coor[2] - spin_*spin_);
-  double Omega=dir*pow(rcross*rcross*rcross, -0.5);//angular Keplerian velocity
+  double Omega=1./(dir*pow(rcross, 1.5)+spin_);//angular velocity of the circular geodesic
   
   vel[1] = -coor[2]*Omega;
   vel[2] =  coor[1]*Omega;
-- 
2.43.0


From 2dab401e906548763e700dae9a10800cc394778c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:24 +0000
Subject: [PATCH 08/97] fix: runge_kutta_dopri5 integrator reused the
 derivative of its previous step at unrelated points, so positions
 interpolated along a worldline were wrong

---
 lib/WorldlineIntegState.C | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index b89290a..6101047 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -581,6 +581,9 @@ void Gyoto::Worldline::IntegState::Boost::setup_stepper(){
         mutable
         -> controlled_step_result
       {
+        // This stepper remembers the derivative at the end of its last
+        // step; inout is not necessarily that point.
+        controlled.reset();
         return controlled.try_step(this->system_, inout, t, h);
       };
       do_step_ =
@@ -588,6 +591,7 @@ void Gyoto::Worldline::IntegState::Boost::setup_stepper(){
         (state_t &inout, double h)
         mutable
       {
+        controlled.stepper().reset(); // see above
         controlled.stepper().do_step(this->system_, inout, 0., h);
       };
       break;
-- 
2.43.0


From 1713e2d2c82a74eda6857147aad94e66fe6d81be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:27 +0000
Subject: [PATCH 09/97] fix: reference norm of the integrators was the norm of
 the tangent vector instead of its square, so extending a photon's worldline
 could stall

---
 lib/WorldlineIntegState.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 6101047..9931da4 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -74,7 +74,7 @@ Worldline::IntegState::Generic::init(Worldline * line,
   line_=line;
   init();
   delta_=delta;
-  if (line_->getImin() <= line_->getImax() && gg_) norm_=normref_= gg_->norm(&coord[0],&coord[4]);
+  if (line_->getImin() <= line_->getImax() && gg_) norm_=normref_= gg_->ScalarProd(&coord[0],&coord[4],&coord[4]);
 }
 
 void Worldline::IntegState::Generic::checkNorm(double coord[8])
-- 
2.43.0


From f652f0465216929e925abff579e59bdbab36d945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:09 +0000
Subject: [PATCH 10/97] fix: Worldline::getCoord interpolated the azimuth
 between values taken modulo 2 pi, giving a wrong position where the worldline
 crosses phi=0

---
 lib/Worldline.C | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index aa5fd53..9002b7a 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1042,6 +1042,9 @@ void Worldline::getCoord(double const * const dates, size_t const n_dates,
     }
 
     if (proper) {
+      if (metric_->coordKind() == GYOTO_COORDKIND_SPHERICAL)
+	// phi is known modulo 2 pi: interpolate between close values
+	resh[3] -= 2.*M_PI*round((resh[3]-resl[3])/(2.*M_PI));
       facth=dtaul/(bestauh-bestaul);
       factl=1.-facth;
       if (otime)     otime[di] = factl*resl[0]+facth*resh[0];
@@ -1160,6 +1163,10 @@ void Worldline::getCoord(double const * const dates, size_t const n_dates,
       }
     }
 
+    if (metric_->coordKind() == GYOTO_COORDKIND_SPHERICAL)
+      // phi is known modulo 2 pi: interpolate between close values
+      besth[3] -= 2.*M_PI*round((besth[3]-bestl[3])/(2.*M_PI));
+
     dtl=date-bestl[0]; Dt=besth[0]-bestl[0]; Dtm1=1./Dt;
     facth=dtl*Dtm1; factl=1.-facth;
     if (otime)       otime[di] = bestaul*factl + bestauh*facth;
-- 
2.43.0


From 6ea3bf5456397b17a34d101ecc0560692c6c4627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:32 +0000
Subject: [PATCH 11/97] fix: cloning a worldline lost its choice of the 3+1
 equations of motion

---
 lib/WorldlineIntegState.C | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 9931da4..0291cf5 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -234,7 +234,11 @@ void Worldline::IntegState::Boost::init()
 
 Worldline::IntegState::Boost *
 Worldline::IntegState::Boost::clone(Worldline*newparent) const
-{ return new Boost(newparent, kind_); }
+{
+  Boost * cl = new Boost(newparent, kind_);
+  cl -> integ31(integ_31_);
+  return cl;
+}
 
 
 
-- 
2.43.0


From 2755a6441ebb932042c506c4d5c4e367666fd93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:47 +0000
Subject: [PATCH 12/97] fix: 3+1 integration stalled (norm check applied to the
 3+1 state) and was interpolated with a wrong time step and axis-crossing
 correction

---
 include/GyotoWorldline.h  |  5 ++++-
 lib/WorldlineIntegState.C | 12 +++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/GyotoWorldline.h b/include/GyotoWorldline.h
index 1c3713e..5036cf1 100644
--- a/include/GyotoWorldline.h
+++ b/include/GyotoWorldline.h
@@ -1126,7 +1126,10 @@ class Gyoto::Worldline::IntegState::Boost : public Generic {
     {
       // Standard Boost numerical error
       Value err_default = checker.error(algebra, x_old, dxdt_old, x_err, dt);
-      
+
+      // In the 3+1 formalism the state does not contain the 4-velocity
+      if (x_old.size() < 8) return err_default;
+
       // Compute new vector (4-position, 4-velocity, polar basis if parallel_transport)
       state_t x_new=x_old;
       do_step_(x_new, dt);
diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 0291cf5..9a12676 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -395,12 +395,11 @@ void Worldline::IntegState::Boost::doStep(state_t const &coordin,
     xx = {EE,rr,th,ph,Vr,Vth,Vph};
   }
 
-  // We call the Boost stepper
+  // We call the Boost stepper. step is an increment of the affine
+  // parameter, the 3+1 equations are integrated over coordinate time.
+  if (integ_31_) step *= coordout[4];
   do_step_(xx, step);
-  if (gg_ -> coordKind() == GYOTO_COORDKIND_SPHERICAL){
-    line_->checkPhiTheta(&xx[0]);
-  }
-  
+
   // Transform back to original vector coord
   if (integ_31_==false) coordout = xx;
   else{
@@ -421,6 +420,9 @@ void Worldline::IntegState::Boost::doStep(state_t const &coordin,
     
     coordout = {tnew,rr,th,ph,tdotnew,rdot,thdot,phdot};
   }
+  if (gg_ -> coordKind() == GYOTO_COORDKIND_SPHERICAL){
+    line_->checkPhiTheta(&coordout[0]);
+  }
 }
 
 std::string Worldline::IntegState::Boost::kind() {
-- 
2.43.0


From 5f92e25c3ef381f94a9641ac084950280fb35805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:47 +0000
Subject: [PATCH 13/97] fix: integrator name runge_kutta_cash_karp54_classic
 was reported as runge_kutta_cash_karp5, which cannot be read back

---
 lib/WorldlineIntegState.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 9a12676..4f2f9f5 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -429,7 +429,7 @@ std::string Worldline::IntegState::Boost::kind() {
   if (kind_== Kind::runge_kutta_cash_karp54) return "runge_kutta_cash_karp54";
   if (kind_== Kind::runge_kutta_fehlberg78) return "runge_kutta_fehlberg78";
   if (kind_== Kind::runge_kutta_dopri5) return "runge_kutta_dopri5";
-  if (kind_== Kind::runge_kutta_cash_karp54_classic) return "runge_kutta_cash_karp5";
+  if (kind_== Kind::runge_kutta_cash_karp54_classic) return "runge_kutta_cash_karp54_classic";
   GYOTO_ERROR("unknown enum value");
   return "error";
 } 
-- 
2.43.0


From f1ec31f42a75786a687a018afc13a026b964cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:21 +0000
Subject: [PATCH 14/97] fix: parameter changes of ReissnerNordstrom,
 RezzollaZhidenko, KonoplyaRezzollaZhidenko, ChernSimons and Shift did not
 reset the worldlines integrated in them

---
 lib/ChernSimons.C              | 2 +-
 lib/KonoplyaRezzollaZhidenko.C | 2 ++
 lib/ReissnerNordstrom.C        | 1 +
 lib/RezzollaZhidenko.C         | 8 +++++++-
 lib/Shift.C                    | 1 +
 5 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/ChernSimons.C b/lib/ChernSimons.C
index 1faf716..9aaccb7 100644
--- a/lib/ChernSimons.C
+++ b/lib/ChernSimons.C
@@ -35,7 +35,7 @@ GYOTO_PROPERTY_DOUBLE(ChernSimons, DzetaCS, dzetaCS, "Chern-Simons coupling cons
 GYOTO_PROPERTY_END(ChernSimons, KerrBL::properties)
 
 // accessor
-void ChernSimons::dzetaCS(double d) {dzetaCS_=d;}
+void ChernSimons::dzetaCS(double d) {dzetaCS_=d; tellListeners();}
 double ChernSimons::dzetaCS() const {return dzetaCS_;}
 
 ///
diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index 5b4b270..446b0d4 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -99,6 +99,7 @@ void KonoplyaRezzollaZhidenko::deltashorizon(std::vector<double> const &v) {
     }
   }
   for (size_t i=n; i<GYOTO_NB_DELTAHOR_MAX; ++i) deltashorizon_[i]=0.;
+  tellListeners();
 }
 std::vector<double> KonoplyaRezzollaZhidenko::deltashorizon() const {
   std::vector<double> v(GYOTO_NB_DELTAHOR_MAX, 0.);
@@ -120,6 +121,7 @@ void KonoplyaRezzollaZhidenko::deltasasymptotics(std::vector<double> const &v) {
     deltasasymptotics_[i]=v[i];
   }
   for (size_t i=n; i<GYOTO_NB_DELTAINF_MAX; ++i) deltasasymptotics_[i]=0.;
+  tellListeners();
 }
 std::vector<double> KonoplyaRezzollaZhidenko::deltasasymptotics() const {
   std::vector<double> v(GYOTO_NB_DELTAINF_MAX, 0.);
diff --git a/lib/ReissnerNordstrom.C b/lib/ReissnerNordstrom.C
index 132bc0f..d29c9d0 100644
--- a/lib/ReissnerNordstrom.C
+++ b/lib/ReissnerNordstrom.C
@@ -61,6 +61,7 @@ Gyoto::Metric::ReissnerNordstrom::~ReissnerNordstrom()
 // Mutators
 void ReissnerNordstrom::charge(const double charge) {
   charge_=charge;
+  tellListeners();
 }
 
 // Accessors
diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index f632c92..e384693 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -45,7 +45,11 @@ GYOTO_PROPERTY_VECTOR_DOUBLE(RezzollaZhidenko, BParam, bparam,
 GYOTO_PROPERTY_END(RezzollaZhidenko, Generic::properties)
 
 // accessors
-GYOTO_PROPERTY_ACCESSORS(RezzollaZhidenko, double, epsilon_, epsilon)
+void RezzollaZhidenko::epsilon(double val) {
+  epsilon_=val;
+  tellListeners();
+}
+double RezzollaZhidenko::epsilon() const { return epsilon_; }
 GYOTO_PROPERTY_ACCESSORS(RezzollaZhidenko, double, rms_, rms)
 GYOTO_PROPERTY_ACCESSORS(RezzollaZhidenko, double, rmb_, rmb)
 
@@ -59,6 +63,7 @@ void RezzollaZhidenko::aparam(std::vector<double> const &v) {
     if (aparam_[i]<0.) GYOTO_ERROR("In RezzollaZhidenko: param < 0!");
   }
   for (size_t i=n; i<GYOTO_NBPARAM_MAX; ++i) aparam_[i]=0.;
+  tellListeners();
 }
 std::vector<double> RezzollaZhidenko::aparam() const {
   std::vector<double> v(GYOTO_NBPARAM_MAX, 0.);
@@ -75,6 +80,7 @@ void RezzollaZhidenko::bparam(std::vector<double> const &v) {
     if (bparam_[i]<0.) GYOTO_ERROR("In RezzollaZhidenko: param < 0!");
   }
   for (size_t i=n; i<GYOTO_NBPARAM_MAX; ++i) bparam_[i]=0.;
+  tellListeners();
 }
 std::vector<double> RezzollaZhidenko::bparam() const {
   std::vector<double> v(GYOTO_NBPARAM_MAX, 0.);
diff --git a/lib/Shift.C b/lib/Shift.C
index 7d7c006..f21373e 100644
--- a/lib/Shift.C
+++ b/lib/Shift.C
@@ -83,6 +83,7 @@ void Shift::offset(std::vector<double> const &v) {
   if (v.size() !=4)
     GYOTO_ERROR("Shift offset needs exactly 4 tokens"); 
   for (int i=0; i<4; ++i) offset_[i]=v[i];
+  tellListeners();
 }
 
 std::vector<double> Shift::offset() const {
-- 
2.43.0


From 4de9c42ec5047e8013ca81807666d057b2fa77ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:21 +0000
Subject: [PATCH 15/97] fix: a cloned worldline was not told about changes in
 its metric

---
 lib/Worldline.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index 9002b7a..102c8ba 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -90,6 +90,7 @@ Worldline::Worldline(const Worldline& orig) :
     GYOTO_DEBUG << "cloning metric\n";
 #   endif
     metric_=orig.metric_->clone();
+    metric_->hook(this);
   }
 
   state_ = orig.state_->clone(this);
-- 
2.43.0


From 88c6f325a848e57d136c932f29666ca26bfd9ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:21 +0000
Subject: [PATCH 16/97] fix: cloning a Shift metric shared the underlying
 metric, so that changing one changed the other

---
 include/GyotoShift.h | 1 +
 lib/Shift.C          | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/GyotoShift.h b/include/GyotoShift.h
index 184d6c2..6f59c76 100644
--- a/include/GyotoShift.h
+++ b/include/GyotoShift.h
@@ -55,6 +55,7 @@ class Gyoto::Metric::Shift
   // This is the bare minimum of what a Metric class must implement:
   GYOTO_OBJECT;
   Shift();
+  Shift(const Shift &o);
   virtual ~Shift();
   virtual Shift* clone() const ;
 
diff --git a/lib/Shift.C b/lib/Shift.C
index f21373e..65d88ce 100644
--- a/lib/Shift.C
+++ b/lib/Shift.C
@@ -54,6 +54,15 @@ Shift::Shift() :
 Generic(GYOTO_COORDKIND_CARTESIAN, "Shift"),
   submet_(NULL)
 {for (int i=0; i<4; ++i) offset_[i]=0.;}
+Shift::Shift(const Shift &o) :
+  Generic(o), submet_(NULL)
+{
+  for (int i=0; i<4; ++i) offset_[i]=o.offset_[i];
+  if (o.submet_()) {
+    submet_=o.submet_->clone();
+    submet_->hook(this);
+  }
+}
 Shift* Shift::clone() const { return new Shift(*this); }
 Shift::~Shift(){
   if (submet_) submet_->unhook(this);
-- 
2.43.0


From 4e5e4bde4441b1d50d81b46ce8430d24d6264dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:34 +0000
Subject: [PATCH 17/97] fix: Complex metric did not notify changes in its
 elements, nor of appended or removed ones, and leaked its element array

---
 include/GyotoComplexMetric.h |  4 +++-
 lib/ComplexMetric.C          | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/GyotoComplexMetric.h b/include/GyotoComplexMetric.h
index 19438f6..6fcf546 100644
--- a/include/GyotoComplexMetric.h
+++ b/include/GyotoComplexMetric.h
@@ -44,7 +44,8 @@ namespace Gyoto {
  */
 
 class Gyoto::Metric::Complex
-  : public Gyoto::Metric::Generic, Gyoto::WIP
+  : public Gyoto::Metric::Generic, Gyoto::WIP,
+    public Gyoto::Hook::Listener
 {
   friend class Gyoto::SmartPointer<Gyoto::Metric::Complex>;
 
@@ -71,6 +72,7 @@ class Gyoto::Metric::Complex
    *  Frees every SmartPointer<Metric::Generic> before freed the array itself.
    */
   virtual ~Complex() ; ///< Destructor
+  virtual void tell(Gyoto::Hook::Teller *msg);
   void append(Gyoto::SmartPointer<Gyoto::Metric::Generic> element);
   ///< Add element at the end of the array.
   void remove(size_t i);
diff --git a/lib/ComplexMetric.C b/lib/ComplexMetric.C
index 806da1e..ffb4274 100644
--- a/lib/ComplexMetric.C
+++ b/lib/ComplexMetric.C
@@ -46,6 +46,7 @@ Complex::Complex(const Complex& o) :
     elements_ = new SmartPointer<Generic> [cardinal_];
     for (size_t i=0; i< cardinal_; ++i) {
       elements_[i] = o[i]->clone();
+      elements_[i] -> hook(this);
     }
   }
 }
@@ -53,9 +54,15 @@ Complex *Complex::clone() const {return new Complex(*this); }
 
 Complex::~Complex()
 {
-  if (cardinal_) for (size_t i=0; i< cardinal_; ++i) elements_[i] = NULL;
+  for (size_t i=0; i< cardinal_; ++i) {
+    elements_[i] -> unhook(this);
+    elements_[i] = NULL;
+  }
+  delete [] elements_;
 }
 
+void Complex::tell(Hook::Teller *) { tellListeners(); }
+
 bool Complex::isThreadSafe() const {
   bool safe = Generic::isThreadSafe();
   for (size_t i=0; i < cardinal_; ++i) safe &= elements_[i] -> isThreadSafe();
@@ -77,6 +84,8 @@ void Complex::append(SmartPointer<Generic> e)
   elements_[cardinal_] = e;
   ++cardinal_;
   coordKind(e->coordKind());
+  e -> hook(this);
+  tellListeners();
   GYOTO_DEBUG << "done" << std::endl;
 }
 
@@ -98,6 +107,7 @@ void Complex::remove(size_t i) {
   if (i >= cardinal_)
     GYOTO_ERROR("Complex::remove(size_t i): no such element");
   SmartPointer<Generic> * orig = elements_;
+  orig[i] -> unhook(this);
   if (--cardinal_) elements_ = new SmartPointer<Generic> [cardinal_];
   else elements_ = NULL;
   size_t k, j=0;
@@ -107,6 +117,7 @@ void Complex::remove(size_t i) {
   }
   delete [] orig;
   if (!cardinal_) coordKind(GYOTO_COORDKIND_UNSPECIFIED);
+  tellListeners();
 }
 
 size_t Complex::getCardinal() const {return cardinal_; }
-- 
2.43.0


From fb81dfecb794e1cc7e2a3835df21bbe58dca2b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:34 +0000
Subject: [PATCH 18/97] fix: clones of KonoplyaRezzollaZhidenko (spin^3) and
 RezzollaZhidenko (Rmb) had a wrong parameter

---
 lib/KonoplyaRezzollaZhidenko.C | 2 +-
 lib/RezzollaZhidenko.C         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index 446b0d4..9cb6652 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -150,7 +150,7 @@ Gyoto::Metric::KonoplyaRezzollaZhidenko::KonoplyaRezzollaZhidenko()
 
 Gyoto::Metric::KonoplyaRezzollaZhidenko::KonoplyaRezzollaZhidenko(const KonoplyaRezzollaZhidenko & orig)
   : Generic(orig),
-    spin_(orig.spin_), spin2_(orig.spin2_), spin3_(orig.spin4_), spin4_(orig.spin4_),
+    spin_(orig.spin_), spin2_(orig.spin2_), spin3_(orig.spin3_), spin4_(orig.spin4_),
     rms_(orig.rms_), deltashorizon_(NULL), deltasasymptotics_(NULL)
 {
   GYOTO_DEBUG << endl;
diff --git a/lib/RezzollaZhidenko.C b/lib/RezzollaZhidenko.C
index e384693..4a87c09 100644
--- a/lib/RezzollaZhidenko.C
+++ b/lib/RezzollaZhidenko.C
@@ -106,7 +106,7 @@ Gyoto::Metric::RezzollaZhidenko::RezzollaZhidenko()
 
 Gyoto::Metric::RezzollaZhidenko::RezzollaZhidenko(const RezzollaZhidenko & orig)
   : Generic(orig),
-    epsilon_(orig.epsilon_), rms_(orig.rms_), rmb_(orig.rms_), aparam_(NULL), bparam_(NULL)
+    epsilon_(orig.epsilon_), rms_(orig.rms_), rmb_(orig.rmb_), aparam_(NULL), bparam_(NULL)
 {
   GYOTO_DEBUG << endl;
   aparam_ = new double[GYOTO_NBPARAM_MAX];
-- 
2.43.0


From 6741a62eb952b3d00ddeffafda85e36f0547a6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:31 +0000
Subject: [PATCH 19/97] fix: PageThorneDisk could not compute a spectrum
 without parallel transport

---
 lib/PageThorneDisk.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PageThorneDisk.C b/lib/PageThorneDisk.C
index 71d5782..1d37d78 100644
--- a/lib/PageThorneDisk.C
+++ b/lib/PageThorneDisk.C
@@ -298,7 +298,8 @@ void PageThorneDisk::processHitQuantities(Photon* ph, state_t const &coord_ph_hi
         //cout << "transmission : " << ph -> getTransmission(size_t(-1)) << endl;
       }
     }
-    if (data->spectrum||data->stokesQ||data->stokesU||data->stokesV) {
+    if ((data->spectrum && ph -> parallelTransport())
+	||data->stokesQ||data->stokesU||data->stokesV) {
       //ggred=1.;
       if (!ph -> parallelTransport())
         GYOTO_ERROR("parallelTransport not true, impossible to compute polarisation");
-- 
2.43.0


From d7074e18380570703928e9f1e44a2b838ddeb990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:31 +0000
Subject: [PATCH 20/97] fix: PatternDisk interpolated in a non-rotated azimuth
 when the pattern rotates

---
 lib/PatternDisk.C | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/PatternDisk.C b/lib/PatternDisk.C
index 367bc5a..208fead 100644
--- a/lib/PatternDisk.C
+++ b/lib/PatternDisk.C
@@ -611,6 +611,7 @@ void PatternDisk::getIndices(size_t i[3], double const co[4], double nu) const {
   phi -= Omega_*(t-t0_);
 
   while (phi<0) phi += 2.*M_PI;
+  while (phi>2.*M_PI) phi -= 2.*M_PI;
 
   if (repeat_phi_>1) phi=fmod((phi-phimin_),(phimax_-phimin_)/double(repeat_phi_))+phimin_;
   // wrap phi if the disk is periodic with period repeat_phi_
@@ -676,7 +677,9 @@ void PatternDisk::getVelocity(double const pos[4], double vel[4]) {
     //cout << "in pattern getvel after getIndices" << endl;
     
     double rr = projectedRadius(pos);
-    double phi = sphericalPhi(pos);
+    double phi = sphericalPhi(pos) - Omega_*(pos[0]-t0_);
+    while (phi<0.) phi += 2.*M_PI;
+    while (phi>2.*M_PI) phi -= 2.*M_PI;
 
     if (repeat_phi_>1) phi=fmod(phi-phimin_,(phimax_-phimin_)/double(repeat_phi_))+phimin_;
 
@@ -810,7 +813,9 @@ double PatternDisk::emission(double nu, double dsem,
   getIndices(i, co, nu);
 
   double rr = projectedRadius(co);
-  double phi = sphericalPhi(co);
+  double phi = sphericalPhi(co) - Omega_*(co[0]-t0_);
+  while (phi<0.) phi += 2.*M_PI;
+  while (phi>2.*M_PI) phi -= 2.*M_PI;
 
   if (repeat_phi_>1) phi=fmod(phi-phimin_,(phimax_-phimin_)/double(repeat_phi_))+phimin_;
 
-- 
2.43.0


From 31a291dce6e6cb38ffb4352fd2f48b749aed90e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:31 +0000
Subject: [PATCH 21/97] fix: ThinDiskIronLine LineFreq with a unit was
 converted twice

---
 lib/ThinDiskIronLine.C | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/ThinDiskIronLine.C b/lib/ThinDiskIronLine.C
index 86f1f88..50dbe03 100644
--- a/lib/ThinDiskIronLine.C
+++ b/lib/ThinDiskIronLine.C
@@ -53,10 +53,12 @@ double ThinDiskIronLine::CutRadius(std::string const &u)const{
 void ThinDiskIronLine::LineFreq(double v) {linefreq_=v*___local_f;}
 double ThinDiskIronLine::LineFreq()const{return linefreq_/___local_f;}
 void ThinDiskIronLine::LineFreq(double v, std::string const &u) {
-  LineFreq(Units::ToHerz(v, u));
+  // default unit is keV
+  if (u == "") LineFreq(v);
+  else linefreq_=Units::ToHerz(v, u);
 }
 double ThinDiskIronLine::LineFreq(std::string const &u)const{
-  return Units::FromHerz(LineFreq(), u);
+  return (u == "") ? LineFreq() : Units::FromHerz(linefreq_, u);
 }
 #undef ___local_f
 ///
-- 
2.43.0


From e44742e4e990a2e0cacfbc7f41cc64a343a2ae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:13 +0000
Subject: [PATCH 22/97] fix: rays were not stopped by the optically thick
 PageThorneDisk when a spectrometer is set

---
 lib/PageThorneDisk.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/PageThorneDisk.C b/lib/PageThorneDisk.C
index 1d37d78..943794f 100644
--- a/lib/PageThorneDisk.C
+++ b/lib/PageThorneDisk.C
@@ -363,6 +363,8 @@ void PageThorneDisk::processHitQuantities(Photon* ph, state_t const &coord_ph_hi
     /* update photon's transmission */
     ph -> transmit(size_t(-1),0); // We force the transmission to be zero because optically thick
                                   // and radiativeQ(polar) implemented which break the flag loop in Generic
+    if (!ph -> parallelTransport())
+      for (size_t ii=0; ii<nbnuobs; ++ii) ph -> transmit(ii, 0.);
   } else {
 #   if GYOTO_DEBUG_ENABLED
     GYOTO_DEBUG << "NO data requested!" << endl;
-- 
2.43.0


From 2a6d9c4d5e8dff615e3d3b06585b019c1423370b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:36 +0000
Subject: [PATCH 23/97] fix: threads shared one Astrobj when ray-tracing from
 impact coordinates

---
 lib/Scenery.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index 27023a1..26cd37f 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -747,7 +747,8 @@ void Scenery::operator() (
       ph -> resetTransmission();
       state_t coord(8);
       ph -> getInitialCoord(coord);
-      astrobj() -> processHitQuantities(ph,coord,impactcoords,0.,data);
+      // use the copy owned by this Photon (hence by this thread)
+      ph -> astrobj() -> processHitQuantities(ph,coord,impactcoords,0.,data);
     }
   } else {
 #   if GYOTO_DEBUG_ENABLED
-- 
2.43.0


From 3632e27d9bc46c2d021950cd7c01b1608723f134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:45 +0000
Subject: [PATCH 24/97] fix: emission date and redshift of an opaque object
 were taken beneath its surface

---
 lib/StandardAstrobj.C | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/StandardAstrobj.C b/lib/StandardAstrobj.C
index 4401491..97a7113 100644
--- a/lib/StandardAstrobj.C
+++ b/lib/StandardAstrobj.C
@@ -198,8 +198,12 @@ int Standard::Impact(Photon* ph, size_t index, Properties *data){
     }
 
     // dt == 0 means the two points are outside
-    if (dt != 0.)
+    if (dt != 0.) {
       processHitQuantities(ph, cph, coh, dt, data);
+      // Nothing is visible beyond an optically thick layer
+      if (data && ph -> getTransmissionMax() == 0.)
+	return 1;
+    }
 
     // Copy next to current
     cph = cph_next;
-- 
2.43.0


From b74cba79d3419092a85c30778ca9d6001722318e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:31 +0000
Subject: [PATCH 25/97] fix: distant cameras scaled the position angle of
 SphericalAngles and did not scale Dangle1/2

---
 lib/Screen.C | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/Screen.C b/lib/Screen.C
index 9fd6825..fc198b6 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -552,6 +552,7 @@ void Screen::getRayTriad(double angle1, double angle2,
   getObserverPos(coord);
 
   double robs = distance_ / gg_->unitLength();
+  double dangle1 = dangle1_, dangle2 = dangle2_;
 
   if (robs > dmax_) {
     // scale
@@ -569,8 +570,14 @@ void Screen::getRayTriad(double angle1, double angle2,
     default:
       throwError("Unimplemented coordkind");
     }
+    // scale all the offsets from the direction of the centre, but not
+    // the position angle b of spherical angles
     angle1 *= scale;
-    angle2 *= scale;
+    dangle1 *= scale;
+    if (anglekind_ != spherical_angles) {
+      angle2 *= scale;
+      dangle2 *= scale;
+    }
   }
 
   coord[4]=coord[5]=coord[6]=coord[7]=0.;//initializing 4-velocity
@@ -583,8 +590,8 @@ void Screen::getRayTriad(double angle1, double angle2,
       GYOTO screen labelled by spherical
       angles a and b (see Fig. in user guide)
      */
-    spherical_angle_a = angle1+dangle1_;
-    spherical_angle_b = angle2+dangle2_;
+    spherical_angle_a = angle1+dangle1;
+    spherical_angle_b = angle2+dangle2;
     break;
   case rectilinear:
     spherical_angle_a = atan(sqrt(angle1*angle1+angle2*angle2));
@@ -665,11 +672,11 @@ void Screen::getRayTriad(double angle1, double angle2,
 		 -cos(spherical_angle_a)};
   if (anglekind_ != spherical_angles) {
     // Rotate around Y by dangle1, then around new X by dangle2
-    double c, s; sincos(dangle1_, &s, &c);
+    double c, s; sincos(dangle1, &s, &c);
     double vel_rot[3]={c*vel[0]+s*vel[2],
 		       vel[1],
 		       -s*vel[0]+c*vel[2]};
-    sincos(dangle2_, &s, &c);
+    sincos(dangle2, &s, &c);
     vel[0]=vel_rot[0];
     vel[1]=c*vel_rot[1]-s*vel_rot[2];
     vel[2]=s*vel_rot[1]+c*vel_rot[2];
-- 
2.43.0


From c7ade866b0bc791423aa0efa5af9c4e62f402650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:31 +0000
Subject: [PATCH 26/97] fix: polarisation basis of the Screen ignored Dangle1
 and Dangle2

---
 lib/Screen.C | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Screen.C b/lib/Screen.C
index fc198b6..681b05a 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -810,6 +810,10 @@ void Screen::getRayTriad(double angle1, double angle2,
   }
 
   if (compute_polar_basis==true){
+    // the polarisation basis belongs to the actual direction of the
+    // ray, Dangle1 and Dangle2 included
+    spherical_angle_a = atan2(sqrt(vel[0]*vel[0]+vel[1]*vel[1]), -vel[2]);
+    spherical_angle_b = atan2(-vel[1], -vel[0]);
     double ca, sa; sincos(spherical_angle_a, &sa, &ca);
     double cb, sb; sincos(spherical_angle_b, &sb, &cb);
     double co, so; sincos(euler_[0], &so, &co); // changing name from p (for paln) to o (for Omega) to not confuse with phi
-- 
2.43.0


From bb85b78bb00bdcf351a970e3a02ec833b768cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:52 +0000
Subject: [PATCH 27/97] fix: length expressed as a time (or frequency) was
 multiplied instead of divided by the speed of light

---
 lib/Converters.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Converters.C b/lib/Converters.C
index e2933e1..ca0ed9e 100644
--- a/lib/Converters.C
+++ b/lib/Converters.C
@@ -220,7 +220,7 @@ double Gyoto::Units::FromMeters(double val, const string &unit,
 # ifdef HAVE_UDUNITS
   Unit to (unit);
   if (areConvertible(to, *Meter)) return Meter->From(val, to);
-  if (areConvertible(to, *Second)) return Second->From(val*GYOTO_C, to);
+  if (areConvertible(to, *Second)) return Second->From(val/GYOTO_C, to);
   return FromHerz(GYOTO_C/val, unit);
 # else
   if (unit=="cm")          return val * 1e2;
-- 
2.43.0


From 75f53b5b541e9650413974440f7e6cb8f2d77939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:22 +0000
Subject: [PATCH 28/97] fix: DBL_MAX and DBL_MIN in a vector Property could not
 be read back from XML

---
 lib/Factory.C | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/Factory.C b/lib/Factory.C
index a41deb0..ac669f3 100644
--- a/lib/Factory.C
+++ b/lib/Factory.C
@@ -833,10 +833,12 @@ void Factory::setParameter(std::string name, double val[],
 			   size_t n, DOMElement *pel, FactoryMessenger **child){
 
   ostringstream ss;
-  ss.imbue(Cloc); // set local to 'C'
-  ss << setprecision(GYOTO_PREC) << setw(GYOTO_WIDTH) << val[0];
+  char val_string[dvalLength];
+  d2txt(val_string, val[0]);
+  ss << val_string;
   for (size_t i=1; i<n; ++i) {
-    ss << " " << setprecision(GYOTO_PREC) << setw(GYOTO_WIDTH) << val[i];
+    d2txt(val_string, val[i]);
+    ss << " " << val_string;
   }
   DOMElement*  el = doc_->createElement(X(name.c_str()));
   pel -> appendChild(el);
@@ -856,10 +858,12 @@ void Factory::setParameter(std::string name,
 
   if (n) {
     ostringstream ss;
-    ss.imbue(Cloc); // set local to 'C'
-    ss << setprecision(GYOTO_PREC) << setw(GYOTO_WIDTH) << val[0];
+    char val_string[dvalLength];
+    d2txt(val_string, val[0]);
+    ss << val_string;
     for (size_t i=1; i<n; ++i) {
-      ss << " " << setprecision(GYOTO_PREC) << setw(GYOTO_WIDTH) << val[i];
+      d2txt(val_string, val[i]);
+      ss << " " << val_string;
     }
     el->appendChild( doc_->createTextNode(X(ss.str().c_str())) );
   }
-- 
2.43.0


From 8d79d35ec509cd7e5f3733313e706aeb245e68de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:22 +0000
Subject: [PATCH 29/97] fix: Factory::screen() could not read a Screen document

---
 lib/Factory.C | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/Factory.C b/lib/Factory.C
index ac669f3..43a3ff5 100644
--- a/lib/Factory.C
+++ b/lib/Factory.C
@@ -509,22 +509,25 @@ SmartPointer<Gyoto::Screen> Factory::screen(){
   if (!screen_) {
     DOMXPathResult* result;
     DOMElement *ScreenDOM;
-    result=doc_->evaluate(
+    if (kind_=="Screen") {
+      ScreenDOM = root_;
+    } else {
+      result=doc_->evaluate(
 			  X(("/"+kind_+"/Screen").c_str()),
 			  root_,
 			  resolver_,
 			  DOMXPathResult::ORDERED_NODE_SNAPSHOT_TYPE,
 			  NULL);
-    if (!result->getSnapshotLength()) {
+      if (!result->getSnapshotLength()) {
+	delete result;
+	return NULL;
+      }
+      ScreenDOM = static_cast< xercesc::DOMElement* >(result -> getNodeValue());
       delete result;
-      return NULL;
     }
-    
-    ScreenDOM = static_cast< xercesc::DOMElement* >(result -> getNodeValue());
-    
+
     FactoryMessenger fm ( this, ScreenDOM );
     screen_ = Screen::Subcontractor(&fm);
-    delete result;
   }
   return screen_;
 }
-- 
2.43.0


From 262b78699a5f979c8c630cab3e51ba775bce23ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:32 +0000
Subject: [PATCH 30/97] fix: objects without a data file wrote an XML document
 that could not be read back

---
 lib/Object.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Object.C b/lib/Object.C
index 97ff279..3af5f93 100644
--- a/lib/Object.C
+++ b/lib/Object.C
@@ -354,8 +354,11 @@ void Object::fillProperty(Gyoto::FactoryMessenger *fmp, Property const &p) const
   case Property::double_t:
     fmp->setParameter(name, double(get(p)));
     break;
-  case Property::string_t:
   case Property::filename_t:
+    // no file: nothing to read back
+    if (std::string(get(p)) == "") break;
+    [[fallthrough]];
+  case Property::string_t:
     fmp->setParameter(name, std::string(get(p)));
     break;
   case Property::vector_double_t:
-- 
2.43.0


From 6431e4ac25dc4d7b211a612a3ac9a3ca86017878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:32 +0000
Subject: [PATCH 31/97] fix: DynamicalDisk3D crashed when written to XML before
 a data directory is set

---
 lib/DynamicalDisk3D.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/DynamicalDisk3D.C b/lib/DynamicalDisk3D.C
index b71d24c..458b3e3 100644
--- a/lib/DynamicalDisk3D.C
+++ b/lib/DynamicalDisk3D.C
@@ -600,7 +600,7 @@ void DynamicalDisk3D::file(std::string const &content) {
     GYOTO_ERROR("This Gyoto has no FITS i/o"); 
 #endif     
 }
-std::string DynamicalDisk3D::file() const {return dirname_;}
+std::string DynamicalDisk3D::file() const {return dirname_?dirname_:"";}
 
 void DynamicalDisk3D::tinit(double t) {tinit_=t;}
 double DynamicalDisk3D::tinit()const{return tinit_;}
-- 
2.43.0


From c87818149b42d924f361b9f1889f87ab3e459d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:00 +0000
Subject: [PATCH 32/97] fix: a Screen document written with its Metric could
 not be read back

---
 lib/Screen.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Screen.C b/lib/Screen.C
index 681b05a..b05803b 100644
--- a/lib/Screen.C
+++ b/lib/Screen.C
@@ -1451,6 +1451,7 @@ SmartPointer<Screen> Screen::Subcontractor(FactoryMessenger* fmp) {
     else if (name=="SphericalAngles" ||
 	     name=="EquatorialAngles" ||
 	     name=="Rectilinear")  scr -> anglekind(name);
+    else if (name=="Metric") ; // already set
     else if (name=="Mask")
       scr -> maskFile(content==""?"":fmp->fullPath(content));
     else if (scr->setParameter(name, content, unit))
-- 
2.43.0


From 27537c1a8510f65193ba52ae3ed3f7d6d6f23b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:00 +0000
Subject: [PATCH 33/97] fix: ColorCorrection altered the Temperature of a
 BlackBody and depended on the order of the settings

---
 include/GyotoBlackBodySpectrum.h | 2 +-
 lib/BlackBodySpectrum.C          | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/GyotoBlackBodySpectrum.h b/include/GyotoBlackBodySpectrum.h
index d1b3151..76b22ff 100644
--- a/include/GyotoBlackBodySpectrum.h
+++ b/include/GyotoBlackBodySpectrum.h
@@ -57,7 +57,7 @@ class Gyoto::Spectrum::BlackBody : public Gyoto::Spectrum::Generic {
  protected:
   double T_; ///< Temperature (K)
   double cst_; ///< Scaling constant
-  double Tm1_; ///< 1./T_;
+  double Tm1_; ///< 1./(colorcor_*T_);
   double colorcor_; ///< Color-correction factor, see def in Suleimanov et al., A&A 527 A139 (2011), Eq. 23
   double colorcorm4_; ///< colorcor_ to power -4.
 
diff --git a/lib/BlackBodySpectrum.C b/lib/BlackBodySpectrum.C
index bbd2f35..6308ede 100644
--- a/lib/BlackBodySpectrum.C
+++ b/lib/BlackBodySpectrum.C
@@ -49,12 +49,13 @@ Spectrum::BlackBody * Spectrum::BlackBody::clone() const
 { return new Spectrum::BlackBody(*this); }
 
 double Spectrum::BlackBody::temperature() const { return T_; }
-void Spectrum::BlackBody::temperature(double c) { T_ = c; Tm1_=1./T_; }
+void Spectrum::BlackBody::temperature(double c) {
+  T_ = c; Tm1_=1./(T_*colorcor_); }
 double Spectrum::BlackBody::scaling() const { return cst_; }
 void Spectrum::BlackBody::scaling(double c) { cst_ = c; }
 double Spectrum::BlackBody::colorCorrection() const { return colorcor_; }
 void Spectrum::BlackBody::colorCorrection(double c) {
-  colorcor_ = c; colorcorm4_ = 1./(c*c*c*c); T_*=c; Tm1_/=c;}
+  colorcor_ = c; colorcorm4_ = 1./(c*c*c*c); Tm1_=1./(T_*c);}
 
 double Spectrum::BlackBody::operator()(double nu) const {
   return  colorcorm4_*cst_*nu*nu*nu
-- 
2.43.0


From 17e874127d5a3ddd04d18dc2b3e9014e4fbc1927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:19 +0000
Subject: [PATCH 34/97] fix: disks without a data file crashed on, or could not
 read back, their XML document

---
 lib/DirectionalDisk.C            | 1 +
 lib/Disk3D.C                     | 1 +
 lib/DynamicalDisk.C              | 2 +-
 lib/NeutronStarModelAtmosphere.C | 1 +
 lib/PatternDisk.C                | 1 +
 lib/XillverReflection.C          | 3 +++
 6 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/DirectionalDisk.C b/lib/DirectionalDisk.C
index 4a4015a..c8539de 100644
--- a/lib/DirectionalDisk.C
+++ b/lib/DirectionalDisk.C
@@ -56,6 +56,7 @@ GYOTO_PROPERTY_END(DirectionalDisk, ThinDisk::properties)
 
 void DirectionalDisk::fillProperty(Gyoto::FactoryMessenger *fmp,
 			       Property const &p) const {
+  if (p.name == "File" && filename_ == "") return;
   if (p.name == "File")
     fmp->setParameter("File", (filename_.compare(0,1,"!") ?
 			       filename_ :
diff --git a/lib/Disk3D.C b/lib/Disk3D.C
index 58c3305..6bc558b 100644
--- a/lib/Disk3D.C
+++ b/lib/Disk3D.C
@@ -53,6 +53,7 @@ GYOTO_PROPERTY_END(Disk3D, Generic::properties)
 void Disk3D::fillProperty(Gyoto::FactoryMessenger *fmp,
 			       Property const &p) const {
   if (p.name == "File"){
+    if (filename_ == "") return;
     fmp->setParameter("File", (filename_.compare(0,1,"!") ?
 			       filename_ :
 			       filename_.substr(1)) );
diff --git a/lib/DynamicalDisk.C b/lib/DynamicalDisk.C
index d7e60f1..de4a931 100644
--- a/lib/DynamicalDisk.C
+++ b/lib/DynamicalDisk.C
@@ -308,7 +308,7 @@ double DynamicalDisk::dt()const{return dt_;}
 
 void DynamicalDisk::fillProperty(Gyoto::FactoryMessenger *fmp, Property const &p) const{
   if (p.name == "File"){
-    fmp->setParameter("File", dirname_ );
+    if (dirname_) fmp->setParameter("File", dirname_ );
   }
   else ThinDisk::fillProperty(fmp, p);
 }
diff --git a/lib/NeutronStarModelAtmosphere.C b/lib/NeutronStarModelAtmosphere.C
index b27f3d0..c0f552e 100644
--- a/lib/NeutronStarModelAtmosphere.C
+++ b/lib/NeutronStarModelAtmosphere.C
@@ -67,6 +67,7 @@ GYOTO_PROPERTY_END(NeutronStarModelAtmosphere, NeutronStar::properties)
 
 void NeutronStarModelAtmosphere::fillProperty(Gyoto::FactoryMessenger *fmp,
 			       Property const &p) const {
+  if (p.name == "File" && filename_ == "") return;
   if (p.name == "File")
     fmp->setParameter("File", (filename_.compare(0,1,"!") ?
 			       filename_ :
diff --git a/lib/PatternDisk.C b/lib/PatternDisk.C
index 208fead..29e7691 100644
--- a/lib/PatternDisk.C
+++ b/lib/PatternDisk.C
@@ -51,6 +51,7 @@ GYOTO_PROPERTY_END(PatternDisk, ThinDisk::properties)
 
 void PatternDisk::fillProperty(Gyoto::FactoryMessenger *fmp,
 			       Property const &p) const {
+  if (p.name == "File" && filename_ == "") return;
   if (p.name == "File")
     fmp->setParameter("File", (filename_.compare(0,1,"!") ?
 			       filename_ :
diff --git a/lib/XillverReflection.C b/lib/XillverReflection.C
index a40e8ae..78cc692 100644
--- a/lib/XillverReflection.C
+++ b/lib/XillverReflection.C
@@ -62,6 +62,9 @@ GYOTO_PROPERTY_END(XillverReflection, ThinDisk::properties)
 
 void XillverReflection::fillProperty(Gyoto::FactoryMessenger *fmp,
 				     Property const &p) const {
+  if ((p.name == "FileIllumination" && filenameIllum_ == "") ||
+      (p.name == "FileReflection" && filenameRefl_ == ""))
+    return; // no file: nothing to read back
   if (p.name == "FileIllumination")
     fmp->setParameter("FileIllumination", (filenameIllum_.compare(0,1,"!") ?
 					   filenameIllum_ :
-- 
2.43.0


From 759ab710e2a68044966c93d505bdfe83a0d2cf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:33 +0000
Subject: [PATCH 35/97] fix: XML document of KonoplyaRezzollaZhidenko with its
 default (null) spin could not be read back

---
 lib/KonoplyaRezzollaZhidenko.C | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/KonoplyaRezzollaZhidenko.C b/lib/KonoplyaRezzollaZhidenko.C
index 9cb6652..3fe3cfb 100644
--- a/lib/KonoplyaRezzollaZhidenko.C
+++ b/lib/KonoplyaRezzollaZhidenko.C
@@ -57,7 +57,6 @@ GYOTO_PROPERTY_END(KonoplyaRezzollaZhidenko, Generic::properties)
 GYOTO_PROPERTY_ACCESSORS(KonoplyaRezzollaZhidenko, double, rms_, rms)
 
 void KonoplyaRezzollaZhidenko::deltashorizon(std::vector<double> const &v) {
-  if (spin_ == 0.) GYOTO_ERROR("null spin case not supported");
   size_t n = v.size();
   if (n>GYOTO_NB_DELTAHOR_MAX)
     GYOTO_ERROR("In KonoplyaRezzollaZhidenko: choose at most "
@@ -66,7 +65,9 @@ void KonoplyaRezzollaZhidenko::deltashorizon(std::vector<double> const &v) {
   for (double val : v) { if (val!=0.) ++nonzero_count;}
   if (nonzero_count != 0 && nonzero_count != 1)
     GYOTO_ERROR("In KonoplyaRezzollaZhidenko: at most one parameter must be non-zero");
-	    
+  if (spin_ == 0. && nonzero_count)
+    GYOTO_ERROR("null spin case not supported");
+
   double r0 = Definer0(), r02 = r0*r0;
   for (size_t i=0; i<n; ++i) {
     deltashorizon_[i]=v[i];
@@ -84,7 +85,6 @@ void KonoplyaRezzollaZhidenko::deltashorizon(std::vector<double> const &v) {
                 if (deltashorizon_[i] > -4./spin3_*(1.-sqrt(1.-spin2_))) 
                 GYOTO_ERROR("In KonoplyaRezzollaZhidenko: Restriction range not respected for δ2 or δ3");
               }
-              else GYOTO_ERROR("null spin case not supported");
               break;
        case 3:
        case 4: if (deltashorizon_[i] < -1.) 
-- 
2.43.0


From 018321a0f056821ed2cc00401329314552c940f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:33 +0000
Subject: [PATCH 36/97] fix: MotionKind Static, the default of
 StochasticThinDisk, was refused

---
 lib/StochasticThinDisk.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/StochasticThinDisk.C b/lib/StochasticThinDisk.C
index 3be6860..d7493a2 100644
--- a/lib/StochasticThinDisk.C
+++ b/lib/StochasticThinDisk.C
@@ -92,7 +92,7 @@ string StochasticThinDisk::equationKind() const {
 void StochasticThinDisk::motionKind(string const &kind) {
   if (kind == "Static")
     motionkind_ = STATIC;
-  if (kind == "Circular")
+  else if (kind == "Circular")
     motionkind_ = CIRCULAR;
   else if (kind == "Radial")
     motionkind_ = RADIAL;
-- 
2.43.0


From 33923675d0426ea1a0b1ec7f36ff2772b042427c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:33 +0000
Subject: [PATCH 37/97] fix: time translations of ThinDiskGridIntensity added
 up, and a null one was refused

---
 lib/ThinDiskGridIntensity.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/ThinDiskGridIntensity.C b/lib/ThinDiskGridIntensity.C
index 4ffc66b..46f6b15 100644
--- a/lib/ThinDiskGridIntensity.C
+++ b/lib/ThinDiskGridIntensity.C
@@ -103,7 +103,9 @@ std::string ThinDiskGridIntensity::file() const {
 }
 
 void ThinDiskGridIntensity::timeTranslation_inMunit(double const dt) {
+  if (dt==deltat_) return; // nothing to do
   double tmin=GridData2D::tmin(), tmax=GridData2D::tmax();
+  double const shift=dt-deltat_; // with respect to the current translation
   GridData2D::tmin(tmin-deltat_+dt);
   GridData2D::tmax(tmax-deltat_+dt);
   deltat_=dt;
@@ -113,7 +115,7 @@ void ThinDiskGridIntensity::timeTranslation_inMunit(double const dt) {
   if (!time_array_)
     GYOTO_ERROR("In ThinDiskGridIntensity::timeTranslation time_array_ not defined. Please use ThinDiskGridIntensity::file(string) before this function");
   for (int ii=0;ii<nt;ii++){
-    time_array_[ii]+=dt;
+    time_array_[ii]+=shift;
   }
   if (GridData2D::tmin()>0)
     cout << "\nWARNING : tmin is positive, in most cases the stationnary boundary condition will be applied. You should decrease more timeTranslation_inMunit until at least " << -tmin << "\n" << endl;
-- 
2.43.0


From 5ad6eabbd264a0d7766869458c88892250d845ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:33 +0000
Subject: [PATCH 38/97] fix: XML document of a Complex Astrobj with its Metric
 could not be read back

---
 lib/ComplexAstrobj.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ComplexAstrobj.C b/lib/ComplexAstrobj.C
index 62dbd25..cebd2aa 100644
--- a/lib/ComplexAstrobj.C
+++ b/lib/ComplexAstrobj.C
@@ -213,7 +213,7 @@ void Complex::setParameters(FactoryMessenger *fmp) {
       child   = fmp -> getChild();
       append ((*Astrobj::getSubcontractor(content, plugin))(child, plugin));
       delete child;
-    } else setParameter(name, content, unit);
+    } else if (name!="Metric") setParameter(name, content, unit);
   }
 
   if (debug())
-- 
2.43.0


From 76e966fd44357474fc87d36e597a891e1ea3b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:48 +0000
Subject: [PATCH 39/97] fix: setting the metric of a FixedStar, hence reading a
 Complex, overrode its SafetyValue

---
 lib/FixedStar.C | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/FixedStar.C b/lib/FixedStar.C
index 81f88d8..2de4f4f 100644
--- a/lib/FixedStar.C
+++ b/lib/FixedStar.C
@@ -141,7 +141,6 @@ void FixedStar::metric(SmartPointer<Metric::Generic> gg) {
   GYOTO_DEBUG << endl;
 # endif
  Generic::metric(gg);
- radius(radius_);
 }
 
 void FixedStar::radius(double r) {
-- 
2.43.0


From ca9d3fefd0ba53f09bcf424aaf09339a1aa18662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:48 +0000
Subject: [PATCH 40/97] fix: InitVelocity of FreeStar was read as a 4-velocity
 but set as a 3-velocity

---
 lib/FreeStar.C | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/FreeStar.C b/lib/FreeStar.C
index f2f225d..2a7d98e 100644
--- a/lib/FreeStar.C
+++ b/lib/FreeStar.C
@@ -134,9 +134,9 @@ void FreeStar::initVelocity(std::vector<double> const &v) {
 
 std::vector<double> FreeStar::initVelocity() const {
   std::vector<double> v (3, 0.);
-  v[0] = fourveldt_[1];
-  v[1] = fourveldt_[2];
-  v[2] = fourveldt_[3];
+  v[0] = fourveldt_[1]/fourveldt_[0];
+  v[1] = fourveldt_[2]/fourveldt_[0];
+  v[2] = fourveldt_[3]/fourveldt_[0];
   return v;
 }
 
-- 
2.43.0


From b9cabff10eb66227831ff237f1ced6cd80f86909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:30 +0000
Subject: [PATCH 41/97] fix: time translations of FlaredDiskSynchrotron added
 up, and a null one was refused

---
 lib/FlaredDiskSynchrotron.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/FlaredDiskSynchrotron.C b/lib/FlaredDiskSynchrotron.C
index 6b9a30b..f1ae1bc 100644
--- a/lib/FlaredDiskSynchrotron.C
+++ b/lib/FlaredDiskSynchrotron.C
@@ -153,7 +153,9 @@ double FlaredDiskSynchrotron::hoverR() const {
 }
 
 void FlaredDiskSynchrotron::timeTranslation_inMunit(double const dt) {
+  if (dt==deltat_) return; // nothing to do
   double tmin=GridData2D::tmin(), tmax=GridData2D::tmax();
+  double const shift=dt-deltat_; // with respect to the current translation
   GridData2D::tmin(tmin-deltat_+dt);
   GridData2D::tmax(tmax-deltat_+dt);
   deltat_=dt;
@@ -163,7 +165,7 @@ void FlaredDiskSynchrotron::timeTranslation_inMunit(double const dt) {
   if (!time_array_)
     GYOTO_ERROR("In FlaredDiskSynchrotron::timeTranslation time_array_ not defined. Please use FlaredDiskSynchrotron::file(string) before this function");
   for (int ii=0;ii<nt;ii++){
-    time_array_[ii]+=dt;
+    time_array_[ii]+=shift;
   }
   if (GridData2D::tmin()>0)
     cout << "\nWARNING : tmin is positive, in most cases the stationnary boundary condition will be applied. You should decrease more timeTranslation_inMunit until at least " << -tmin << "\n" << endl;
-- 
2.43.0


From 8ad665417797371d46d43185639fcc172b315e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:30 +0000
Subject: [PATCH 42/97] fix: XML document of a Jet with only its inner opening
 angle set could not be read back

---
 lib/Jet.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Jet.C b/lib/Jet.C
index b7c7dc2..96bd1e4 100644
--- a/lib/Jet.C
+++ b/lib/Jet.C
@@ -93,7 +93,7 @@ double Jet::jetShapeOuterParabolaParam() const {return jetShapeOuterParabolaPara
 // for conical:
 void Jet::jetOuterOpeningAngle(double ang) {
   jetOuterOpeningAngle_=ang;
-  if (jetInnerOpeningAngle_ != -1.){ // default angle value is -1
+  if (jetInnerOpeningAngle_ != -1. && ang != -1.){ // default angle value is -1
     if (jetOuterOpeningAngle_ < jetInnerOpeningAngle_)
     GYOTO_ERROR("The outer opening angle cannot be smaller "
 		"than the inner opening angle");
-- 
2.43.0


From c6602f52250eaec734b749345b29e3e0cd83e09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:30 +0000
Subject: [PATCH 43/97] fix: XML document of an equatorial Blob could not be
 read back

---
 lib/Blob.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Blob.C b/lib/Blob.C
index 7c154d1..48c3f71 100644
--- a/lib/Blob.C
+++ b/lib/Blob.C
@@ -166,7 +166,7 @@ void Blob::init4Coord(std::vector<double> const &v) {
     init4Coord_[i]=v[i];
   }
   if (blobMotionType_=="HelicalCylindrical" or blobMotionType_=="Equatorial"){
-    if (init4Coord_[2] != M_PI/2.)
+    if (fabs(init4Coord_[2]-M_PI/2.) > 1e-10)
       GYOTO_ERROR("Equatorial and cylindrical motions must start at equator");
   }
 }
-- 
2.43.0


From 2b26d1ad7d93b6d9db2a6db5a2a2c788f46244dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:30 +0000
Subject: [PATCH 44/97] fix: LampCutOffsIneV of DirectionalDisk was read in Hz

---
 lib/DirectionalDisk.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/DirectionalDisk.C b/lib/DirectionalDisk.C
index c8539de..e690ac6 100644
--- a/lib/DirectionalDisk.C
+++ b/lib/DirectionalDisk.C
@@ -253,7 +253,7 @@ void DirectionalDisk::lampcutoffsinev(std::vector<double> const &v) {
 
 std::vector<double> DirectionalDisk::lampcutoffsinev() const {
   std::vector<double> v (2, 0.);
-  v[0]=minfreq_lampframe_; v[1]=maxfreq_lampframe_;
+  v[0]=minfreq_lampframe_/GYOTO_eV2Hz; v[1]=maxfreq_lampframe_/GYOTO_eV2Hz;
   return v;
 }
 
-- 
2.43.0


From 60890224af0f2e0b50e635efc12c9bec2a654043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:30 +0000
Subject: [PATCH 45/97] fix: DynamicalDisk3D was written to XML as a Disk3D

---
 lib/DynamicalDisk3D.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/DynamicalDisk3D.C b/lib/DynamicalDisk3D.C
index 458b3e3..3dbe989 100644
--- a/lib/DynamicalDisk3D.C
+++ b/lib/DynamicalDisk3D.C
@@ -66,6 +66,7 @@ DynamicalDisk3D::DynamicalDisk3D() :
   absorption_array_(NULL),
   velocity_array_(NULL)
 {
+  kind_="DynamicalDisk3D";
   GYOTO_DEBUG << "DynamicalDisk3D Construction" << endl;
   spectrumBB_ = new Spectrum::BlackBody(); 
 }
-- 
2.43.0


From 198aa690c610d335b91071e9fa76e2cbec23c8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:30 +0000
Subject: [PATCH 46/97] fix: DynamicalDisk without a data directory crashed on
 reading back its XML document

---
 lib/DynamicalDisk.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/DynamicalDisk.C b/lib/DynamicalDisk.C
index de4a931..e630f34 100644
--- a/lib/DynamicalDisk.C
+++ b/lib/DynamicalDisk.C
@@ -308,7 +308,7 @@ double DynamicalDisk::dt()const{return dt_;}
 
 void DynamicalDisk::fillProperty(Gyoto::FactoryMessenger *fmp, Property const &p) const{
   if (p.name == "File"){
-    if (dirname_) fmp->setParameter("File", dirname_ );
+    if (file() != "") fmp->setParameter("File", dirname_ );
   }
   else ThinDisk::fillProperty(fmp, p);
 }
-- 
2.43.0


From 2618c3606c48aa5d9d757fa5107eb039401ce7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:18 +0000
Subject: [PATCH 47/97] fix: choosing the Integrator of a worldline silently
 reset Integ31

---
 lib/Worldline.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index 102c8ba..f900d58 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -373,12 +373,14 @@ void Worldline::tell(Gyoto::Hook::Teller* msg) {
 }
 
 void Worldline::integrator(std::string const &type) {
+  bool const integ = state_() ? state_->integ31() : false;
   if (type=="Legacy") state_ = new IntegState::Legacy(this);
 #ifdef GYOTO_HAVE_BOOST_INTEGRATORS
   else state_ = new IntegState::Boost(this, type);
 #else
   else GYOTO_ERROR("unrecognized integrator (recompile with boost?)");
 #endif
+  state_->integ31(integ);
 }
 
 std::string Worldline::integrator() const {
-- 
2.43.0


From df5e36ea97d048a09beaa526f50a4a7460331b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:18 +0000
Subject: [PATCH 48/97] fix: DynamicalDiskBolometric was written to XML as a
 DynamicalDisk

---
 lib/DynamicalDiskBolometric.C | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/DynamicalDiskBolometric.C b/lib/DynamicalDiskBolometric.C
index 6871b6b..8b29bf9 100644
--- a/lib/DynamicalDiskBolometric.C
+++ b/lib/DynamicalDiskBolometric.C
@@ -52,6 +52,7 @@ GYOTO_PROPERTY_END(DynamicalDiskBolometric, DynamicalDisk::properties)
 DynamicalDiskBolometric::DynamicalDiskBolometric() :
   DynamicalDisk()
 {
+  kind_="DynamicalDiskBolometric";
   GYOTO_DEBUG << "DynamicalDiskBolometric Construction" << endl;
 }
 
-- 
2.43.0


From 14119fe805e84b2427a17a13bc2cca816e935e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:26 +0000
Subject: [PATCH 49/97] fix: XML document of a Photon did not hold its metric
 where it is looked for

---
 lib/Photon.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Photon.C b/lib/Photon.C
index 1021a89..10865c8 100644
--- a/lib/Photon.C
+++ b/lib/Photon.C
@@ -53,6 +53,8 @@ using namespace Eigen;
 // it is not compatible with "using namespace std" in the general case
 
 GYOTO_PROPERTY_START(Photon)
+GYOTO_PROPERTY_METRIC(Photon, Metric, _metric,
+		      "The geometry of space-time.")
 GYOTO_PROPERTY_ASTROBJ(Photon, Astrobj, astrobj)
 GYOTO_WORLDLINE_PROPERTY_END(Photon, Object::properties)
 
-- 
2.43.0


From e499c3c67071f35f0142668af2194edc6fe3cf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:54 +0000
Subject: [PATCH 50/97] fix: <ADAF/> in an XML document was ignored by
 PolishDoughnut

---
 lib/PolishDoughnut.C | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/PolishDoughnut.C b/lib/PolishDoughnut.C
index 5f7c8c3..6332949 100644
--- a/lib/PolishDoughnut.C
+++ b/lib/PolishDoughnut.C
@@ -435,8 +435,10 @@ void PolishDoughnut::setParameter(Property const &p,
   // ADAFParameters was in ADAF
   if (name=="ADAF") {
     std::vector<double> v=FactoryMessenger::parseArray(content);
-    if (v.size()) adafparams(v);
-    return ;
+    if (v.size()) {
+      adafparams(v);
+      return ;
+    }
   }
   Standard::setParameter(p, name, content, unit);
 }
-- 
2.43.0


From 03c67dd8157915c559fbe17138ff2ce191a799ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:54 +0000
Subject: [PATCH 51/97] fix: cloned worldline lost its 3+1 setting with the
 Legacy integrator

---
 lib/WorldlineIntegState.C | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 4f2f9f5..02fbafa 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -119,7 +119,11 @@ Worldline::IntegState::Legacy::Legacy(Worldline *parent) : Generic(parent)
 
 Worldline::IntegState::Legacy *
 Worldline::IntegState::Legacy::clone(Worldline *newparent) const
-{ return new Legacy(newparent); }
+{
+  Legacy * cl = new Legacy(newparent);
+  cl -> integ31(integ_31_);
+  return cl;
+}
 
 void
 Worldline::IntegState::Legacy::init(Worldline * line,
-- 
2.43.0


From 8e3ed3eef19ebb79eba1fc6333fea735002b47d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:33 +0000
Subject: [PATCH 52/97] fix: DynamicalDisk released its directory name with the
 wrong operator

---
 lib/DynamicalDisk.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/DynamicalDisk.C b/lib/DynamicalDisk.C
index e630f34..6ca613a 100644
--- a/lib/DynamicalDisk.C
+++ b/lib/DynamicalDisk.C
@@ -116,7 +116,7 @@ DynamicalDisk::~DynamicalDisk() {
   velocity_array_ = NULL;
   radius_array_   = NULL;
   nb_times_ = 0;
-  if (dirname_) delete dirname_;
+  if (dirname_) delete [] dirname_;
 }
 
 double const * DynamicalDisk::getVelocity() const { return PatternDiskBB::getVelocity(); }
@@ -221,7 +221,7 @@ void DynamicalDisk::file(std::string const &fname) {
       nb_times_ = 0;
     }
 
-    if (dirname_) delete dirname_;
+    if (dirname_) delete [] dirname_;
     dirname_ = new char[strlen(fname.c_str())+1];
     strcpy(dirname_,fname.c_str());
     DIR *dp;
-- 
2.43.0


From 682f0155876ec57b182a57e684673851d01864a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:40 +0000
Subject: [PATCH 53/97] fix: Band of a logarithmic spectrometer was read back
 wrong in a given unit

---
 lib/UniformSpectrometer.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/UniformSpectrometer.C b/lib/UniformSpectrometer.C
index 2c711b0..f157ba8 100644
--- a/lib/UniformSpectrometer.C
+++ b/lib/UniformSpectrometer.C
@@ -236,7 +236,7 @@ std::vector<double> Uniform::band(std::string const &unit) const {
   } else if (kindid_== FreqLogKind) {
     if (unit != "" && unit != "Hz")
       for (size_t i=0; i<=1; ++i)
-	vnu[i] = pow(10., Units::FromHerz(log10(vnu[i]), unit));
+	vnu[i] = log10(Units::FromHerz(pow(10., vnu[i]), unit));
   } else if (kindid_== WaveKind) {
     if (unit != "" && unit != "m")
       for (size_t i=0; i<=1; ++i)
@@ -244,7 +244,7 @@ std::vector<double> Uniform::band(std::string const &unit) const {
   } else if (kindid_ == WaveLogKind) {
     if (unit != "" && unit != "m")
       for (size_t i=0; i<=1; ++i)
-	vnu[i] = pow(10., Units::FromMeters(log10(vnu[i]), unit));
+	vnu[i] = log10(Units::FromMeters(pow(10., vnu[i]), unit));
   } else {
     GYOTO_ERROR("Uniform::band(string const &unit) at loss: "
 	       "please specify Spectrometer kind");
-- 
2.43.0


From d870e99231fee9bbf69538c3cd45c976b295db72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:59 +0000
Subject: [PATCH 54/97] fix: Scenery::requestedQuantitiesString() modified the
 string of its caller

---
 lib/Scenery.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index 26cd37f..a2bed74 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -816,7 +816,8 @@ void Scenery::setRequestedQuantities(Gyoto::Quantity_t quant) {
 }
 void Scenery::requestedQuantitiesString(std::string const &squant) {
   quantities_=0;
-  char * tk = strtok(const_cast<char*>(squant.c_str()), " \t\n");
+  string tokens(squant.c_str()); // strtok() modifies its argument
+  char * tk = strtok(&tokens[0], " \t\n");
   string tkk="", quant="", unit = "";
   size_t first = 0, last = 0;
 
-- 
2.43.0


From 72f70419a98ef024290df078f5b9f37e8be7cbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:27 +0000
Subject: [PATCH 55/97] fix: after a refused list of quantities every later one
 was refused

---
 lib/Scenery.C | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/Scenery.C b/lib/Scenery.C
index a2bed74..74a05c9 100644
--- a/lib/Scenery.C
+++ b/lib/Scenery.C
@@ -822,7 +822,13 @@ void Scenery::requestedQuantitiesString(std::string const &squant) {
   size_t first = 0, last = 0;
 
 # ifdef HAVE_UDUNITS
-  if (screen_) screen_ -> mapPixUnit();
+  // the "pix" unit must be unmapped on exit, also when an error is thrown
+  struct PixUnit {
+    SmartPointer<Screen> scr;
+    PixUnit(SmartPointer<Screen> s) : scr(s) { if (scr) scr -> mapPixUnit(); }
+    ~PixUnit() { try { if (scr) scr -> unmapPixUnit(); }
+		 catch (Gyoto::Error const &) {} }
+  } pixunit(screen_);
 # endif
 
   while (tk != NULL) {
@@ -885,10 +891,6 @@ void Scenery::requestedQuantitiesString(std::string const &squant) {
     tk = strtok(NULL, " \t\n");
   }
 
-# ifdef HAVE_UDUNITS
-  if (screen_) screen_ -> unmapPixUnit();
-# endif
-
   if (quantities_ & (GYOTO_QUANTITY_SPECTRUM_STOKES_Q |
 		     GYOTO_QUANTITY_SPECTRUM_STOKES_U |
 		     GYOTO_QUANTITY_SPECTRUM_STOKES_V))
-- 
2.43.0


From a404478c3099cd7e7b4eed6a752021442cc4304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:28 +0000
Subject: [PATCH 56/97] fix: ThinDiskProfile and StochasticThinDisk ignored the
 requested unit of the spectrum

---
 lib/StochasticThinDisk.C | 4 ++++
 lib/ThinDiskProfile.C    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lib/StochasticThinDisk.C b/lib/StochasticThinDisk.C
index d7493a2..227e748 100644
--- a/lib/StochasticThinDisk.C
+++ b/lib/StochasticThinDisk.C
@@ -436,6 +436,10 @@ void StochasticThinDisk::processHitQuantities(Photon* ph,
  	  * (emission(nuem[ii], coord_ph_hit, coord_obj_hit))
  	  * (ph -> getTransmission(size_t(-1)))
  	  * ggred*ggred*ggred; // I/nu^3 invariant
+#ifdef HAVE_UDUNITS
+         if (data -> spectrum_converter_)
+           inc = (*data -> spectrum_converter_)(inc);
+#endif
          *data->spectrum += inc; // data->spectrum[ii*data->offset] += inc  !Error
        }
        #if GYOTO_DEBUG_ENABLED
diff --git a/lib/ThinDiskProfile.C b/lib/ThinDiskProfile.C
index 2eb917a..7787d2b 100644
--- a/lib/ThinDiskProfile.C
+++ b/lib/ThinDiskProfile.C
@@ -463,6 +463,10 @@ void ThinDiskProfile::processHitQuantities(Photon* ph,
  	  * (emission(nuem[ii], dsem, coord_ph_hit, coord_obj_hit))
  	  * (ph -> getTransmission(size_t(-1)))
  	  * ggred*ggred*ggred; // I/nu^3 invariant
+#ifdef HAVE_UDUNITS
+         if (data -> spectrum_converter_)
+           inc = (*data -> spectrum_converter_)(inc);
+#endif
          *data->spectrum += inc; // data->spectrum[ii*data->offset] += inc  !Error
        }
        #if GYOTO_DEBUG_ENABLED
-- 
2.43.0


From 7fffb0f58fedc593858341a09c84c55989238a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:28 +0000
Subject: [PATCH 57/97] fix: ThinDiskProfile could not compute impact
 coordinates and crashed without data

---
 lib/ThinDiskProfile.C | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/ThinDiskProfile.C b/lib/ThinDiskProfile.C
index 7787d2b..7b6a857 100644
--- a/lib/ThinDiskProfile.C
+++ b/lib/ThinDiskProfile.C
@@ -477,13 +477,12 @@ void ThinDiskProfile::processHitQuantities(Photon* ph,
        #if GYOTO_DEBUG_ENABLED
          GYOTO_DEBUG_EXPR(*data->redshift);
        #endif
-    }
-       else GYOTO_ERROR("unimplemented data");
-   } else if (data->impactcoords ) { // && data->impactcoords[0]==DBL_MAX to get only the n=0 coordinates
+    } else if (data->impactcoords ) { // && data->impactcoords[0]==DBL_MAX to get only the n=0 coordinates
       if (coord_ph_hit.size() > 8) GYOTO_ERROR("ImpactCoords is incompatible with parallel transport");
       memcpy(data->impactcoords, coord_obj_hit, 8 * sizeof(double));
       memcpy(data->impactcoords+8, &coord_ph_hit[0], 8 * sizeof(double));
       //cout << setprecision(18);
       //cout << endl << "t,r,theta,phi: " << coord_obj_hit[0] << " " << coord_obj_hit[1] << " " << coord_obj_hit[2] << " " << coord_obj_hit[3] << endl; 
-    }
+    } else GYOTO_ERROR("unimplemented data");
+   }
  }
-- 
2.43.0


From 7f0210b5bcbde2320b7fea2bd726efacf032d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:34 +0000
Subject: [PATCH 58/97] fix: number of boundaries of Uniform spectrometers
 wrong with the full constructor or no channel

---
 lib/UniformSpectrometer.C | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/UniformSpectrometer.C b/lib/UniformSpectrometer.C
index f157ba8..aaf67de 100644
--- a/lib/UniformSpectrometer.C
+++ b/lib/UniformSpectrometer.C
@@ -90,6 +90,7 @@ Uniform::Uniform(size_t nsamples, double band_min, double band_max, kind_t kin)
 : Generic(kin)
 {
   nsamples_=nsamples;
+  nboundaries_=nsamples_?nsamples_+1:0;
   band_[0]=band_min; band_[1]=band_max;
   if (nsamples && kin) reset_();
 }
@@ -119,7 +120,10 @@ void Uniform::reset_() {
   midpoints_ = NULL;
   widths_ = NULL;
   GYOTO_DEBUG << endl;
-  if (!nsamples_ || !kindid_) return;
+  if (!nsamples_ || !kindid_) {
+    tellListeners();
+    return;
+  }
 
   boundaries_ = new double[nsamples_+1];
   chanind_    = new size_t[nsamples_*2];
@@ -204,7 +208,7 @@ std::string Uniform::kind() const {return Object::kind_;}
 
 void Uniform::nSamples(size_t n) {
   nsamples_ = n;
-  nboundaries_=nsamples_+1;
+  nboundaries_=nsamples_?nsamples_+1:0;
   reset_();
 }
 
-- 
2.43.0


From c8c7a02ddebd1d350053571b91bdda059e114564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:35 +0000
Subject: [PATCH 59/97] fix: Complex spectrometers: clones ignored changes of
 their elements, elements outlived by a dangling hook

---
 lib/ComplexSpectrometer.C | 12 +++++++++---
 lib/Spectrometer.C        | 24 ++++++++++++++++--------
 2 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/lib/ComplexSpectrometer.C b/lib/ComplexSpectrometer.C
index bbe0207..9cc8251 100644
--- a/lib/ComplexSpectrometer.C
+++ b/lib/ComplexSpectrometer.C
@@ -47,6 +47,7 @@ Complex::Complex(const Complex& o) :
     elements_ = new SmartPointer<Generic> [cardinal_];
     for (size_t i=0; i< cardinal_; ++i) {
       elements_[i] = o[i]->clone();
+      elements_[i]->hook(this);
     }
   }
 }
@@ -60,7 +61,11 @@ bool Complex::isThreadSafe() const {
 
 Complex::~Complex()
 {
-  if (cardinal_) for (size_t i=0; i< cardinal_; ++i) elements_[i] = NULL;
+  for (size_t i=0; i< cardinal_; ++i) {
+    elements_[i]->unhook(this);
+    elements_[i] = NULL;
+  }
+  delete [] elements_;
 }
 
 void Complex::append(SmartPointer<Generic> e)
@@ -83,14 +88,14 @@ void Complex::append(SmartPointer<Generic> e)
 
 SmartPointer<Generic> & Complex::operator[](size_t i)
 {
-  if (i > cardinal_)
+  if (i >= cardinal_)
     GYOTO_ERROR("Complex::operator[](size_t i): no such element");
   return elements_[i];
 }
 
 SmartPointer<Generic> const & Complex::operator[](size_t i) const
 {
-  if (i > cardinal_)
+  if (i >= cardinal_)
     GYOTO_ERROR("Complex::operator[](size_t i): no such element");
   return elements_[i];
 }
@@ -173,6 +178,7 @@ void Complex::tell(Gyoto::Hook::Teller *) {
   for (size_t i=0; i<cardinal_; ++i) {
     size_t enb = elements_[i]->getNBoundaries();
     size_t ens = elements_[i]->nSamples();
+    if (!ens) continue;
     memcpy(boundaries_+boffset,
 	   elements_[i]->getChannelBoundaries(),
 	   enb*sizeof(double));
diff --git a/lib/Spectrometer.C b/lib/Spectrometer.C
index d0bfd2d..46be33b 100644
--- a/lib/Spectrometer.C
+++ b/lib/Spectrometer.C
@@ -108,14 +108,22 @@ Generic::Generic(const Generic& o) :
   midpoints_(NULL),
   widths_(NULL)
 {
-  if (o.boundaries_) boundaries_=new double[nboundaries_];
-  memcpy(boundaries_, o.boundaries_, nboundaries_*sizeof(double));
-  if (o.widths_) widths_=new double[nsamples_];
-  memcpy(widths_, o.widths_, nsamples_*sizeof(double));
-  if (o.midpoints_) midpoints_=new double[nsamples_];
-  memcpy(midpoints_, o.midpoints_, nsamples_*sizeof(double));
-  if (o.chanind_) chanind_=new size_t[2*nsamples_];
-  memcpy(chanind_, o.chanind_, 2*nsamples_*sizeof(size_t));
+  if (o.boundaries_) {
+    boundaries_=new double[nboundaries_];
+    memcpy(boundaries_, o.boundaries_, nboundaries_*sizeof(double));
+  }
+  if (o.widths_) {
+    widths_=new double[nsamples_];
+    memcpy(widths_, o.widths_, nsamples_*sizeof(double));
+  }
+  if (o.midpoints_) {
+    midpoints_=new double[nsamples_];
+    memcpy(midpoints_, o.midpoints_, nsamples_*sizeof(double));
+  }
+  if (o.chanind_) {
+    chanind_=new size_t[2*nsamples_];
+    memcpy(chanind_, o.chanind_, 2*nsamples_*sizeof(size_t));
+  }
 }
 Generic::~Generic() {
   if (boundaries_) delete [] boundaries_;
-- 
2.43.0


From 3775e21ff862a903c34d22fdfc75a31293a23fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:03 +0000
Subject: [PATCH 60/97] fix: PowerLaw CutOff with a unit and a wrong number of
 values read past the end

---
 lib/PowerLawSpectrum.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/PowerLawSpectrum.C b/lib/PowerLawSpectrum.C
index 68bb197..48d0405 100644
--- a/lib/PowerLawSpectrum.C
+++ b/lib/PowerLawSpectrum.C
@@ -55,6 +55,8 @@ void Spectrum::PowerLaw::constant(double c) { constant_ = c; }
 double Spectrum::PowerLaw::exponent() const { return exponent_; }
 void Spectrum::PowerLaw::exponent(double c) { exponent_ = c; }
 void Spectrum::PowerLaw::cutoff(std::vector<double> const &v, std::string const &u) {
+  if (v.size() != 2)
+    GYOTO_ERROR("CutOff needs exactly two cut-off frequencies");
   cutoff({Units::ToHerz(v[0], u), Units::ToHerz(v[1], u)});
 }
 void Spectrum::PowerLaw::cutoff(std::vector<double> const &v) {
-- 
2.43.0


From f8d7326ca4877127e9d5ab65beaaaebb1fec1268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 61/97] fix: the ray went through opaque objects when no
 spectral quantity was requested

---
 lib/Astrobj.C | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index c5452a4..eaf6a74 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -435,11 +435,22 @@ void Generic::processHitQuantities(Photon * ph, state_t const &coord_ph_hit,
 				delete [] nuem;
       }
     }
-    if (data->redshift||data->time||data->impactcoords||data->intensity||data->binspectrum){
+    bool spectral = data->spectrum||data->stokesQ||data->stokesU||data->stokesV;
+    if (data->redshift||data->time||data->impactcoords||data->intensity||data->binspectrum||!spectral){
 	    /* update photon's transmission */
 	    ph -> transmit(size_t(-1),
 			   transmission(freqObs*ggredm1, dsem,coord_ph_hit, coord_obj_hit));
 	  }
+    /* update the transmission of the channels if not done above: the
+       ray must stop at an opaque object whichever quantities are requested */
+    if (!spectral && (ph -> parallelTransport() || !data->binspectrum))
+      for (size_t ii=0; ii<nbnuobs; ++ii) {
+	double t = transmission(nuobs[ii]*ggredm1, dsem, coord_ph_hit, coord_obj_hit);
+	if (ph -> parallelTransport())
+	  ph -> transmit(ii, Matrix4d(Matrix4d::Identity()*t));
+	else
+	  ph -> transmit(ii, t);
+      }
   } else {
 		#if GYOTO_DEBUG_ENABLED
     	GYOTO_DEBUG << "NO data requested!" << endl;
-- 
2.43.0


From 27f433e06cf00a4192e53cb2d9c6f0ec10b70a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 62/97] fix: Stokes quantities without Spectrum nor parallel
 transport dereferenced NULL

---
 lib/Astrobj.C | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index eaf6a74..1e70a4f 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -403,12 +403,14 @@ void Generic::processHitQuantities(Photon * ph, state_t const &coord_ph_hit,
 				radiativeQ(Inu, Taunu, nuem, nbnuobs, dsem,
 					   coord_ph_hit, coord_obj_hit);
 				for (size_t ii=0; ii<nbnuobs; ++ii) {
-				  inc = Inu[ii] * ph -> getTransmission(ii) * ggred*ggred*ggred;
+				  if (data->spectrum) {
+				    inc = Inu[ii] * ph -> getTransmission(ii) * ggred*ggred*ggred;
 					#ifdef HAVE_UDUNITS
-				  	if (data -> spectrum_converter_)
-				    	inc = (*data -> spectrum_converter_)(inc);
+				    if (data -> spectrum_converter_)
+				      inc = (*data -> spectrum_converter_)(inc);
 					#endif
-				  data->spectrum[ii*data->offset] += inc;
+				    data->spectrum[ii*data->offset] += inc;
+				  }
 				  ph -> transmit(ii,Taunu[ii]);
 
 					#if GYOTO_DEBUG_ENABLED
-- 
2.43.0


From 899104826e43e123ae5dd5e294be316badd36b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 63/97] fix: BinSpectrum did not update the transmission in
 polarised mode or updated it twice

---
 lib/Astrobj.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index 1e70a4f..e452673 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -296,7 +296,8 @@ void Generic::processHitQuantities(Photon * ph, state_t const &coord_ph_hit,
 		        << data->binspectrum[ii*data->offset]<< endl;
 				#endif
 
-				if (!data->spectrum) // else it will be done in spectrum
+				if (!(data->spectrum||data->stokesQ||data->stokesU||data->stokesV)
+				    || ph -> parallelTransport()) // else it will be done in spectrum
 				  ph -> transmit(ii,transmission(nuobs[ii]*ggredm1,dsem,coord_ph_hit, coord_obj_hit));
       }
       delete [] I;
-- 
2.43.0


From bd5b6540446e165f302f94fe59afd7e25916e195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 64/97] fix: default polarised radiativeQ() returned the
 absorption coefficient instead of the transmission matrix

---
 lib/Astrobj.C | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index e452673..9ad4a6e 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -658,12 +658,6 @@ void Generic::radiativeQ(double *Inu, double *Qnu, double *Unu, double *Vnu,
 
   // Compute the output from the non-polarized radiativeQ().
   double * Taunu = new double[nbnu];
-  double * alphaInu = new double[nbnu];
-  Matrix4d identity;
-  identity << 1, 0, 0, 0,
-              0, 1, 0, 0,
-              0, 0, 1, 0,
-              0, 0, 0, 1;
   radiativeQ(Inu, Taunu, nuem, nbnu, dsem, cph, co);
   for (size_t i=0; i<nbnu; ++i) {
     // Inu[i] = Inu[i];
@@ -671,16 +665,11 @@ void Generic::radiativeQ(double *Inu, double *Qnu, double *Unu, double *Vnu,
     Unu[i] = 0.;
     Vnu[i] = 0.;
     GYOTO_DEBUG_EXPR(Taunu[i]);
-    if (Taunu[i]<1e-6){
-    	//alphaInu[i] = std::numeric_limits<double>::infinity(); // Cause floatting point exception
-    	alphaInu[i] = 1.e300; // something very big 
-    }
-    else alphaInu[i] = -log(Taunu[i])/(dsem*gg_->unitLength());
-    GYOTO_DEBUG_EXPR(alphaInu[i]);
-    Onu[i]=identity*alphaInu[i]; //Default transmission matrix with all polarisation set to 0, MUST be reimplemented
+    // Onu is the transmission matrix (see Omatrix() and
+    // Photon::transfer()): unpolarized absorption
+    Onu[i]=Matrix4d::Identity()*Taunu[i];
   }
   delete [] Taunu;
-  delete [] alphaInu;
 }
 
 double Generic::get_theta_mag(double const fourvect[4], state_t const &coord_ph, double const vel[4]) const{
-- 
2.43.0


From 1852aa7d91cf447f02575b6f04bdadb615e20c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 65/97] fix: Omatrix() ignored unpolarised absorption

---
 lib/Astrobj.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index 9ad4a6e..db851f8 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -813,7 +813,7 @@ Matrix4d Generic::Omatrix(double alphaInu, double alphaQnu, double alphaUnu, dou
 	//cout << "M4 :\n" << M4 << endl;
 
   if (Theta==0.)
-    return Matrix4d::Identity();
+    return Matrix4d::Identity()*exp(-aI*dsem*gg_->unitLength());
   
   // Filling O matrix, output
   Onu=exp(-aI*dsem*gg_->unitLength())*\
-- 
2.43.0


From cf224b37551811c787856fa1317428f9599c0b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 66/97] fix: Pmatrix() inverted a singular matrix without
 absorption

---
 lib/Astrobj.C | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index db851f8..19a6f50 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -871,7 +871,13 @@ Matrix4d Generic::Pmatrix(double alphaInu, double alphaQnu, double alphaUnu, dou
     // General case, exact formula
     // Use of Eigen calculus of the exponetial of the matrice
     GYOTO_DEBUG << "Intermediate regime: computing exact exponential" << endl;;
-    P = Kmat.fullPivLu().solve(I - (-Kmat * dsem*gg_->unitLength()).exp());
+    // of block matrix [(-K ds, I), (0, 0)]: its upper right block is
+    // 1/ds times the integral of exp(-K s) from 0 to ds, which remains
+    // defined when K is singular (no absorption)
+    Matrix<double, 8, 8> block = Matrix<double, 8, 8>::Zero();
+    block.topLeftCorner<4,4>() = -Kmat * dsem*gg_->unitLength();
+    block.topRightCorner<4,4>() = I;
+    P = dsem*gg_->unitLength() * Matrix<double, 8, 8>(block.exp()).topRightCorner<4,4>();
   }
 
   if (P(0,0) < 0.) {
-- 
2.43.0


From 482c85d02b448235cd4566d63a3cf2e3d502eb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 67/97] fix: Photon::hit() stopped before the intensity had
 converged when all channels were opaque

---
 lib/Photon.C | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Photon.C b/lib/Photon.C
index 10865c8..9aeedb6 100644
--- a/lib/Photon.C
+++ b/lib/Photon.C
@@ -689,7 +689,11 @@ int Photon::hit(Astrobj::Properties *data) {
       GYOTO_DEBUG_EXPR(transmission_freqobs_);
 #     endif
 
-      if ( getTransmissionMax() < GYOTO_LIMIT_TRANSMISSION ) {
+      // When the intensity is requested, it may still be increasing even
+      // if all the spectral channels are opaque
+      if ( getTransmissionMax() < GYOTO_LIMIT_TRANSMISSION
+	   && !(data && data->intensity
+		&& transmission_freqobs_ >= GYOTO_LIMIT_TRANSMISSION) ) {
 	stopcond=1;
 
 #       if GYOTO_DEBUG_ENABLED
-- 
2.43.0


From f659810d5e72028808274527a5a7e4946627261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 68/97] fix: getChi() refused electric vector position angles
 below -pi/2

---
 lib/Astrobj.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index 19a6f50..1cfc386 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -1218,8 +1218,10 @@ double Generic::getChi(double const fourvect[4], state_t const &cph, double cons
   }
 
   // EVPA defined modulo pi and should lie in [-pi/2, pi/2], but the angle
-  // above is defined in [-pi/2,3pi/2]
+  // above is defined in [-pi/2,3pi/2] (magnetic vector) or [-pi,pi]
+  // (electric vector)
   if (EVPA>M_PI/2.) EVPA -= M_PI;
+  if (EVPA<-M_PI/2.) EVPA += M_PI;
 
   // For checking only: Define the polarization vector in tetrad formalism:
   double polar_vec[3]={Kth_tetrad*Bp_tetrad - Kp_tetrad*Bth_tetrad,
-- 
2.43.0


From ef176450107ad43521678b61f96ef2cb62917bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 69/97] fix: Poloidal magnetic field was not orthogonal to the
 velocity in spherical coordinates

---
 lib/Astrobj.C | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index 1cfc386..d10501f 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -1406,10 +1406,13 @@ void Generic::computeB4vect(double B4vect[4], std::string const magneticConfig,
   }else if(magneticConfig=="Poloidal" or magneticConfig=="Poloidal-n"){
     if (gg_->coordKind()==GYOTO_COORDKIND_SPHERICAL) {
       // Spherical coordinates case 
-      double Afact = 1./(gtt*vel[0]*vel[0]+gthth*vel[2]*vel[2]);
-      B4vect[0]=sqrt(gthth*vel[2]*vel[2]*Afact/gtt);
+      // Write: B = Bt \partial_t + alphafact*\partial_th/sqrt{gthth},
+      // and impose B.B=1, B.u=0
+      double Afact = vel[2]*sqrt(gthth)/(vel[0]*gtt+vel[3]*gtp),
+        alphafact = sqrt(1./(1.+gtt*Afact*Afact));
+      B4vect[0]=-alphafact*Afact;
       B4vect[1]=0.;
-      B4vect[2]=sqrt(Afact*gtt*vel[0]*vel[0]/gthth);
+      B4vect[2]=alphafact/sqrt(gthth); // along +eth
       B4vect[3]=0.;
     } else {
       // Cartesian coordinates case
-- 
2.43.0


From 5d187818bf4a67c359ed66ada9e8df21dcac687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 70/97] fix: Parabolic magnetic field was not orthogonal to the
 velocity

---
 lib/Astrobj.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index d10501f..7824644 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -1449,9 +1449,9 @@ void Generic::computeB4vect(double B4vect[4], std::string const magneticConfig,
       
       double fourvect[4]={0.,0.,0.,0.};
       double sgn = theta==M_PI/2.?1.:cos(theta)/abs(cos(theta));
-      double u_t = gtt*vel[0], u_r=grr*vel[1], u_theta=gthth*vel[2];
+      double u_t = gtt*vel[0]+gtp*vel[3], u_r=grr*vel[1], u_theta=gthth*vel[2];
 
-      fourvect[0]=0.5*u_r*sgn*pow(rr, par-2) - u_theta*par*pow(rr, par-3)*(1.-abs(cos(theta)))/sin(theta);
+      fourvect[0]=0.5*u_r*sgn*pow(rr, par-2) - (theta==0.?0.:0.5*u_theta*par*pow(rr, par-3)*(1.-abs(cos(theta)))/sin(theta));
       fourvect[1]=-0.5*u_t*sgn*pow(rr, par-2);
       fourvect[2]=theta==0.?0.:0.5*u_t*(1.-abs(cos(theta)))/sin(theta)*pow(rr, par-3)*par; // if theta=0 => B^theta=0
       
-- 
2.43.0


From 517e631b4af5124ed1dcb08e1e5a5df2b74bdb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 71/97] fix: integration state mixed up the vectors of the
 polarisation basis when orthonormalising them

---
 lib/WorldlineIntegState.C | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 02fbafa..37ab72a 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -473,13 +473,18 @@ void Worldline::IntegState::Boost::reorthonormalizeBasis(state_t &coord) const {
     Etheta[ii]=coord[ii+12]; // polarization basis vector 2
   }
 
-  // project Etheta orthogonal to photon_tgvec
-  gg_->projectFourVect(&coord[0], Etheta, photon_tgvec);
+  // photon_tgvec is a null vector: it is not possible to project
+  // orthogonally to it by subtracting a multiple of itself.  Subtract a
+  // multiple of \partial_t instead.
+  double dt[4] = {1., 0., 0., 0.}, kt = gg_->ScalarProd(&coord[0], dt, photon_tgvec);
+
+  // make Etheta orthogonal to photon_tgvec
+  Etheta[0] -= gg_->ScalarProd(&coord[0], Etheta, photon_tgvec)/kt;
   double norm = gg_->norm(&coord[0], Etheta);
   gg_->multiplyFourVect(Etheta, 1.0/norm);
 
-  // project Ephi orthogonal to photon_tgvec
-  gg_->projectFourVect(&coord[0], Ephi, photon_tgvec);
+  // make Ephi orthogonal to photon_tgvec
+  Ephi[0] -= gg_->ScalarProd(&coord[0], Ephi, photon_tgvec)/kt;
 
   // project Ephi orthogonal to Etheta
   gg_->projectFourVect(&coord[0], Ephi, Etheta);
@@ -490,8 +495,8 @@ void Worldline::IntegState::Boost::reorthonormalizeBasis(state_t &coord) const {
 
   // Write output in coord
   for (int ii=0; ii<4; ii++) {
-    coord[ii+8]  = Etheta[ii];
-    coord[ii+12] = Ephi[ii];
+    coord[ii+8]  = Ephi[ii];
+    coord[ii+12] = Etheta[ii];
   }
 }
 
-- 
2.43.0


From 28520aa69014a2b4275ed75d8228483faac401d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 72/97] fix: Worldline::checkBasis() did not correct the basis
 it was given

---
 lib/Worldline.C | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index f900d58..1fe2326 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1691,13 +1691,18 @@ void Worldline::checkBasis(state_t &coord) const {
     GYOTO_DEBUG << "Correcting polar basis using Gram-Schmidt" << endl;
 
     // Gram-Schmidt
-    // project Etheta orthogonal to photon_tgvec
-    metric_->projectFourVect(&coord[0], Etheta, photon_tgvec);
+    // photon_tgvec is a null vector: it is not possible to project
+    // orthogonally to it by subtracting a multiple of itself. Subtract
+    // a multiple of \partial_t instead.
+    double dt[4] = {1., 0., 0., 0.}, kt = metric_->ScalarProd(&coord[0], dt, photon_tgvec);
+
+    // make Etheta orthogonal to photon_tgvec
+    Etheta[0] -= metric_->ScalarProd(&coord[0], Etheta, photon_tgvec)/kt;
     norm = abs(metric_->norm(&coord[0], Etheta));
     metric_->multiplyFourVect(Etheta, 1.0/norm);
 
-    // project Ephi orthogonal to photon_tgvec
-    metric_->projectFourVect(&coord[0], Ephi, photon_tgvec);
+    // make Ephi orthogonal to photon_tgvec
+    Ephi[0] -= metric_->ScalarProd(&coord[0], Ephi, photon_tgvec)/kt;
 
     // project Ephi orthogonal to Etheta
     metric_->projectFourVect(&coord[0], Ephi, Etheta);
@@ -1705,6 +1710,12 @@ void Worldline::checkBasis(state_t &coord) const {
     // normalise Ephi
     norm = abs(metric_->norm(&coord[0], Ephi));
     metric_->multiplyFourVect(Ephi, 1.0/norm);
+
+    // Write output in coord
+    for (int ii=0; ii<4; ++ii) {
+      coord[ii+8]  = Ephi[ii];
+      coord[ii+12] = Etheta[ii];
+    }
   }
 
   // Check that the basis have been successfuly corrected
-- 
2.43.0


From 5f5022bcb89090af77eb2b6d2ec787e2e30d2bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 73/97] fix: polarisation basis was not transformed when a ray
 crosses the axis

---
 include/GyotoWorldline.h  |  8 ++++++++
 lib/Worldline.C           | 10 ++++++++++
 lib/WorldlineIntegState.C |  4 ++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/GyotoWorldline.h b/include/GyotoWorldline.h
index 5036cf1..b2b5030 100644
--- a/include/GyotoWorldline.h
+++ b/include/GyotoWorldline.h
@@ -856,6 +856,14 @@ class Gyoto::Worldline
    */
   void checkPhiTheta(double coord[8]) const;
 
+  /**
+   * \brief Bring &theta; in [0,&Pi;] and &phi; in [0,2&Pi;]
+   *
+   * Like checkPhiTheta(double coord[8]), also taking care of the
+   * polarization basis if coord contains one.
+   */
+  void checkPhiTheta(state_t &coord) const;
+
   /**
    * \brief Get computed positions in sky coordinates
    */
diff --git a/lib/Worldline.C b/lib/Worldline.C
index 1fe2326..0480905 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1269,6 +1269,16 @@ void Worldline::getCoord(double *x0dest,
   memcpy(x3dest, x3_+imin_, sizeof(double)*ncomp);
 }
 
+void Worldline::checkPhiTheta(state_t &coord) const{
+  double theta=coord[2];
+  checkPhiTheta(&coord[0]);
+  if (coord.size()==16 && sin(theta)<0.) {
+    // theta -> -theta: idem for the polarization basis
+    coord[10]*=-1.;
+    coord[14]*=-1.;
+  }
+}
+
 void Worldline::checkPhiTheta(double coord[8]) const{
   switch (metric_ -> coordKind()) {
   case GYOTO_COORDKIND_SPHERICAL:
diff --git a/lib/WorldlineIntegState.C b/lib/WorldlineIntegState.C
index 37ab72a..51e8156 100644
--- a/lib/WorldlineIntegState.C
+++ b/lib/WorldlineIntegState.C
@@ -366,7 +366,7 @@ int Worldline::IntegState::Boost::nextStep(state_t &coord, double& tau, double h
   tau += dtau;
   checkNorm(&coord[0]);
   if (gg_ -> coordKind() == GYOTO_COORDKIND_SPHERICAL){
-     line_->checkPhiTheta(&coord[0]);
+     line_->checkPhiTheta(coord);
   }
 
   return line_->stopcond;
@@ -425,7 +425,7 @@ void Worldline::IntegState::Boost::doStep(state_t const &coordin,
     coordout = {tnew,rr,th,ph,tdotnew,rdot,thdot,phdot};
   }
   if (gg_ -> coordKind() == GYOTO_COORDKIND_SPHERICAL){
-    line_->checkPhiTheta(&coordout[0]);
+    line_->checkPhiTheta(coordout);
   }
 }
 
-- 
2.43.0


From 3504593003c9cf09e938ac5592755477593f091f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 74/97] fix: DeformedTorus velocity was not a unit vector

---
 lib/DeformedTorus.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/DeformedTorus.C b/lib/DeformedTorus.C
index e54cf4d..bac53fd 100644
--- a/lib/DeformedTorus.C
+++ b/lib/DeformedTorus.C
@@ -260,8 +260,11 @@ void DeformedTorus::getVelocity(double const pos[4], double vel[4])
 	       "Unrecognized perturbation kind");
   }
 
+  // u^t = (gtt-lc*gtp)*u_t, u^r = drdt*u^t, u^th = dthdt*u^t
+  double utcoef = gtt-lc*gtp;
   double u_t2 = -1./
-    (gtt+lc*lc*gpp-2.*lc*gtp+drdt*drdt*grr+dthdt*dthdt*gthth);
+    (gtt+lc*lc*gpp-2.*lc*gtp
+     +(drdt*drdt/grr+dthdt*dthdt/gthth)*utcoef*utcoef);
 
   if (u_t2 < 0.) {
     stringstream ss;
-- 
2.43.0


From 57e7066db4322ce180aa67f944fe7ae11926cb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 75/97] fix: FreeStar::getCartesian() took Cartesian
 coordinates for spherical ones

---
 lib/FreeStar.C | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/FreeStar.C b/lib/FreeStar.C
index 2a7d98e..2f1f81c 100644
--- a/lib/FreeStar.C
+++ b/lib/FreeStar.C
@@ -181,6 +181,18 @@ void FreeStar::getCartesian(double const * const dates, size_t const n_dates,
   double vel[4];
   getVelocity(posIni_, vel);
 
+  if (gg_->coordKind()==GYOTO_COORDKIND_CARTESIAN) {
+    x[0] = posIni_[1]+vel[1]/vel[0]*(tt-posIni_[0]);
+    y[0] = posIni_[2]+vel[2]/vel[0]*(tt-posIni_[0]);
+    z[0] = posIni_[3]+vel[3]/vel[0]*(tt-posIni_[0]);
+    if (xprime!=NULL && yprime!=NULL && zprime!=NULL) {
+      xprime[0] = vel[1]/vel[0];
+      yprime[0] = vel[2]/vel[0];
+      zprime[0] = vel[3]/vel[0];
+    }
+    return;
+  }
+
   r = posIni_[1]+vel[1]/vel[0]*(tt-posIni_[0]);
   theta = posIni_[2]+vel[2]/vel[0]*(tt-posIni_[0]);
   phi = posIni_[3] + vel[3]/vel[0]*(tt-posIni_[0]);
-- 
2.43.0


From 2b1ba23201c5508efbe3c73f66b02c579135f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 76/97] fix: UniformSphere in SchwarzschildHarmonic lost the
 quadrant of its azimuth

---
 lib/UniformSphere.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/UniformSphere.C b/lib/UniformSphere.C
index ae66837..ceb4823 100644
--- a/lib/UniformSphere.C
+++ b/lib/UniformSphere.C
@@ -151,7 +151,7 @@ double UniformSphere::operator()(double const coord[4]) {
   // in order to ease comparison between coordinate systems.
   if (gg_->kind()=="SchwarzschildHarmonic"){
     double r_st = sqrt(coord_st[1]*coord_st[1]+coord_st[2]*coord_st[2]+coord_st[3]*coord_st[3]);
-    double theta = acos(coord_st[3]/r_st), phi = atan(coord_st[2]/coord_st[1]);
+    double theta = acos(coord_st[3]/r_st), phi = atan2(coord_st[2], coord_st[1]);
     coord_st[1]+= sin(theta)*cos(phi);
     coord_st[2]+= sin(theta)*sin(phi);
     coord_st[3]+= cos(theta);
-- 
2.43.0


From 3cc9f897462495bd08b47866c02890d4d1c7ae87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 77/97] fix: PageThorneDisk temperature mixed SI intensity and
 CGS Stefan-Boltzmann constant

---
 lib/PageThorneDisk.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PageThorneDisk.C b/lib/PageThorneDisk.C
index 943794f..8469a22 100644
--- a/lib/PageThorneDisk.C
+++ b/lib/PageThorneDisk.C
@@ -137,7 +137,8 @@ double PageThorneDisk::emission(double nu_em, double dsem,
   double g2m2=GYOTO_G_CGS*GYOTO_G_CGS*mass*mass;
   Ibolo*=mdot_*c6/g2m2; // Ibolo in cgs*/ // --> this is now done in boloEm 
   //F = sigma * T^4 (and F=pi*I)
-  double TT=pow(Ibolo*M_PI/GYOTO_STEFANBOLTZMANN_CGS,0.25);
+  // bolometricEmission() is in SI
+  double TT=pow(Ibolo/GYOTO_INU_CGS_TO_SI*M_PI/GYOTO_STEFANBOLTZMANN_CGS,0.25);
   spectrumBB_->temperature(TT);
   double Iem=(*spectrumBB_)(nu_em); // in SI
   //cout << "r T nu Iem = " << coord_obj[1] << " " << TT << " " << nu_em << " " << Iem << endl;
-- 
2.43.0


From 2b7d3f38a9b583f6ef183856ef09e77e5e08a6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 78/97] fix: PageThorneDisk spectrum ignored the requested unit

---
 lib/PageThorneDisk.C | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/PageThorneDisk.C b/lib/PageThorneDisk.C
index 8469a22..03c8048 100644
--- a/lib/PageThorneDisk.C
+++ b/lib/PageThorneDisk.C
@@ -294,6 +294,10 @@ void PageThorneDisk::processHitQuantities(Photon* ph, state_t const &coord_ph_hi
       	inc = (emission(nuem, dsem, coord_ph_hit, coord_obj_hit))
       	  * (ph -> getTransmission(size_t(-1)))
       	  * ggred*ggred*ggred; // Inu/nu^3 invariant
+#       ifdef HAVE_UDUNITS
+	if (data -> spectrum_converter_)
+	  inc = (*data -> spectrum_converter_)(inc);
+#       endif
       	data->spectrum[ii*data->offset] += inc;
       	//cout << "in spec stored= " << ggred << " " << inc << endl;
         //cout << "transmission : " << ph -> getTransmission(size_t(-1)) << endl;
-- 
2.43.0


From 1daf61d634a06b4d7a3e030624b0c1bcefc493c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 79/97] fix: EquatorialHotSpot emission took Cartesian
 coordinates for spherical ones

---
 lib/EquatorialHotSpot.C | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/EquatorialHotSpot.C b/lib/EquatorialHotSpot.C
index 06a73bd..30ceabc 100644
--- a/lib/EquatorialHotSpot.C
+++ b/lib/EquatorialHotSpot.C
@@ -197,7 +197,7 @@ double EquatorialHotSpot::emission(double, double,
   //above: nasty trick to deal with constness of emission
   double xspot=coord_spot[1], yspot=coord_spot[2];
   //cout << "spot is at xy= " << xspot << " " << yspot << endl;
-  double rr=coord_obj[1], phi=coord_obj[3];
+  double rr=projectedRadius(coord_obj), phi=sphericalPhi(coord_obj);
   double difx=(rr*cos(phi)-xspot),
     dify=(rr*sin(phi)-yspot);
   double d2 = difx*difx+dify*dify;
@@ -208,8 +208,10 @@ double EquatorialHotSpot::emission(double, double,
     // computing the angle (normal,photon tangent)
     double cosalpha=0.;
     if (beaming_ == NormalBeaming or beaming_ == RadialBeaming){
-      double gthth=gg_->gmunu(&coord_ph[0],2,2);
-      double pth=coord_ph[6];
+      // coordinate along the normal to the equatorial plane: theta or z
+      int inorm=(gg_->coordKind()==GYOTO_COORDKIND_CARTESIAN)?3:2;
+      double gthth=gg_->gmunu(&coord_ph[0],inorm,inorm);
+      double pth=coord_ph[4+inorm];
       double uemitter[4];
       const_cast<EquatorialHotSpot*>(this)
 	->getVelocity(&coord_ph[0],uemitter);
-- 
2.43.0


From 62ecc40d4b0b6d4a52e459a695726764cc15df33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 80/97] fix: OscilTorus emitting area was extrapolated
 backwards and undefined at negative dates

---
 lib/OscilTorus.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/OscilTorus.C b/lib/OscilTorus.C
index 9c28938..6bd4a07 100644
--- a/lib/OscilTorus.C
+++ b/lib/OscilTorus.C
@@ -488,6 +488,7 @@ double OscilTorus::emission(double, double, state_t const &cp,
     double tt=cp[0],tmax=tt_[0], area=-1.;
     double myt = tt;
     while (myt>2.*M_PI/AA) myt-=2.*M_PI/AA; // myt is in ]0,2pi/AA]
+    while (myt<=0.) myt+=2.*M_PI/AA;
     decltype(nbt_) ii=0;
     while (myt>tmax && ii < nbt_-1){
       ii++;
@@ -497,7 +498,7 @@ double OscilTorus::emission(double, double, state_t const &cp,
       area=area_[ii];
     }else{
       area=
-	area_[ii-1]+(myt-tt_[ii-1])*(area_[ii]-area_[ii-1])/(tt_[ii-1]-tt_[ii]);
+	area_[ii-1]+(myt-tt_[ii-1])*(area_[ii]-area_[ii-1])/(tt_[ii]-tt_[ii-1]);
     }
     if (area<=0. || area!=area) GYOTO_ERROR("In OscilTorus::emission:"
 					  "bad area value");
-- 
2.43.0


From 3f5c3e938ea08cb46c9c8fd11b3ff49e7fa59653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:12 +0000
Subject: [PATCH 81/97] fix: Worldline::getCoord() of a massive particle used
 the far end of the interval

---
 lib/Worldline.C | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index 0480905..c115f4d 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1188,7 +1188,13 @@ void Worldline::getCoord(double const * const dates, size_t const n_dates,
 	vel[i-1]=primel*factl+primeh*facth;
 	second =(primeh-primel)*Dtm1;
 	//	pos[i] = resl[i] + primel*dtl + 0.5*second*dtl*dtl;
-	pos[i] = bestl[i] + primel*dtl + 0.5*second*dtl*dtl;
+	// expand around the closest of the two bracketing points
+	if (factl >= facth)
+	  pos[i] = bestl[i] + primel*dtl + 0.5*second*dtl*dtl;
+	else {
+	  dth = date-besth[0];
+	  pos[i] = besth[i] + primeh*dth + 0.5*second*dth*dth;
+	}
       }
 
       tdot=metric_->SysPrimeToTdot(pos, vel);
-- 
2.43.0


From 3be36e4b4f12d05f885f04c3f14c8392425acf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:38:47 +0000
Subject: [PATCH 82/97] fix: GridData2D::interpolate: wrong upper date, reading
 beyond the grid on the last grid points

---
 lib/GridData2D.C | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/GridData2D.C b/lib/GridData2D.C
index deb4a2c..0430078 100644
--- a/lib/GridData2D.C
+++ b/lib/GridData2D.C
@@ -343,6 +343,7 @@ void GridData2D::getIndices(size_t i[3], double const tt, double const phi, doub
   if (rmin_>0. && rmax_<DBL_MAX && nr_>0. && dr_>0.) { // >1 radii must be properly defined
     i[2] = size_t(floor((rr-rmin_)/dr_)); // index of closest grid point smaller than rr
                                           // (and same for phi,t)
+    if (rr<=rmax_ && i[2]+1>=nr_) i[2] = nr_-2; // rr is on the last grid point
   } else {
     GYOTO_ERROR("In GridData2D::getIndices: radius undefined!");
   }
@@ -356,7 +357,10 @@ void GridData2D::getIndices(size_t i[3], double const tt, double const phi, doub
       else if (phi>phimax_)
 	      i[1]=nphi_-1; // idem
       else
+      {
 	      i[1] = size_t(floor((phi-phimin_)/dphi_)); // then phimin_+dphi_*i[1] < phi < phimin_ +dphi_*(i[1]+1)
+	      if (i[1]+1>=nphi_) i[1] = nphi_-2; // phi is on the last grid point
+      }
     }
     else          // then 1 phi value only, axisym
       i[1] = 0;
@@ -368,13 +372,14 @@ void GridData2D::getIndices(size_t i[3], double const tt, double const phi, doub
   if (nt_>0.) {                                // necessary condition
     if (tmin_ > -DBL_MAX && tmax_<DBL_MAX) // >1 time values provided
       if (tt<tmin_) i[0]=0;        // assuming stationnarity before tmin_
-      else if (tt>tmax_) i[0]=nt_-1;//                       and after tmax_
+      else if (tt>=tmax_ || nt_==1) i[0]=nt_-1;//                       and after tmax_
       else {
         if (!time_array){
           i[0] = size_t(floor((tt-tmin_)/dt_));
+          if (i[0]+1>=nt_) i[0] = nt_-2; // tt<tmax_, this is rounding
         }else{
           size_t i_t=0;
-          while (tt>time_array[i_t] && tt>time_array[i_t+1] && i_t<nt_-1) { // search of i_t
+          while (i_t+2<nt_ && tt>time_array[i_t+1]) { // search of i_t
             i_t+=1;
           }
           i[0]=i_t;
@@ -438,7 +443,8 @@ double GridData2D::interpolate(double tt, double phi, double rcyl,
       ru = rmin_+dr_*iru;
     double ratiophi = (phi-phil)/(phiu-phil),
       ratior = (rcyl-rl)/(ru-rl);
-    if (ratiophi<0. || ratior<0.)
+    double const tol=-1e-10; // rounding next to a grid point
+    if (ratiophi<tol || ratior<tol)
       GYOTO_ERROR("One ratio is negative (over t, phi or r) !");
 
     array_interpo = array_ll+(array_ul-array_ll)*ratiophi
@@ -469,13 +475,14 @@ double GridData2D::interpolate(double tt, double phi, double rcyl,
       tu = time_array[itu];
     }else{
       tl = tmin_+dt_*itl;
-      tu = rmin_+dt_*itu;
+      tu = tmin_+dt_*itu;
     }
 
     double ratiot = (tt-tl)/(tu-tl),
       ratiophi = (phi-phil)/(phiu-phil),
       ratior = (rcyl-rl)/(ru-rl);
-    if (ratiot<0. || ratiophi<0. || ratior<0.)
+    double const tol=-1e-10; // rounding next to a grid point
+    if (ratiot<tol || ratiophi<tol || ratior<tol)
       GYOTO_ERROR("One ratio is negative (over t, phi or r) !");
 
     array_interpo = array_lll
-- 
2.43.0


From 35ea2dbc0087fee46f31f67e26e60de1924d3ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:17 +0000
Subject: [PATCH 83/97] fix: N-dimensional interpolation: boundary conditions,
 last element of an axis, axes of length one, leaks

---
 lib/Astrobj.C | 61 ++++++++++++++++++++++++---------------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/lib/Astrobj.C b/lib/Astrobj.C
index 7824644..47ea6d4 100644
--- a/lib/Astrobj.C
+++ b/lib/Astrobj.C
@@ -1656,10 +1656,10 @@ double Generic::interpNd(int const N, double* const Xq, double** const X, double
       double t = (Xq[N-n]-X[0][N-n])/(X[indx][N-n]-X[0][N-n]);
       if (X[indx][N-n]-X[0][N-n]==0.) // At this point, this should only happen if dimension N-n is of length 1 with "Constant" boundary condition
         t = 0.;
-      if (t<0. or t>1.){
+      if (t<-1e-10 or t>1.+1e-10){ // with some room for rounding
       	if (cond_limit[N-n]=="None"){
       		GYOTO_ERROR("In interpNd : Query position of dimension out of interpolation boundaries.");
-      	}else if (cond_limit[n-1]=="Constant"){
+      	}else if (cond_limit[N-n]=="Constant"){
       		if (t<0.)
       			t=0.;
       		else
@@ -1677,6 +1677,7 @@ double Generic::interpNd(int const N, double* const Xq, double** const X, double
       res = Xsub_dim[0];
       delete [] Xsub_dim;
   }
+  delete [] Xdim;
   return res;
 }
 
@@ -1698,11 +1699,11 @@ int Generic::getIndice(double &xq, std::string const cond_limit, double const X_
 		if (cond_limit == "None")
 			GYOTO_ERROR("In getIndice : query value out of boundaries (with None boundary condition).");
 		else if (cond_limit == "Periodic"){
-			if (xq > x_max)
-				xq = std::fmod(xq, x_max) + x_min; // equivalent of (xq % x_max) + x_min for double
-			else
-				xq = std::fmod(xq, x_max) + x_min + x_max;
-			ind = int(floor((xq-x_min)/dx));
+			// wrap xq in [x_min, x_max], then look for the indice as usual
+			double period = x_max - x_min;
+			xq = std::fmod(xq-x_min, period);
+			if (xq < 0.) xq += period;
+			xq += x_min;
 		}
 		else if (cond_limit == "Constant" or cond_limit=="Linear"){
 			if (xq<x_min){
@@ -1716,18 +1717,18 @@ int Generic::getIndice(double &xq, std::string const cond_limit, double const X_
 			return -1;
 		else
 			GYOTO_ERROR("In getIndice : unknown boundary condition");
-	}else{
-		if (X!=NULL){
-			// Array is furnished by the user
-			int i_x=0;
-	    while (xq>X[i_x] && xq>X[i_x+1] && i_x<n_x-1) { // search of i_x
-	      i_x+=1;
-	    }
-	    ind=i_x;
-		}else{
-			// Array not furnished, assumed to be linearly spaced
-			ind = int(floor((xq-x_min)/dx));
+	}
+	if (X!=NULL){
+		// Array is furnished by the user
+		int i_x=0;
+		while (i_x<n_x-2 && xq>X[i_x+1]) { // search of i_x
+			i_x+=1;
 		}
+		ind=i_x;
+	}else{
+		// Array not furnished, assumed to be linearly spaced
+		ind = int(floor((xq-x_min)/dx));
+		if (ind>n_x-2) ind=n_x-2; // xq is the last element of the axis
 	}
 	return ind;
 }
@@ -1740,6 +1741,8 @@ double Generic::interpolate(int const N, double* const array, double* const Xq,
 		double params[3] = {X[ii][0], X[ii][X_lengths[ii]-1], len_X};
 		indices[ii] = getIndice(Xq[ii], cond_limits[ii], params, X[ii]);
 	}
+	for (int ii=0; ii<N; ii++)
+		if (indices[ii]==-1) return 0.; // "Null" boundary condition
 
 	int len = pow(2.,N);
 	double** X_array = new double*[len];
@@ -1758,11 +1761,7 @@ double Generic::interpolate(int const N, double* const array, double* const Xq,
       ind_X-=tab_indX[n]*pow(2.,n);
       if (X_lengths[n]==1)
         tab_indX[n]=0.; // if dimension contains only one element, force to use the only valid value; avoid nan, or arbitrary values
-      if (indices[n]!=-1){
-      	X_array[ii][n]=X[n][indices[n]+tab_indX[n]];
-      }else{
-      	return 0.; // "Null" bondary condition
-      }
+      X_array[ii][n]=X[n][indices[n]+tab_indX[n]];
         //cout << "X_array[" << ii << "][" << n << "] = " << X_array[ii][n] << endl;
 		}
 
@@ -1795,6 +1794,8 @@ double Generic::interpolate(int const N, double* const array, double* const Xq,
 		double params[3] = {X_params[ii][0], X_params[ii][1], X_params[ii][2]};
 		indices[ii] = getIndice(Xq[ii], cond_limits[ii], params, NULL);
 	}
+	for (int ii=0; ii<N; ii++)
+		if (indices[ii]==-1) return 0.; // "Null" boundary condition
 
 	int len = pow(2.,N);
 	double** X_array = new double*[len];
@@ -1812,15 +1813,11 @@ double Generic::interpolate(int const N, double* const array, double* const Xq,
       ind_X-=tab_indX[n]*pow(2.,n);
       if (X_params[n][2]==1)
         tab_indX[n]=0.; // if dimension contains only one element, force to use the only valid value; avoid nan, or arbitrary values
-      if (indices[n]!=-1){
-      	int nx = X_params[n][2];
-      	double xmin = X_params[n][0],
-      				 xmax = X_params[n][1],
-    					 dx = (xmax - xmin)/(nx-1);
-      	X_array[ii][n]= xmin+(indices[n]+tab_indX[n])*dx;
-      }else{
-      	return 0.; // "Null" bondary condition
-      }
+      int nx = X_params[n][2];
+      double xmin = X_params[n][0],
+        xmax = X_params[n][1],
+        dx = nx>1 ? (xmax - xmin)/(nx-1) : 0.;
+      X_array[ii][n]= xmin+(indices[n]+tab_indX[n])*dx;
 		}
 
 		int ind_Y = 0;
-- 
2.43.0


From 111da2fab462b18b7024a0b3fef5617f3b6b04e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:17 +0000
Subject: [PATCH 84/97] fix: PatternDisk copy reads beyond the end of the
 radius array

---
 lib/PatternDisk.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PatternDisk.C b/lib/PatternDisk.C
index 29e7691..5f41742 100644
--- a/lib/PatternDisk.C
+++ b/lib/PatternDisk.C
@@ -97,7 +97,7 @@ PatternDisk::PatternDisk(const PatternDisk& o) :
     memcpy(velocity_, o.velocity_, ncells * sizeof(double));
   }
   if (o.radius_) {
-    radius_ = new double[ncells = 2 * nphi_ * nr_];
+    radius_ = new double[ncells = nr_];
     memcpy(radius_, o.radius_, ncells * sizeof(double));
   }
 }
-- 
2.43.0


From cc41eea8be340c8a3e2f8d9ebbf8cc748baa4aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:17 +0000
Subject: [PATCH 85/97] fix: PatternDisk: places on the edge of the grid read
 out of bounds or fail

---
 lib/PatternDisk.C | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/lib/PatternDisk.C b/lib/PatternDisk.C
index 5f41742..07a645b 100644
--- a/lib/PatternDisk.C
+++ b/lib/PatternDisk.C
@@ -624,7 +624,8 @@ void PatternDisk::getIndices(size_t i[3], double const co[4], double nu) const {
       i[1]=nphi_;
     else {
       i[1] = size_t(floor((phi-phimin_)/dphi_)+1); // % (nphi_-1);
-      if (i[1]==0 || i[1]==nphi_){
+      if (i[1]==nphi_) i[1]=nphi_-1; // phi is phimax_
+      if (i[1]==0 || i[1]>nphi_){
 	cerr << "iphi stuff= " << phi << " " << dphi_ << " " << nphi_ << " " << floor((phi-phimin_)/dphi_) << " " << i[1] << endl;
 	GYOTO_ERROR("In PatternDisk:getIndices: bad i[1]");
       }				
@@ -644,14 +645,15 @@ void PatternDisk::getIndices(size_t i[3], double const co[4], double nu) const {
   if (radius_) {
     GYOTO_DEBUG <<"radius_ != NULL" << endl;
     // if the radius_ vector is set, find closest value
-    if (r >= radius_[nr_-1]) i[2] = nr_;
+    if (r > radius_[nr_-1]) i[2] = nr_;
+    else if (r == radius_[0]) i[2] = 1;
     else {
       for(i[2]=0; r > radius_[i[2]]; ++i[2]){}
       //cerr << "in indice --RAD: " << radius_[i[2]-1] << " " << r << " " << radius_[i[2]] << endl;
       /*
 	With this definition:
-	radius_[i[2]-1] <= r < radius_[i[2]]
-	Special case: i[2]=0 if r < radius_[0]
+	radius_[i[2]-1] < r <= radius_[i[2]]
+	Special cases: i[2]=0 if r < radius_[0], 1 if r == radius_[0]
        */
     }
   } else {
@@ -684,7 +686,8 @@ void PatternDisk::getVelocity(double const pos[4], double vel[4]) {
 
     if (repeat_phi_>1) phi=fmod(phi-phimin_,(phimax_-phimin_)/double(repeat_phi_))+phimin_;
 
-    if (rr < rin_ || rr > rout_){
+    if (rr < rin_ || rr > rout_
+	|| (radius_ && (rr < radius_[0] || rr > radius_[nr_-1]))){
       // Outside radial grid, emission is zero: put arbitrary velocity
       vel[0]=1;vel[1]=0;vel[2]=0;vel[3]=0;
       return;
@@ -710,7 +713,8 @@ void PatternDisk::getVelocity(double const pos[4], double vel[4]) {
 	radhigh = rin_ + double(i[2])*dr_;
       }
 
-      if (rr<radlow || rr>radhigh){
+      double const tol=1e-10*(radhigh-radlow); // rounding next to a grid point
+      if (rr<radlow-tol || rr>radhigh+tol){
 	//cout << "r= " << i[2] << " " <<  radlow << " " << rr << " " << radhigh << endl;
 	GYOTO_ERROR("In PatternDisk::getVelocity: "
 		   "bad radial interpolation");
@@ -765,7 +769,10 @@ void PatternDisk::getVelocity(double const pos[4], double vel[4]) {
 
       //cout << "rin sup, phi inf sup, r phi: " << radlow << " " << radhigh << " " << philow << " " << phihigh << " " << rr << " " << phi << endl;
 
-      if (phi<philow || phi>phihigh || rr<radlow || rr>radhigh){
+      // rounding next to a grid point
+      double const tolr=1e-10*(radhigh-radlow), tolphi=1e-10*(phihigh-philow);
+      if (phi<philow-tolphi || phi>phihigh+tolphi
+          || rr<radlow-tolr || rr>radhigh+tolr){
 	//cout << "r, phis= " << i[2] << " " <<  radlow << " " << rr << " " << radhigh << " " << philow << " " << phi << " " << phihigh << endl;
 	GYOTO_ERROR("In PatternDisk::getVelocity: "
 		   "bad interpolation");
@@ -825,7 +832,8 @@ double PatternDisk::emission(double nu, double dsem,
   //cout << "dphi= " << dphi_ << endl;
   // No emission outside radius limits
   //cerr << "r checks: " << rin_ << " " << rout_ << endl;
-  if (rr < rin_ || rr > rout_) return 0.;
+  if (rr < rin_ || rr > rout_
+      || (radius_ && (rr < radius_[0] || rr > radius_[nr_-1]))) return 0.;
   double Iem=0.;
 
   if (nnu_>1) GYOTO_ERROR("In PatternDisk: multifrequency case not implemented");
@@ -844,7 +852,8 @@ double PatternDisk::emission(double nu, double dsem,
       radhigh = rin_ + double(i[2])*dr_;
     }
 
-    if (rr<radlow || rr>radhigh){
+    double const tol=1e-10*(radhigh-radlow); // rounding next to a grid point
+    if (rr<radlow-tol || rr>radhigh+tol){
       //cout << "r= " << i[2] << " " <<  radlow << " " << rr << " " << radhigh << endl;
       GYOTO_ERROR("In PatternDisk::emission: "
 		 "bad radial interpolation");
@@ -894,7 +903,10 @@ double PatternDisk::emission(double nu, double dsem,
     
     //cout << " In emission rin sup, phi inf sup, r phi: " << radlow << " " << radhigh << " " << philow << " " << phihigh << " " << rr << " " << phi << endl;
     
-    if (phi<philow || phi>phihigh || rr<radlow || rr>radhigh){
+    // rounding next to a grid point
+    double const tolr=1e-10*(radhigh-radlow), tolphi=1e-10*(phihigh-philow);
+    if (phi<philow-tolphi || phi>phihigh+tolphi
+        || rr<radlow-tolr || rr>radhigh+tolr){
       cout << "phi: " << philow << " " << phi << " " << phihigh << endl;
       cout << "r: " << radlow << " " << rr << " " << radhigh << endl;
       GYOTO_ERROR("In PatternDisk::emission: "
@@ -911,7 +923,7 @@ double PatternDisk::emission(double nu, double dsem,
   if (!flag_radtransf_) return Iem;
   double thickness;
   // NB: thickness is not interpolated so far
-  if (opacity_ && (thickness=opacity_[i[1]*nr_+i[2]]*dsem))
+  if (opacity_ && (thickness=opacity_[(i[1]%nphi_)*nr_+i[2]]*dsem))
     return Iem * (1. - exp (-thickness)) ;
   return 0.;
 }
@@ -923,7 +935,7 @@ double PatternDisk::transmission(double nu, double dsem, state_t const &, double
   size_t i[3]; // {i_nu, i_phi, i_r}
   getIndices(i, co, nu);
   // NB: opacity is not interpolated so far
-  double opac = opacity_[i[1]*nr_+i[2]];
+  double opac = opacity_[(i[1]%nphi_)*nr_+i[2]];
   GYOTO_DEBUG << "nu="<<nu <<", dsem="<<dsem << ", opacity="<<opac <<endl;
   if (!opac) return 1.;
   return exp(-opac*dsem);
-- 
2.43.0


From 30c7adcc246a1b836dcc2d71ef0db8eb538f50b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:43 +0000
Subject: [PATCH 86/97] fix: PatternDisk: repeated pattern and azimuth below
 the start of the grid

---
 lib/PatternDisk.C | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/lib/PatternDisk.C b/lib/PatternDisk.C
index 07a645b..912c6ca 100644
--- a/lib/PatternDisk.C
+++ b/lib/PatternDisk.C
@@ -614,7 +614,12 @@ void PatternDisk::getIndices(size_t i[3], double const co[4], double nu) const {
   while (phi<0) phi += 2.*M_PI;
   while (phi>2.*M_PI) phi -= 2.*M_PI;
 
-  if (repeat_phi_>1) phi=fmod((phi-phimin_),(phimax_-phimin_)/double(repeat_phi_))+phimin_;
+  if (repeat_phi_>1) {
+    double const period=(phimax_-phimin_)/double(repeat_phi_);
+    phi=fmod(phi-phimin_,period);
+    if (phi<0.) phi+=period;
+    phi+=phimin_;
+  }
   // wrap phi if the disk is periodic with period repeat_phi_
 
   if (nphi_>1){
@@ -684,7 +689,12 @@ void PatternDisk::getVelocity(double const pos[4], double vel[4]) {
     while (phi<0.) phi += 2.*M_PI;
     while (phi>2.*M_PI) phi -= 2.*M_PI;
 
-    if (repeat_phi_>1) phi=fmod(phi-phimin_,(phimax_-phimin_)/double(repeat_phi_))+phimin_;
+    if (repeat_phi_>1) {
+      double const period=(phimax_-phimin_)/double(repeat_phi_);
+      phi=fmod(phi-phimin_,period);
+      if (phi<0.) phi+=period;
+      phi+=phimin_;
+    }
 
     if (rr < rin_ || rr > rout_
 	|| (radius_ && (rr < radius_[0] || rr > radius_[nr_-1]))){
@@ -825,7 +835,12 @@ double PatternDisk::emission(double nu, double dsem,
   while (phi<0.) phi += 2.*M_PI;
   while (phi>2.*M_PI) phi -= 2.*M_PI;
 
-  if (repeat_phi_>1) phi=fmod(phi-phimin_,(phimax_-phimin_)/double(repeat_phi_))+phimin_;
+  if (repeat_phi_>1) {
+    double const period=(phimax_-phimin_)/double(repeat_phi_);
+    phi=fmod(phi-phimin_,period);
+    if (phi<0.) phi+=period;
+    phi+=phimin_;
+  }
 
   //cout << "in emission r, phi= " << rr << " " << phi << endl;
   //cout << "and indices= " << i[0] << " " << i[1] << " " << i[2] << endl;
@@ -934,6 +949,7 @@ double PatternDisk::transmission(double nu, double dsem, state_t const &, double
   if (!opacity_) return 1.;
   size_t i[3]; // {i_nu, i_phi, i_r}
   getIndices(i, co, nu);
+  if (i[2]==0 || i[2]>=nr_) return 1.; // outside the grid
   // NB: opacity is not interpolated so far
   double opac = opacity_[(i[1]%nphi_)*nr_+i[2]];
   GYOTO_DEBUG << "nu="<<nu <<", dsem="<<dsem << ", opacity="<<opac <<endl;
-- 
2.43.0


From cde049ad506c215b697f6d224a0f678154e65da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:43 +0000
Subject: [PATCH 87/97] fix: DynamicalDisk copy loses all the data

---
 lib/DynamicalDisk.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/DynamicalDisk.C b/lib/DynamicalDisk.C
index 6ca613a..461f66d 100644
--- a/lib/DynamicalDisk.C
+++ b/lib/DynamicalDisk.C
@@ -72,7 +72,7 @@ DynamicalDisk::DynamicalDisk(const DynamicalDisk& o) :
   dirname_(NULL),
   tinit_(o.tinit_),
   dt_(o.dt_),
-  nb_times_(0),
+  nb_times_(o.nb_times_),
   nnu_(o.nnu_), nphi_(o.nphi_), nr_(o.nr_),
   emission_array_(NULL),
   velocity_array_(NULL),
-- 
2.43.0


From 9eaf3bf45032a4eb2d5347062749c2d61c07e437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:00 +0000
Subject: [PATCH 88/97] fix: Disk3D: opacity is not released, azimuth limits
 set after the number of repetitions

---
 lib/Disk3D.C | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/Disk3D.C b/lib/Disk3D.C
index 6bc558b..9391eff 100644
--- a/lib/Disk3D.C
+++ b/lib/Disk3D.C
@@ -125,6 +125,7 @@ Disk3D* Disk3D::clone() const
 Disk3D::~Disk3D() {
   GYOTO_DEBUG << "Disk3D Destruction" << endl;
   if (emissquant_) delete [] emissquant_;
+  if (opacity_) delete [] opacity_;
   if (velocity_) delete [] velocity_;
 }
 
@@ -148,6 +149,10 @@ void Disk3D::copyEmissquant(double const *const pattern, size_t const naxes[4])
   }
   if (pattern) {
     size_t nel;
+    if (nnu_ != naxes[0] || nphi_ != naxes[1] || nz_ != naxes[2] || nr_ != naxes[3]) {
+      GYOTO_DEBUG <<"dimensions changed, freeing opacity_" << endl;
+      if (opacity_) { delete [] opacity_; opacity_= NULL; }
+    }
     if (nphi_ != naxes[1]) {
       GYOTO_DEBUG <<"nphi_ changed, freeing velocity_" << endl;
       if (velocity_) { delete [] velocity_; velocity_= NULL; }
@@ -264,13 +269,13 @@ double Disk3D::zmax() const {return zmax_;}
 
 void Disk3D::phimin(double phimn) {
   phimin_ = phimn;
-  if (nphi_>1) dphi_ = (phimax_-phimin_) / double(nphi_-1);
+  if (nphi_>1 && repeat_phi_>0) dphi_ = (phimax_-phimin_) / double((nphi_-1)*repeat_phi_);
 }
 double Disk3D::phimin() const {return phimin_;}
 
 void Disk3D::phimax(double phimx) {
   phimax_ = phimx;
-  if (nphi_>1) dphi_ = (phimax_-phimin_) / double(nphi_-1);
+  if (nphi_>1 && repeat_phi_>0) dphi_ = (phimax_-phimin_) / double((nphi_-1)*repeat_phi_);
 }
 double Disk3D::phimax() const {return phimax_;}
 
-- 
2.43.0


From c5d56fb6a97099dea2593e918ef9a933c0e834a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:00 +0000
Subject: [PATCH 89/97] fix: Disk3D: repeated pattern drifts by one cell per
 period

---
 lib/Disk3D.C | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Disk3D.C b/lib/Disk3D.C
index 9391eff..caa0138 100644
--- a/lib/Disk3D.C
+++ b/lib/Disk3D.C
@@ -660,7 +660,9 @@ void Disk3D::getIndices(size_t i[4], double const co[4], double nu) const {
   else if (phi>phimax_)
     i[1]=nphi_-1;
   else
-    i[1] = size_t(floor((phi-phimin_)/dphi_+0.5)) % nphi_;
+    i[1] = size_t(floor((phi-phimin_)/dphi_+0.5))
+      // last point of a period is first point of the next one
+      % (repeat_phi_>1 ? nphi_-1 : nphi_);
 
   //z indice
   if (zz<0. && zmin_>=0.) zz*=-1.; //if zmin>=0, assume disk is symmetric
-- 
2.43.0


From aa4a26a2f1bfdc4d5aeac82de5aa9015c6224b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:04 +0000
Subject: [PATCH 90/97] fix: FlaredDiskSynchrotron never closes the FITS files
 it reads

---
 lib/FlaredDiskSynchrotron.C | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/FlaredDiskSynchrotron.C b/lib/FlaredDiskSynchrotron.C
index f1ae1bc..c69a540 100644
--- a/lib/FlaredDiskSynchrotron.C
+++ b/lib/FlaredDiskSynchrotron.C
@@ -490,6 +490,9 @@ vector<size_t> FlaredDiskSynchrotron::fitsRead(string filename) {
   for (int ii=0;ii<60;ii++) cerr << velocity_[ii] << " " ;
   cout << endl;*/
 
+  status = 0; // optional HDU may have been missing
+  if (fits_close_file(fptr, &status)) throwCfitsioError(status) ;
+
   GridData2D::nr(naxes_dens[0]);
   GridData2D::nphi(naxes_dens[1]);
   GridData2D::nt(naxes_dens[2]);
-- 
2.43.0


From bd89a694956a18ebe85f8be96ec5a8f7dbdd9345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:58 +0000
Subject: [PATCH 91/97] fix: FlaredDiskSynchrotron: time translation is lost
 for the dates when a file is read again

---
 lib/FlaredDiskSynchrotron.C | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/FlaredDiskSynchrotron.C b/lib/FlaredDiskSynchrotron.C
index c69a540..a48388e 100644
--- a/lib/FlaredDiskSynchrotron.C
+++ b/lib/FlaredDiskSynchrotron.C
@@ -486,6 +486,8 @@ vector<size_t> FlaredDiskSynchrotron::fitsRead(string filename) {
   
   if (naxes_time[0]!=naxes_dens[2])
     GYOTO_ERROR("In FlaredDiskSynchro: ntimes differ from density array and time_array");
+  for (size_t ii=0; ii<naxes_time[0]; ++ii) // same translation as tmin and tmax
+    time_array_[ii]+=deltat_;
   /*cout << "velo read= " << endl;
   for (int ii=0;ii<60;ii++) cerr << velocity_[ii] << " " ;
   cout << endl;*/
-- 
2.43.0


From 5a9c35ff1b2d2675cc2e20e479d2f65df0c7084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:52 +0000
Subject: [PATCH 92/97] fix: Worldline::checkPhiTheta() never returned for
 diverging angles

Bringing the angles back in range by repeated subtraction of 2 pi does not
end when an integration step diverged (infinite or huge angle): ray-tracing
hung instead of ending the geodesic.
---
 lib/Worldline.C | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/Worldline.C b/lib/Worldline.C
index c115f4d..57dad04 100644
--- a/lib/Worldline.C
+++ b/lib/Worldline.C
@@ -1292,15 +1292,17 @@ void Worldline::checkPhiTheta(double coord[8]) const{
     /* Transforms theta and phi in coord so that 
        theta is in [0,pi] and phi in [0,2pi] */
     double thetatmp=coord[2], phitmp=coord[3];
-    while (thetatmp>M_PI) thetatmp-=2.*M_PI;
-    while (thetatmp<-M_PI) thetatmp+=2.*M_PI;//then theta in [-pi,pi]
+    // fmod() always ends, also for diverging coordinates
+    if (fabs(thetatmp)>2.*M_PI) thetatmp=fmod(thetatmp, 2.*M_PI);
+    if (thetatmp>M_PI) thetatmp-=2.*M_PI;
+    if (thetatmp<-M_PI) thetatmp+=2.*M_PI;//then theta in [-pi,pi]
     if (thetatmp<0.) {
       thetatmp*=-1.;//then theta in [0,pi]
       coord[6]*=-1.; //theta -> -theta then idem for derivative
       phitmp+=M_PI;//thus, same point x,y,z
     }
-    while (phitmp>2.*M_PI) phitmp-=2.*M_PI;
-    while (phitmp<0.) phitmp+=2.*M_PI;//then phi in [0,2pi]
+    if (fabs(phitmp)>2.*M_PI) phitmp=fmod(phitmp, 2.*M_PI);
+    if (phitmp<0.) phitmp+=2.*M_PI;//then phi in [0,2pi]
     coord[2]=thetatmp;
     coord[3]=phitmp;
     }
-- 
2.43.0


From 3159295bb8983d55f9b67a38543f2c38139d7076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:24 +0000
Subject: [PATCH 93/97] fix: PageThorneDisk spectrum ignored the absorption in
 each channel

In a scenery with several objects, the disk can be seen through absorbing
matter. Its spectrum was multiplied by the transmission at the observing
frequency of the camera instead of that of each spectral channel.
---
 lib/PageThorneDisk.C | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PageThorneDisk.C b/lib/PageThorneDisk.C
index 03c8048..84c5c59 100644
--- a/lib/PageThorneDisk.C
+++ b/lib/PageThorneDisk.C
@@ -292,7 +292,7 @@ void PageThorneDisk::processHitQuantities(Photon* ph, state_t const &coord_ph_hi
       for (size_t ii=0; ii<nbnuobs; ++ii) {
       	double nuem=nuobs[ii]*ggredm1;
       	inc = (emission(nuem, dsem, coord_ph_hit, coord_obj_hit))
-      	  * (ph -> getTransmission(size_t(-1)))
+      	  * (ph -> getTransmission(ii))
       	  * ggred*ggred*ggred; // Inu/nu^3 invariant
 #       ifdef HAVE_UDUNITS
 	if (data -> spectrum_converter_)
-- 
2.43.0


From a551e7a5b62545922a83a5b9872d27fb3d2cf788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:17 +0000
Subject: [PATCH 94/97] fix: gyoto wrote uninitialised memory for pixels
 outside the selected region

Pixels that are not ray-traced are now 0 and their impact coordinates DBL_MAX,
the documented value for missing data (reading them back is safe).
---
 bin/gyoto.C | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/gyoto.C b/bin/gyoto.C
index 226506f..4fe1b97 100644
--- a/bin/gyoto.C
+++ b/bin/gyoto.C
@@ -580,7 +580,7 @@ int main(int argc, char** argv) {
                //nb of frames used for diverse interesting outputs
                //(obs flux, impact time, redshift..)
     size_t nelt=res*res*nbdata;
-    vect = new double[nelt];
+    vect = new double[nelt](); // pixels that are not ray-traced are 0
 
     // First check whether we can open file
     int naxis=3; 
@@ -660,6 +660,7 @@ int main(int argc, char** argv) {
       // Allocate if requested AND not provided
       GYOTO_DEBUG << "allocating data->impactcoords" << endl;
       ::data->impactcoords = impactcoords = new double [res*res*16];
+      for (size_t i=0; i<res*res*16; ++i) impactcoords[i] = DBL_MAX; // no impact
       ipcttime = tobs * GYOTO_C / scenery -> metric() -> unitLength();
     }
     if (quantities & GYOTO_QUANTITY_USER1) {
-- 
2.43.0


From 83b76f8ef46d898c10c8894b229ec953fbdffe9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:17 +0000
Subject: [PATCH 95/97] fix: gyoto --no-sigfpe enabled SIGFPE

The option is documented to not raise SIGFPE upon arithmetic exceptions, it
did the opposite and made sane computations die.
---
 bin/gyoto.C | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/gyoto.C b/bin/gyoto.C
index 4fe1b97..c82d342 100644
--- a/bin/gyoto.C
+++ b/bin/gyoto.C
@@ -390,8 +390,8 @@ int main(int argc, char** argv) {
     switch(opt.index()) {
     case NOSIGFPE:
 #if defined HAVE_FENV_H
-      GYOTO_DEBUG << "enabling SIGFPE delivery\n";
-      feenableexcept(FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID);
+      GYOTO_DEBUG << "disabling SIGFPE delivery\n";
+      fedisableexcept(FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID);
 #endif
       break;
     case BOUNDARIES:
-- 
2.43.0


From 5cab1e70bdea2a52c20d95d6fe376841048861dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:17 +0000
Subject: [PATCH 96/97] fix: gyoto crashed instead of exiting when a thread hit
 an error

exit() runs the global destructors while the other threads are still
ray-tracing: the program died from a segmentation fault instead of
returning its documented error status.
---
 bin/gyoto.C | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bin/gyoto.C b/bin/gyoto.C
index c82d342..dfee316 100644
--- a/bin/gyoto.C
+++ b/bin/gyoto.C
@@ -202,7 +202,10 @@ static std::unordered_map<std::string, std::string> app_codes = {
 void gyotoErrorHandler( const Gyoto::Error e ) {
   cerr << curmsg << e << endl;
   if (debug()) abort(); // to keep stack for debugger
-  exit (curretval);
+  // The error may occur in any thread, possibly in several at the same
+  // time: don't run the global destructors under the others
+  cout.flush();
+  _exit (curretval);
 }
 
 static void gyotoVersion() {
-- 
2.43.0


From 9d25f1adf1cec887cbb86c8e2b41e5719b0413e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:30 +0000
Subject: [PATCH 97/97] fix: Complex astrobj: date and redshift came from
 elements hidden behind an opaque one

When several elements were hit within one integration step, the refined
photon went on beyond the first opaque element and the elements behind it
overwrote the emission date and the redshift.
---
 lib/ComplexAstrobj.C | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/ComplexAstrobj.C b/lib/ComplexAstrobj.C
index cebd2aa..f5b5407 100644
--- a/lib/ComplexAstrobj.C
+++ b/lib/ComplexAstrobj.C
@@ -22,6 +22,9 @@
 #include "GyotoMetric.h"
 #include "GyotoPhoton.h"
 
+// Same as in Photon::hit()
+#define GYOTO_COMPLEX_LIMIT_TRANSMISSION 1e-6
+
 using namespace std;
 using namespace Gyoto;
 using namespace Gyoto::Astrobj;
@@ -172,6 +175,12 @@ int Complex::Impact(Photon* ph, size_t index, Properties *data)
 		 << i << "] (" << elements_[i]->kind() << ")" << endl;
 	  elements_[i]->Impact(&refine, n, data);
 	}
+      // What lies behind an opaque element is not visible: stop here,
+      // as Photon::hit() does, lest it overwrites date, redshift...
+      if (ph -> getTransmissionMax() < GYOTO_COMPLEX_LIMIT_TRANSMISSION
+	  && !(data && data->intensity
+	       && ph -> getTransmission(size_t(-1))
+	       >= GYOTO_COMPLEX_LIMIT_TRANSMISSION)) break;
     }
   }
 
-- 
2.43.0

