From 064cb4747ca2516f9598865bedfa3dda75ac155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 01/53] fix: include the rows next to the boundaries in the
 Stokes residual norms

The norms of the momentum residuals skipped the rows next to the S/N (Vx) and
W/E (Vz) boundaries. A flow whose interior is in balance but which does not
satisfy the imposed tangential velocity was declared converged without any
solve (e.g. homogeneous simple shear in a box not centred on z=0).
---
 MDLIB/StokesRoutines.c | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/MDLIB/StokesRoutines.c b/MDLIB/StokesRoutines.c
index 32df1f2..59317cc 100755
--- a/MDLIB/StokesRoutines.c
+++ b/MDLIB/StokesRoutines.c
@@ -853,13 +853,10 @@ void EvaluateStokesResidualDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spa
 #pragma omp parallel for shared( mesh, Stokes, StokesA ) private( cc ) firstprivate( nx, nzvx ) reduction(+:resx,ndofx)
     for( cc=0; cc<nzvx*nx; cc++) {
         if ( mesh->BCu.type[cc] != 0 && mesh->BCu.type[cc] != 30 && mesh->BCu.type[cc] != 11 && mesh->BCu.type[cc] != 13 && mesh->BCu.type[cc] != -12) {
-            int l   = mesh->lvx[cc];
             mesh->ru[cc]                   = StokesA->F[Stokes->eqn_u[cc]];
             StokesA->F[Stokes->eqn_u[cc]] *= StokesA->d[Stokes->eqn_u[cc]]; // Need to scale the residual here for Defect Correction formulation (F is the RHS)
-            if (l>2 && l<nzvx-2) {
-                ndofx++;
-                resx                          += StokesA->F[Stokes->eqn_u[cc]]*StokesA->F[Stokes->eqn_u[cc]];
-            }
+            ndofx++;
+            resx                          += StokesA->F[Stokes->eqn_u[cc]]*StokesA->F[Stokes->eqn_u[cc]];
         }
     }
     Nmodel->resx = resx;
@@ -867,13 +864,10 @@ void EvaluateStokesResidualDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spa
 #pragma omp parallel for shared( mesh, Stokes, StokesA ) private( cc ) firstprivate( nz, nxvz ) reduction(+:resz,ndofz)
     for( cc=0; cc<nz*nxvz; cc++) {
         if ( mesh->BCv.type[cc] != 0 && mesh->BCv.type[cc] != 30 && mesh->BCv.type[cc] != 11 && mesh->BCv.type[cc] != 13 && mesh->BCv.type[cc] != -12) {
-            int k   = mesh->kvz[cc];
             mesh->rv[cc]                   = StokesA->F[Stokes->eqn_v[cc]];
             StokesA->F[Stokes->eqn_v[cc]] *= StokesA->d[Stokes->eqn_v[cc]]; // Need to scale the residual here for Defect Correction formulation (F is the RHS)
-            if (k>2 && k<nxvz-2) {
-                ndofz++;
-                resz                          += StokesA->F[Stokes->eqn_v[cc]]*StokesA->F[Stokes->eqn_v[cc]];
-            }
+            ndofz++;
+            resz                          += StokesA->F[Stokes->eqn_v[cc]]*StokesA->F[Stokes->eqn_v[cc]];
         }
     }
     Nmodel->resz = resz;
-- 
2.43.0


From 4bbd3c00e7e66c8a608ecdecdb9bfaca28fa0a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:18 +0000
Subject: [PATCH 02/53] fix: let new markers inherit the density of their
 parent

Markers created by reseeding or inflow kept a stale (zero) density, which
enters the reference density of the mass balance when density_variations = 1.
---
 MDLIB/ParticleRoutines.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 1aabd8c..c8a78ed 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -700,6 +700,7 @@ void AssignMarkerProperties (markers* particles, int new_ind, int min_index, par
     particles->strain_lin[new_ind]    = particles->strain_lin[min_index];
     particles->strain_gbs[new_ind]    = particles->strain_gbs[min_index];
     particles->divth[new_ind]         = particles->divth[min_index]; // to be changed
+    particles->rho[new_ind]           = particles->rho[min_index];
     if ( direct_neighbour == 1 ) {
         particles->d[new_ind]             = particles->d[min_index];
         particles->T[new_ind]             = particles->T[min_index];
@@ -771,6 +772,7 @@ void AssignMarkerPropertiesInflow (markers* particles, int new_ind, int min_inde
     particles->strain_lin[new_ind]    = particles->strain_lin[min_index];
     particles->strain_gbs[new_ind]    = particles->strain_gbs[min_index];
     particles->divth[new_ind]         = particles->divth[min_index]; // to be changed
+    particles->rho[new_ind]           = particles->rho[min_index];
     if ( direct_neighbour == 1 ) {
         particles->d[new_ind]             = particles->d[min_index];
         particles->T[new_ind]             = particles->T[min_index];
-- 
2.43.0


From 97137fa7554b1b29eb898058100340b2b0fad87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:55 +0000
Subject: [PATCH 03/53] fix: let grain-boundary sliding contribute to the
 effective viscosity

---
 MDLIB/RheologyDensity.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 25405df..4e30bc5 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -112,6 +112,7 @@ void LocalIterationViscoElastic(LocalIterationMutables mutables, LocalIterationP
     if (params.peierls)     dfdeta += -(Eii_exp) * (params.ST + params.n_exp) / eta_ve;
     if (params.diffusion)   dfdeta += -(Eii_lin) *params.n_lin / eta_ve;
     if (params.dislocation) dfdeta += -(Eii_pwl) *params.n_pwl / eta_ve;
+    if (params.gbs)         dfdeta += -(Eii_gbs) *params.n_gbs / eta_ve;
     if (params.constant)    dfdeta += -params.Eii / params.eta_cst;
     // Update viscosity
     eta_ve -= r_eta_ve / dfdeta;
@@ -285,6 +286,7 @@ void LocalIterationViscoElasticGrainSize(LocalIterationMutables mutables, LocalI
     if (params.peierls)     dfdeta += -(Eii_exp) * (params.ST + params.n_exp) / eta_ve;
     if (params.diffusion)   dfdeta += -(Eii_lin) *params.n_lin / eta_ve;
     if (params.dislocation) dfdeta += -(Eii_pwl) *params.n_pwl / eta_ve;
+    if (params.gbs)         dfdeta += -(Eii_gbs) *params.n_gbs / eta_ve;
     // only activate Newton after a couple of steps
     if (it>1) dfdeta += params.m_lin*Eii_lin*dddeta/d_ve;
     // Update viscosity
@@ -384,7 +386,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
   double Ea_pwl = materials->Qpwl[phase], Va_pwl = materials->Vpwl[phase], n_pwl = materials->npwl[phase], m_pwl = materials->mpwl[phase], r_pwl = materials->rpwl[phase], A_pwl = materials->Apwl[phase], f_pwl = materials->fpwl[phase], a_pwl = materials->apwl[phase], F_pwl = materials->Fpwl[phase], pre_factor = materials->pref_pwl[phase], t_pwl = materials->tpwl[phase];
   double Ea_lin = materials->Qlin[phase], Va_lin = materials->Vlin[phase], n_lin = materials->nlin[phase], m_lin = materials->mlin[phase], r_lin = materials->rlin[phase], A_lin = materials->Alin[phase], f_lin = materials->flin[phase], a_lin = materials->alin[phase], F_lin = materials->Flin[phase];
   double Ea_gbs = materials->Qgbs[phase], Va_gbs = materials->Vgbs[phase], n_gbs = materials->ngbs[phase], m_gbs = materials->mgbs[phase], r_gbs = materials->rgbs[phase], A_gbs = materials->Agbs[phase], f_gbs = materials->fgbs[phase], a_gbs = materials->agbs[phase], F_gbs = materials->Fgbs[phase];
-  double B_pwl = 0.0, B_lin = 0.0, B_exp = 0.0, B_gbs = 0.0, C_pwl = 0.0, C_lin = 0.0, C_exp = 0.0;
+  double B_pwl = 0.0, B_lin = 0.0, B_exp = 0.0, B_gbs = 0.0, C_pwl = 0.0, C_lin = 0.0, C_exp = 0.0, C_gbs = 0.0;
   double Ea_exp = materials->Qexp[phase], S_exp = materials->Sexp[phase], E_exp = materials->Eexp[phase], F_exp = 0.0;
   double gamma = materials->Gexp[phase], ST=0.0, n_exp = materials->nexp[phase];
   double Exx_lin = 0.0, Ezz_lin = 0.0, Exz_lin = 0.0, Exx_exp = 0.0, Ezz_exp = 0.0, Exz_exp = 0.0, Exx_gbs = 0.0, Ezz_gbs = 0.0, Exz_gbs = 0.0, Exx_cst = 0.0, Ezz_cst = 0.0, Exz_cst = 0.0;
@@ -484,6 +486,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
   }
   if ( gbs == 1 ) {
     B_gbs = F_gbs * pow(A_gbs,-1.0/n_gbs) * exp( (Ea_gbs + P*Va_gbs)/R/n_gbs/T ) * pow(d, m_gbs/n_gbs) * pow(f_gbs, -r_gbs/n_gbs) * exp(-a_gbs*phi/n_gbs);
+    C_gbs = pow(2.0*B_gbs, -n_gbs);
   }
   if ( peierls   == 1 ) {
     ST                           = Ea_exp/R/T * 2.0*gamma*(1-gamma);
@@ -607,6 +610,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
           .eta_cst     = eta_cst,
           .gbs         = gbs,
           .d           = d,
+          .C_gbs       = C_gbs,
           .n_gbs       = n_gbs,
           .eta_up      = eta_up,
           .eta_lo      = eta_lo};
@@ -754,6 +758,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
     if (peierls    == 1)  inv_eta_diss += (1.0/eta_exp);
     if (dislocation== 1)  inv_eta_diss += (1.0/eta_pwl);
     if (diffusion  == 1)  inv_eta_diss += (1.0/eta_lin);
+    if (gbs        == 1)  inv_eta_diss += (1.0/eta_gbs);
     if (constant   == 1)  inv_eta_diss += (1.0/eta_cst);
     if (is_pl      == 1)  inv_eta_diss += (1.0/eta_pl ); 
     eta  = 1.0/(inv_eta_diss);
-- 
2.43.0


From 41aee70a0c26c71228955bffe3aa6c0abfbb1bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:58 +0000
Subject: [PATCH 04/53] fix: rotate the marker stresses with the vorticity of
 the flow

The vorticity was interpolated from a zero marker array onto the grid
instead of from the grid to the markers, so no rotation was ever applied.
---
 MDLIB/RheologyParticles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 34790b1..8a981be 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -1623,7 +1623,7 @@ firstprivate( model )
         if (model->elastic==1) { 
 
             double *wxzm   = DoodzCalloc(particles->Nb_part, sizeof(DoodzFP));
-            P2Mastah( model, *particles, wxzm,     mesh, mesh->wxz,   mesh->BCg.type,  1, 0, interp, vert, model->interp_stencil);
+            Interp_Grid2P( *particles, wxzm, mesh, mesh->wxz, mesh->xg_coord, mesh->zg_coord, Nx, Nz, mesh->BCg.type );
 
 #pragma omp parallel for shared( particles, wxzm ) firstprivate( dt, model ) private( k, angle, txx, tzz, txz )
             for ( k=0; k<particles->Nb_part; k++ ) {
-- 
2.43.0


From 4543ea5e0e8238d82b31714e9d1a2f0771203327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:03 +0000
Subject: [PATCH 05/53] fix: analytical stress rotation turns with the flow, as
 the Jaumann rate does

---
 MDLIB/RheologyParticles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 8a981be..c3759b2 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -1637,7 +1637,7 @@ firstprivate( model )
                         particles->sxz[k]  -=  dt*(tzz-txx)*wxzm[k];
                     }
                     if (model->stress_rotation==2) { // Analytical rotation
-                        double angle = dt*wxzm[k];
+                        double angle = -dt*wxzm[k]; // the formulas below rotate clockwise
                         particles->sxxd[k] =  ( txx*cos(angle) + txz*sin(angle))*cos(angle) + ( txz*cos(angle) + tzz*sin(angle))*sin(angle);
                         particles->szzd[k] = -(-txx*sin(angle) + txz*cos(angle))*sin(angle) + (-txz*sin(angle) + tzz*cos(angle))*cos(angle);
                         particles->sxz[k]  = -( txx*cos(angle) + txz*sin(angle))*sin(angle) + ( txz*cos(angle) + tzz*sin(angle))*cos(angle);
-- 
2.43.0


From 760fad6d74525f6f625db8b3c6cec7b18863cf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:05 +0000
Subject: [PATCH 06/53] fix: leave markers outside the box out of the
 transmutation

Their phase is -1, which indexed the phase tables out of bounds and could
bring them back to life.
---
 MDLIB/ParticleRoutines.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index c8a78ed..d0176e5 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -3574,6 +3574,7 @@ void TransmutateMarkers(markers *particles, mat_prop *materials, double scaling_
 #pragma omp parallel for reduction(+:transmutated_particles) shared(particles)
   for (int k=0; k<particles->Nb_part-1; k++) {
     const int phase = particles->phase[k];
+    if (phase == -1) continue; // out of the box
     const double temperature = particles->T[k];
     const double transmutation = materials->transmutation[phase];
 
-- 
2.43.0


From e572494c4f08a8318eec50aa825668caab415a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:10 +0000
Subject: [PATCH 07/53] fix: transmutate the last marker too

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index d0176e5..68acc18 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -3572,7 +3572,7 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
 void TransmutateMarkers(markers *particles, mat_prop *materials, double scaling_T) {
   int transmutated_particles = 0;
 #pragma omp parallel for reduction(+:transmutated_particles) shared(particles)
-  for (int k=0; k<particles->Nb_part-1; k++) {
+  for (int k=0; k<particles->Nb_part; k++) {
     const int phase = particles->phase[k];
     if (phase == -1) continue; // out of the box
     const double temperature = particles->T[k];
-- 
2.43.0


From 66c88ccba39f61514dda85dcc958807e92dcda8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:36 +0000
Subject: [PATCH 08/53] fix: start linear strain softening at plss

The ramp was measured from zero strain, so strength jumped at plss and
overshot its final value before plse.
---
 MDLIB/RheologyDensity.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 4e30bc5..859152e 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1167,9 +1167,9 @@ void Softening(int c0, double** phase_perc, double* dil_arr, double* fric_arr, d
       }
       // If we are in the softening strain range
       if (strain_acc >= materials.pls_start[p] && strain_acc < materials.pls_end[p] ) {
-        if (materials.phi_soft[p] == 1) fric = materials.phi[p] + (materials.phi_end[p] - materials.phi[p]) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
-        if (materials.psi_soft[p] == 1) dil  = materials.psi[p] + (materials.psi_end[p] - materials.psi[p]) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
-        if (materials.coh_soft[p] == 1) C    = materials.C[p]   + (materials.C_end[p]   - materials.C[p]  ) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
+        if (materials.phi_soft[p] == 1) fric = materials.phi[p] + (materials.phi_end[p] - materials.phi[p]) / (materials.pls_end[p] - materials.pls_start[p]) *  (strain_acc - materials.pls_start[p]);
+        if (materials.psi_soft[p] == 1) dil  = materials.psi[p] + (materials.psi_end[p] - materials.psi[p]) / (materials.pls_end[p] - materials.pls_start[p]) *  (strain_acc - materials.pls_start[p]);
+        if (materials.coh_soft[p] == 1) C    = materials.C[p]   + (materials.C_end[p]   - materials.C[p]  ) / (materials.pls_end[p] - materials.pls_start[p]) *  (strain_acc - materials.pls_start[p]);
       }
 
     }
-- 
2.43.0


From d50ce177c41fc1723d97fe64a607fed16a474952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:41 +0000
Subject: [PATCH 09/53] fix: return mapping yields at the dilated pressure

The yield stress was accumulated over the iterations and never saw the
pressure raised by dilation, so with psi > 0 the final stress was off the
yield surface.
---
 MDLIB/RheologyDensity.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 859152e..392d814 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -509,6 +509,8 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
     if (materials->Slim[phase] < Tyield) {
       C          = materials->Slim[phase];
       Tyield     = materials->Slim[phase];
+      cos_fric   = 1.0;
+      sin_fric   = 0.0;
     }
   }
 
@@ -650,7 +652,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
         divp    = -gdot*dQdP;
         Pc      = P + K*dt*divp; // P0 - k*dt*(div-divp) = P + k*dt*divp
         eta_vp  = eta_vp0 * pow(fabs(gdot), 1.0/n_vp - 1.0);
-        Tyield  = Tyield + gdot*eta_vp;
+        Tyield  = C*cos_fric + Pc*sin_fric + gdot*eta_vp;
         Tiic    = Tii - eta_ve*gdot;
         F_trial = Tiic - Tyield;
 
-- 
2.43.0


From 5f925025ff3de8aceb8080abe74afc0a937fdd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:54 +0000
Subject: [PATCH 10/53] fix: initial lithostatic pressure includes the top row
 of cells

The cumulative sum skipped the uppermost row, so without a free surface the
pressure was too low by the weight of one cell and negative at the top.
---
 MDLIB/GridRoutines.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/MDLIB/GridRoutines.c b/MDLIB/GridRoutines.c
index 70996b9..611db1f 100755
--- a/MDLIB/GridRoutines.c
+++ b/MDLIB/GridRoutines.c
@@ -430,7 +430,7 @@ void ComputeLithostaticPressure( grid *mesh, params *model, double RHO_REF, scal
     Initialise1DArrayDouble( mesh->p_lith,  (mesh->Nx-1)*(mesh->Nz-1), 0.0 );
     
     // Cell center arrays
-    for( l=ncz-2; l>=0; l--) {
+    for( l=ncz-1; l>=0; l--) {
         for( k=0; k<ncx; k++) {
 
             // Initialise vertices variables
@@ -444,7 +444,8 @@ void ComputeLithostaticPressure( grid *mesh, params *model, double RHO_REF, scal
 
             // Initialise pressure variables : Compute lithostatic pressure
             if ( mesh->BCp.type[c] != 30 && mesh->BCp.type[c] != 31 ) { // First row (surface)
-                mesh->p_lith[c]  = mesh->p_lith[c+ncx] -  model->gz * mesh->dz * rho_eff;
+                const double p_above = (l<ncz-1) ? mesh->p_lith[c+ncx] : 0.0;
+                mesh->p_lith[c]  = p_above -  model->gz * mesh->dz * rho_eff;
 
             }
         }
-- 
2.43.0


From a4baab785a07f891ac8abe2f11c3688dd61282f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:13 +0000
Subject: [PATCH 11/53] fix: solidus formulae of melt models 11, 40 and 41

A comma operator dropped the 20200/(P+54)^2 term of model 11, model 41 divided
by P^2 instead of multiplying, and 0.000005014 is 0.000005104 with two digits
exchanged (the two branches of the mantle solidus then meet at 10 GPa).
---
 MDLIB/MeltingRoutines.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/MeltingRoutines.c b/MDLIB/MeltingRoutines.c
index 65aff91..5303b93 100644
--- a/MDLIB/MeltingRoutines.c
+++ b/MDLIB/MeltingRoutines.c
@@ -79,7 +79,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
                 Ts = 831. + 0.06*P_MPa;
             }
             else {
-                Ts = 889. - 17900/(P_MPa + 54) + 20,200/pow((P_MPa + 54),2);
+                Ts = 889. - 17900/(P_MPa + 54) + 20200/pow((P_MPa + 54),2);
             }
             Tl = 1262 + 0.09*P_MPa;
             Ql = 300000.;
@@ -91,7 +91,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
                 Ts = 2212 + 0.030819*(P_MPa - 10000); //en K
             }
             else {
-                Ts = 1394 + 0.132899*P_MPa - 0.000005014*pow(P_MPa,2.0); // en K
+                Ts = 1394 + 0.132899*P_MPa - 0.000005104*pow(P_MPa,2.0); // en K
             }
             Tl = 2073 + 0.114*P_MPa; // en K
             Ql = 400000.;
@@ -103,7 +103,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
                 Ts = 2212. + 0.030819*(P_MPa-10000.);
             }
             else {
-                Ts = 1394 + 0.132899*P_MPa - 0.000005014/pow(P_MPa,2);
+                Ts = 1394 + 0.132899*P_MPa - 0.000005104*pow(P_MPa,2);
             }
             Tl = 2073 + 0.114*P_MPa;
             Ql = 300000.;
-- 
2.43.0


From 369c9c801ce9f0b388b8a4936b16da66d52169e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:18 +0000
Subject: [PATCH 12/53] fix: melt fraction no longer depends on the temperature
 scale

The exponent multiplies a temperature in K, so its coefficient is in 1/K.
---
 MDLIB/MeltingRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/MeltingRoutines.c b/MDLIB/MeltingRoutines.c
index 5303b93..445ee15 100644
--- a/MDLIB/MeltingRoutines.c
+++ b/MDLIB/MeltingRoutines.c
@@ -49,7 +49,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
     const double P_MPa = P/1e6*scaling->S; // convert P to MPa
     const double T_K   = T*scaling->T;     // convert T to K
     double Ts = T_K, Tl = T_K, Ql;
-    double alpha = 1e-7/(1/scaling->T); // very small number -> linear melting
+    double alpha = 1e-7; // 1/K, very small number -> linear melting
 
     if (melt_model>0 && T>1e-13 && P>1e-13) {
 
-- 
2.43.0


From a4db025f26129ceee4f940c15ff850f659816d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:57 +0000
Subject: [PATCH 13/53] fix: density tables no longer read before their first
 entry

At exactly the lower bound of T or P the index of the lower neighbour was -1.
---
 MDLIB/RheologyDensity.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 392d814..f0fb2d8 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1610,6 +1610,7 @@ double ItpRho1D( double Pgrid, params* model, int k ) {
   // Find index of minimum/west pressure node
   double dstP = Pgrid - model->PD1Dmin[k];
   int    iP   = ceil( dstP/dP ) - 1;
+  if (iP<0) iP = 0; // exactly at the lower bound
   // Calculate weighting coefficients for linear interpolant
   double PW   = model->PD1Dmin[k] + iP*dP;
   double wW   = 1.0 - (Pgrid - PW)/dP;
@@ -1638,9 +1639,11 @@ double Interpolate2Ddata( double Tgrid, double Pgrid, double Tmin, double Tmax,
   // Find index of minimum/west temperature node
   dstT  = Tgrid - Tmin ;
   iT    = ceil( dstT/dT ) - 1;
+  if (iT<0) iT = 0; // exactly at the lower bound
   // Find index of minimum/west pressure node
   dstP  = Pgrid - Pmin;
   iP    = ceil( dstP/dP ) - 1;
+  if (iP<0) iP = 0; // exactly at the lower bound
   // Calculate weights for bilinear interpolant
   TW    = Tmin + iT*dT;
   PW    = Pmin + iP*dP;
-- 
2.43.0


From dd345e4984ddd4f9cf9b34f13c76c8b99916f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:33 +0000
Subject: [PATCH 14/53] fix: density uses the composition of the markers from
 the first step

The grid composition was zero (first step) or that of the previous step, before
advection, when density was evaluated; it was also not yet known when the
initial pressure was computed.
---
 MDLIB/Main_DOODZ.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 43d9c60..0255575 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -223,6 +223,13 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         MinMaxArray( mesh.v_in, input.scaling.V, (mesh.Nx+1)*(mesh.Nz),   "Vz. grid" );
         MinMaxArray( mesh.p_in, input.scaling.S, (mesh.Nx-1)*(mesh.Nz-1), "       P" );
 
+        printf("*************************************\n");
+        printf("****** Initialize composition *******\n");
+        printf("*************************************\n");
+        P2Mastah( &input.model, particles, particles.X,     &mesh, mesh.X0_n , mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
+        P2Mastah( &input.model, particles, particles.X,     &mesh, mesh.X0_s , mesh.BCg.type,  1, 0, interp, vert, input.model.interp_stencil);
+        ArrayEqualArray( mesh.X_n, mesh.X0_n,  (mesh.Nx-1)*(mesh.Nz-1) );
+
         printf("*************************************\n");
         printf("****** Initialize temperature *******\n");
         printf("*************************************\n");
@@ -304,13 +311,6 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         if (input.model.free_surface == 1 ) SurfaceDensityCorrection( &mesh, input.model, topo, input.scaling  );
         Interp_Grid2P_centroids2( particles, particles.rho,    &mesh, mesh.rho_n, mesh.xvz_coord,  mesh.zvx_coord,  mesh.Nx-1, mesh.Nz-1, mesh.BCp.type, &input.model );
 
-        printf("*************************************\n");
-        printf("****** Initialize composition *******\n");
-        printf("*************************************\n");
-        P2Mastah( &input.model, particles, particles.X,     &mesh, mesh.X0_n , mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
-        P2Mastah( &input.model, particles, particles.X,     &mesh, mesh.X0_s , mesh.BCg.type,  1, 0, interp, vert, input.model.interp_stencil);
-        ArrayEqualArray( mesh.X_n, mesh.X0_n,  (mesh.Nx-1)*(mesh.Nz-1) );
-
         if (input.model.anisotropy == 1 ) {
             InitialiseDirectorVector ( &mesh, &particles, &input.model, &input.materials, input.scaling.L);
             P2Mastah( &input.model, particles, NULL, &mesh, mesh.d1_n,    mesh.BCp.type, -1, 0, interp, cent, input.model.interp_stencil);
@@ -527,6 +527,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
 
         P2Mastah( &input.model, particles, particles.X,     &mesh, mesh.X0_n , mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
         P2Mastah( &input.model, particles, particles.X,     &mesh, mesh.X0_s , mesh.BCg.type,  1, 0, interp, vert, input.model.interp_stencil);
+        ArrayEqualArray( mesh.X_n, mesh.X0_n, (mesh.Nx-1)*(mesh.Nz-1) ); // density needs the current composition
 
         P2Mastah( &input.model, particles, particles.noise, &mesh, mesh.noise_s, mesh.BCg.type,  1, 0, interp, vert, input.model.interp_stencil);
         P2Mastah( &input.model, particles, particles.noise, &mesh, mesh.noise_n, mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
-- 
2.43.0


From 8228ab88538bf8ded3bd471d8edc5c236d618b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:38 +0000
Subject: [PATCH 15/53] fix: porosity set by the user is kept when melting is
 off

The grid melt fraction stayed zero and the markers were updated with the
difference, which erased the porosity given by SetPorosity after one step and
hid it from the density.
---
 MDLIB/Main_DOODZ.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 0255575..02f26dd 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -497,6 +497,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
 
         // Interpolate Melt fraction
         P2Mastah( &input.model, particles, particles.phi,   &mesh, mesh.phi0_n , mesh.BCp.type,  1, 0, interp, cent, input.model.interp_stencil);
+        if (input.model.melting == 0 ) ArrayEqualArray( mesh.phi_n, mesh.phi0_n, (mesh.Nx-1)*(mesh.Nz-1) );
 
         // Elasticity - interpolate advected/rotated stresses
         if  (input.model.elastic == 1 ) {
@@ -927,7 +928,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
         }
 
         // Update phi on the particles
-        UpdateParticlePhi( &mesh, input.scaling, input.model, &particles, &input.materials );
+        if (input.model.melting == 1 ) UpdateParticlePhi( &mesh, input.scaling, input.model, &particles, &input.materials );
 
         //------------------------------------------------------------------------------------------------------------------------------//
 
-- 
2.43.0


From 69a77ccf9de4d0410dc0d57d90d859e751d3c417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:20 +0000
Subject: [PATCH 16/53] fix: heat flux through the bottom is divided by the
 cell height

It was divided by the cell width, so with non-square cells the wrong amount of
heat entered the model.
---
 MDLIB/ThermalRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ThermalRoutines.c b/MDLIB/ThermalRoutines.c
index 71bf0fd..3f886b7 100755
--- a/MDLIB/ThermalRoutines.c
+++ b/MDLIB/ThermalRoutines.c
@@ -298,7 +298,7 @@ void EnergyDirectSolve( grid *mesh, params model, double *rhs_t, markers *partic
 
                         // Bottom flux
                         if (l==0 && mesh->BCT_exp.type[c0-(ncx+2)]==0) { // SOUTH
-                            bbc[eqn] += -1.0/mesh->dx * mesh->BCT_exp.val[c0-(ncx+2)];
+                            bbc[eqn] += -1.0/mesh->dz * mesh->BCT_exp.val[c0-(ncx+2)];
                         }
 
                         if (k==0 && mesh->BCT_exp.type[c0-1]==1) {  // WEST
-- 
2.43.0


From a0897b4e6f6fdb0dd40dacde6eabe43abc507534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:27 +0000
Subject: [PATCH 17/53] fix: conductivities on the periodic boundary are the
 same at both sides

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 68acc18..ce9bafa 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -2305,7 +2305,7 @@ void P2Mastah ( params *model, markers particles, DoodzFP* mat_prop, grid *mesh,
     }
 
     // Make periodic
-    if (centroid==0 && prop==0 && model->periodic_x==1) {
+    if ((centroid==0 || centroid==-1) && prop==0 && model->periodic_x==1) { // vertices and Vx nodes lie on the periodic boundary
         double av;
         for( int l=0; l<Nz; l++) {
             int c1 = l*Nx + Nx-1;
-- 
2.43.0


From a8932882af18d78d473a29a5fd79077eb559568b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:40 +0000
Subject: [PATCH 18/53] fix: temperature change for the time step is read
 within the grid

---
 MDLIB/AdvectionRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/AdvectionRoutines.c b/MDLIB/AdvectionRoutines.c
index 9651b58..b0c2ee3 100755
--- a/MDLIB/AdvectionRoutines.c
+++ b/MDLIB/AdvectionRoutines.c
@@ -588,8 +588,8 @@ void EvaluateCourantCriterion( double* Vx, double* Vz, params *model, scale scal
     }
 
     if (model->thermal==1) {
-        for (k=0; k<model->Nx+1; k++) {
-            for (l=0; l<model->Nz; l++) {
+        for (k=0; k<Ncx; k++) {
+            for (l=0; l<model->Nz-1; l++) {
                 c  = k   + l*Ncx;
                 dT = mesh->T[c] - mesh->T0_n[c];
                 if (fabs(dT) > dTmax) dTmax = dT;
-- 
2.43.0


From fcd7a1279fa8cb804aed3e8e6dc1368d2d27636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:44 +0000
Subject: [PATCH 19/53] fix: marker counts are freed after reseeding has used
 them

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index ce9bafa..53bd3b3 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -2454,7 +2454,6 @@ void CountPartCell( markers* particles, grid *mesh, params model, surface topo,
                 part_count[kc] += 1;
             }
         }
-        DoodzFree(part_count);
 
         // Identify cells that need a new particle
         int nb_new_parts = 0, new_ind;
@@ -2575,6 +2574,7 @@ void CountPartCell( markers* particles, grid *mesh, params model, surface topo,
             DoodzFree(part_cell[kc]);
         }
         DoodzFree(part_cell);
+        DoodzFree(part_count);
     }
     // Infos
     MinMaxArrayI(particles->phase,          1, particles->Nb_part, "phase       ");
-- 
2.43.0


From 34723237e72e2bc1f009099730d7ffd0c9d94811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:47 +0000
Subject: [PATCH 20/53] fix: an unset reaction time does not make the time step
 zero

---
 MDLIB/AdvectionRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/AdvectionRoutines.c b/MDLIB/AdvectionRoutines.c
index b0c2ee3..f293df1 100755
--- a/MDLIB/AdvectionRoutines.c
+++ b/MDLIB/AdvectionRoutines.c
@@ -645,7 +645,7 @@ void EvaluateCourantCriterion( double* Vx, double* Vz, params *model, scale scal
         }
         
         // If timestep is adaptive: Chemical limitation
-        if ( model->constant_dt != 1 && model->chemical_diffusion == 1 && dt_reac<model->dt ) {
+        if ( model->constant_dt != 1 && model->chemical_diffusion == 1 && dt_reac>0.0 && dt_reac<model->dt ) {
                 printf("EvaluateCourantCriterion: --> min_tau_kin = %2.2e s \n", min_tau_kin*scaling.t);
                 printf("Timestep limited by Chemical Reaction\n");
                 model->dt = dt_reac;
-- 
2.43.0


From 9f68f8879214e6775730cbf4a365572988de33e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:07 +0000
Subject: [PATCH 21/53] fix: surface density correction stays within the grid
 when the surface reaches the top

---
 MDLIB/FreeSurface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index d5593da..c319b5b 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -854,7 +854,7 @@ void SurfaceDensityCorrection( grid *mesh, params model, surface topo, scale sca
             c1 = i + j*(ncx);
             mesh->FreeSurfW_n[c1] = 1.0;
             
-            if (mesh->BCp.type[c1] == -1 && mesh->BCp.type[c1+ncx] == 31 ) {
+            if ( j<ncz-1 && mesh->BCp.type[c1] == -1 && mesh->BCp.type[c1+ncx] == 31 ) {
                 h  = topo.b[i] + topo.a[i]*mesh->xc_coord[i];
                 h0               = fabs(h - mesh->zc_coord[j]);
                 // double rho_ini = mesh->rho_n[c1];
@@ -877,7 +877,7 @@ void SurfaceDensityCorrection( grid *mesh, params model, surface topo, scale sca
             c1 = i + j*(nx);
             mesh->FreeSurfW_s[c1] = 1.0;
 
-            if (mesh->BCg.type[c1] == -1 && mesh->BCg.type[c1+nx] == 30) {
+            if ( j<nz-1 && mesh->BCg.type[c1] == -1 && mesh->BCg.type[c1+nx] == 30) {
                 if (i==0)    h  = topo.b[i] + topo.a[i]*mesh->xc_coord[i];
                 if (i==nx-1) h  = topo.b[nx-2] + topo.a[nx-2]*mesh->xc_coord[nx-2];
                 if (i>0 && i<nx-1) {
-- 
2.43.0


From 47b3e405e3a56268e5bd3cc33aa102d7b0bb8a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:48 +0000
Subject: [PATCH 22/53] fix: the limit on the number of markers is the size of
 their arrays

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 53bd3b3..43bab86 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -3413,7 +3413,7 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
                     nb_new[ith]++;
                 }
                 // Security check
-                if (k>particles->Nb_part_max) {
+                if (k>=particles->Nb_part_max) {
                     printf ("Maximum number of particles exceeded!\n Exiting!\n");
                     exit(1);
                 }
-- 
2.43.0


From 9b9aee8e272b46ae44ff6fbec3482e29135854e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:12 +0000
Subject: [PATCH 23/53] fix: time series survive a restart with a different
 number of steps

---
 MDLIB/InputOutput.c | 60 ++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 80d518f..96f1e7e 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -318,21 +318,21 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
         fread( mesh->nb_part_vert, s1,  Nx *Nz ,   file );
 
         // Timeseries
-        fread( mesh->Time_time      , s3,   model->Nt+1 ,   file );
-        fread( mesh->Short_time     , s3,   model->Nt+1 ,   file );
-        fread( mesh->Work_time      , s3,   model->Nt+1 ,   file );
-        fread( mesh->Uthermal_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->Uelastic_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->T_mean_time    , s3,   model->Nt+1 ,   file );
-        fread( mesh->P_mean_time    , s3,   model->Nt+1 ,   file );
-        fread( mesh->sxxd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->szzd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->sxz_mean_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->Tii_mean_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->exxd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->ezzd_mean_time , s3,   model->Nt+1 ,   file );
-        fread( mesh->exz_mean_time  , s3,   model->Nt+1 ,   file );
-        fread( mesh->Eii_mean_time  , s3,   model->Nt+1 ,   file );
+        fread( mesh->Time_time      , s3,   model->step+1 ,   file );
+        fread( mesh->Short_time     , s3,   model->step+1 ,   file );
+        fread( mesh->Work_time      , s3,   model->step+1 ,   file );
+        fread( mesh->Uthermal_time  , s3,   model->step+1 ,   file );
+        fread( mesh->Uelastic_time  , s3,   model->step+1 ,   file );
+        fread( mesh->T_mean_time    , s3,   model->step+1 ,   file );
+        fread( mesh->P_mean_time    , s3,   model->step+1 ,   file );
+        fread( mesh->sxxd_mean_time , s3,   model->step+1 ,   file );
+        fread( mesh->szzd_mean_time , s3,   model->step+1 ,   file );
+        fread( mesh->sxz_mean_time  , s3,   model->step+1 ,   file );
+        fread( mesh->Tii_mean_time  , s3,   model->step+1 ,   file );
+        fread( mesh->exxd_mean_time , s3,   model->step+1 ,   file );
+        fread( mesh->ezzd_mean_time , s3,   model->step+1 ,   file );
+        fread( mesh->exz_mean_time  , s3,   model->step+1 ,   file );
+        fread( mesh->Eii_mean_time  , s3,   model->step+1 ,   file );
 
 
     fclose(file);
@@ -827,21 +827,21 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
     fwrite( mesh->nb_part_vert, s1,  Nx *Nz ,   file );
 
     // Timeseries
-    fwrite( mesh->Time_time      , s3,   model.Nt+1 ,   file );
-    fwrite( mesh->Short_time     , s3,   model.Nt+1 ,   file );
-    fwrite( mesh->Work_time      , s3,   model.Nt+1 ,   file );
-    fwrite( mesh->Uthermal_time  , s3,   model.Nt+1 ,   file );
-    fwrite( mesh->Uelastic_time  , s3,   model.Nt+1 ,   file );
-    fwrite( mesh->T_mean_time    , s3,   model.Nt+1 ,   file );
-    fwrite( mesh->P_mean_time    , s3,   model.Nt+1 ,   file );
-    fwrite( mesh->sxxd_mean_time , s3,   model.Nt+1 ,   file );
-    fwrite( mesh->szzd_mean_time , s3,   model.Nt+1 ,   file );
-    fwrite( mesh->sxz_mean_time  , s3,   model.Nt+1 ,   file );
-    fwrite( mesh->Tii_mean_time  , s3,   model.Nt+1 ,   file );
-    fwrite( mesh->exxd_mean_time , s3,   model.Nt+1 ,   file );
-    fwrite( mesh->ezzd_mean_time , s3,   model.Nt+1 ,   file );
-    fwrite( mesh->exz_mean_time  , s3,   model.Nt+1 ,   file );
-    fwrite( mesh->Eii_mean_time  , s3,   model.Nt+1 ,   file );
+    fwrite( mesh->Time_time      , s3,   model.step+1 ,   file );
+    fwrite( mesh->Short_time     , s3,   model.step+1 ,   file );
+    fwrite( mesh->Work_time      , s3,   model.step+1 ,   file );
+    fwrite( mesh->Uthermal_time  , s3,   model.step+1 ,   file );
+    fwrite( mesh->Uelastic_time  , s3,   model.step+1 ,   file );
+    fwrite( mesh->T_mean_time    , s3,   model.step+1 ,   file );
+    fwrite( mesh->P_mean_time    , s3,   model.step+1 ,   file );
+    fwrite( mesh->sxxd_mean_time , s3,   model.step+1 ,   file );
+    fwrite( mesh->szzd_mean_time , s3,   model.step+1 ,   file );
+    fwrite( mesh->sxz_mean_time  , s3,   model.step+1 ,   file );
+    fwrite( mesh->Tii_mean_time  , s3,   model.step+1 ,   file );
+    fwrite( mesh->exxd_mean_time , s3,   model.step+1 ,   file );
+    fwrite( mesh->ezzd_mean_time , s3,   model.step+1 ,   file );
+    fwrite( mesh->exz_mean_time  , s3,   model.step+1 ,   file );
+    fwrite( mesh->Eii_mean_time  , s3,   model.step+1 ,   file );
 
     fclose(file);
     free(name);
-- 
2.43.0


From f933ecdc0d1896d5fd36b3fea96f5c36574b4744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:59 +0000
Subject: [PATCH 24/53] fix: compressibility and expansivity follow the markers
 without elasticity, also after a restart

---
 MDLIB/Main_DOODZ.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 02f26dd..0a4e7a7 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -510,11 +510,11 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             InterpCentroidsToVerticesDouble( mesh.sxxd0, mesh.sxxd0_s, &mesh, &input.model );
             InterpCentroidsToVerticesDouble( mesh.szzd0, mesh.szzd0_s, &mesh, &input.model );
             InterpVerticesToCentroidsDouble( mesh.sxz0_n,  mesh.sxz0,  &mesh, &input.model );
-
-            // Interpolate shear modulus
-            ShearModCompExpGrid( &mesh, &input.materials, &input.model, input.scaling );
         }
 
+        // Interpolate shear modulus, compressibility and thermal expansivity
+        ShearModCompExpGrid( &mesh, &input.materials, &input.model, input.scaling );
+
         // Director vector
         if (input.model.anisotropy == 1 ) {
             P2Mastah( &input.model, particles, NULL, &mesh, mesh.d1_n,    mesh.BCp.type, -1, 0, interp, cent, input.model.interp_stencil);
-- 
2.43.0


From fe9e618396bb2b083290cf937f7dcc664f3ce936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:08 +0000
Subject: [PATCH 25/53] fix: recycled surface markers are active again

---
 MDLIB/FreeSurface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index c319b5b..b3dd724 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -247,6 +247,7 @@ void RemeshMarkerChain( markers *topo_chain, surface *topo, params model, scale
                     if (  ii>=nout) recycle=0;
                     // Local x coordinate:  1.0*dx/4.0/res
                     topo_chain->x[NewInd] = model.xmin + k*dx/res + dx/4.0/res;
+                    topo_chain->phase[NewInd] = 0; // active, also if recycled
                     // Index of the coarse grid column
                     distance        = (topo_chain->x[NewInd]-model.xmin-dx/2.0);
                     in              = ceil((distance/dx)+0.5) - 1;
@@ -266,6 +267,7 @@ void RemeshMarkerChain( markers *topo_chain, surface *topo, params model, scale
                     if (  ii>=nout) recycle=0;
                     // Local x coordinate:  3.0*dx/4.0/res
                     topo_chain->x[NewInd] = model.xmin + k*dx/res + 3.0*dx/4.0/res;
+                    topo_chain->phase[NewInd] = 0; // active, also if recycled
                     // Index of the coarse grid column
                     distance        = (topo_chain->x[NewInd]-model.xmin-dx/2.0);
                     in              = ceil((distance/dx)+0.5) - 1;
-- 
2.43.0


From 1f6965e9213f8122e9fa59371988a1b0593304f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:01 +0000
Subject: [PATCH 26/53] fix: restart loses the thermal parameters of nodes
 above the free surface

Nodes without markers keep their previous conductivity, which enters the mean
conductivity of the surface cells; it was zero after a restart.
---
 MDLIB/InputOutput.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 96f1e7e..37c197a 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -317,6 +317,12 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
         fread( mesh->nb_part_cell, s1,  Ncx*Ncz,   file );
         fread( mesh->nb_part_vert, s1,  Nx *Nz ,   file );
 
+        // Nodes above the free surface receive no marker contribution: their thermal parameters remain those of the last step they were below it
+        fread( mesh->kx, s3, Nx*(Nz+1), file );
+        fread( mesh->kz, s3, (Nx+1)*Nz, file );
+        fread( mesh->Cp, s3, Ncx*Ncz, file );
+        fread( mesh->Qr, s3, Ncx*Ncz, file );
+
         // Timeseries
         fread( mesh->Time_time      , s3,   model->step+1 ,   file );
         fread( mesh->Short_time     , s3,   model->step+1 ,   file );
@@ -826,6 +832,12 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
     fwrite( mesh->nb_part_cell, s1,  Ncx*Ncz,   file );
     fwrite( mesh->nb_part_vert, s1,  Nx *Nz ,   file );
 
+    // Nodes above the free surface receive no marker contribution: their thermal parameters remain those of the last step they were below it
+    fwrite( mesh->kx, s3, Nx*(Nz+1), file );
+    fwrite( mesh->kz, s3, (Nx+1)*Nz, file );
+    fwrite( mesh->Cp, s3, Ncx*Ncz, file );
+    fwrite( mesh->Qr, s3, Ncx*Ncz, file );
+
     // Timeseries
     fwrite( mesh->Time_time      , s3,   model.step+1 ,   file );
     fwrite( mesh->Short_time     , s3,   model.step+1 ,   file );
-- 
2.43.0


From 0b9340cb047820c81d2f93741d9c5c098099627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:58 +0000
Subject: [PATCH 27/53] fix: chemical diffusion treats the air above a free
 surface as rock

The cell tags of the composition field were never set, so the composition of
the surface cells was exchanged with cells without markers. Also give the lower
cutoff of the surface diffusivity a value (it was read uninitialised).
---
 MDLIB/ChemicalRoutines.c | 7 +++++--
 MDLIB/FreeSurface.c      | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/MDLIB/ChemicalRoutines.c b/MDLIB/ChemicalRoutines.c
index cdd0b04..988b705 100755
--- a/MDLIB/ChemicalRoutines.c
+++ b/MDLIB/ChemicalRoutines.c
@@ -89,7 +89,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
     double Pr,  Pr_phase;
     double dPr, dPr_phase;
     double ks;//   = k_chem;
-    double mink;// = k_chem;
+    double mink, maxk;
     
     // Pre-calculate FD coefs
     double one_dx_dx = 1.0/mesh->dx/mesh->dx;
@@ -108,6 +108,9 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
     cholmod_factor *Afact;
     cs_di *At;
     
+    // Get minimum value of k - safety: will be used a a lower limit if interpolated surface diffusivity is too low
+    MinMaxArrayVal( mesh->kc_x, nx*(nz+1), &mink, &maxk );
+
     // Number of equations
     eqn_t = DoodzCalloc(ncx*ncz, sizeof(int));
     neq   = EvalNumEqChem( mesh, eqn_t );
@@ -145,7 +148,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
             b[eqn]  = transient * mesh->X_n[c2]/ dt;
         }
     }
-    MinMaxArray(b, scaling.E, ncz*ncx, "b chemical_diffusion");
+    MinMaxArray(b, scaling.E, neq, "b chemical_diffusion");
     
     //----------------------------------------------------//
 
diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index b3dd724..7bcae2e 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -507,6 +507,7 @@ void CellFlagging( grid *mesh, params model, surface topo, scale scaling ) {
     
     Initialise1DArrayChar(   mesh->BCp.type, ncx*ncz, -1  );
     Initialise1DArrayChar(   mesh->BCt.type,    ncx*ncz, -1  );
+    Initialise1DArrayChar(   mesh->BCc.type,    ncx*ncz, -1  );
     Initialise1DArrayChar(   mesh->BCu.type, nx*nzvx, -1  );
     Initialise1DArrayChar(   mesh->BCv.type, nxvz*nz, -1  );
     Initialise1DArrayChar(   mesh->BCg.type,    nx *nz , -1  );
@@ -614,6 +615,7 @@ void CellFlagging( grid *mesh, params model, surface topo, scale scaling ) {
             
             if ( PVtag[c2] == 30 ) {
                 mesh->BCt.type[c1]     = 30;
+                mesh->BCc.type[c1]     = 30;
                 mesh->T[c1]            = zeroC/scaling.T ;
                 mesh->BCp_exp.type[c2] = 30;
             }
@@ -625,6 +627,7 @@ void CellFlagging( grid *mesh, params model, surface topo, scale scaling ) {
                 
                 // TEMPERATURE above THE SURFACE
                 mesh->BCt.type[c1] = 30;
+                mesh->BCc.type[c1] = 30;
                 mesh->T[c1]        = zeroC/scaling.T ;
                 // activate first layer above surface for interpolation
                 mesh->BCp_exp.type[c2] = -1;
-- 
2.43.0


From f1caa58d9197938cfb13ff70d6057b5b4c7ca757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:36 +0000
Subject: [PATCH 28/53] fix: boundary conditions and strain rates missing after
 a restart without mechanical solver

SetBCs was only called in the mechanical part of the time loop, so a restarted
thermal or chemical run had insulating boundaries and zero strain rates.
---
 MDLIB/Main_DOODZ.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 0a4e7a7..22eeea4 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -892,6 +892,11 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             }
 
         }
+        else {
+            // No mechanical solver: boundary conditions of the thermal and chemical solvers, strain rate of the prescribed flow
+            SetBCs(*setup->SetBCs, &input, &mesh, &topo);
+            StrainRateComponents( &mesh, input.scaling, &input.model );
+        }
 
         //------------------------------------------------------------------------------------------------------------------------------//
 
-- 
2.43.0


From 56a2621fecda13ad442775571fdc49ad78a6a4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:40 +0000
Subject: [PATCH 29/53] fix: vorticity of vertices in the air is that of an
 earlier step

exz is reset there, wxz was not: the stress of markers below a free surface was
rotated with a stale vorticity (lost on restart).
---
 MDLIB/RheologyDensity.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index f0fb2d8..a224732 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1720,6 +1720,7 @@ void StrainRateComponents( grid* mesh, scale scaling, params* model ) {
     c2 = k  + l*(Nx+1);
 
     mesh->exz[c1] = 0.0;
+    mesh->wxz[c1] = 0.0;
 
     if ( mesh->BCg.type[c1] != 30 ) {
       //            // Original implementation from Duretz et al., 2016
-- 
2.43.0


From 5047e356ebc2222fbc95ce43fd96e9183ce4cbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:48 +0000
Subject: [PATCH 30/53] fix: old heights of the initial-surface markers copied
 with the wrong count

---
 MDLIB/Main_DOODZ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 22eeea4..54284f6 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -469,7 +469,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
             ArrayEqualArray(     topo.height0,     topo.height, mesh.Nx );
             ArrayEqualArray( topo_ini.height0, topo_ini.height, mesh.Nx );
             ArrayEqualArray( topo_chain.z0, topo_chain.z, topo_chain.Nb_part ); // save old z
-            ArrayEqualArray( topo_chain_ini.z0, topo_chain_ini.z, topo_chain.Nb_part ); // save old z
+            ArrayEqualArray( topo_chain_ini.z0, topo_chain_ini.z, topo_chain_ini.Nb_part ); // save old z
         }
 
         // Interpolate material properties from particles to nodes
-- 
2.43.0


From e3b35f322eda07f5b2ad97cf46f31e5fc6e18a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:56 +0000
Subject: [PATCH 31/53] fix: initialise the parameter structures read from the
 setup file

---
 MDLIB/InputOutput.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 37c197a..e2e0150 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1024,8 +1024,8 @@ Input ReadInputFile( char *fileName ) {
     // MODEL PARAMETERS
     //------------------------------------------------------------------------------------------------------------------------------//
 
-    params model;
-    mat_prop materials;
+    params model = {0};
+    mat_prop materials = {0};
     Nparams Nmodel;
     FILE *fin;
     int k, gsel;
-- 
2.43.0


From fc44e45c6fdac6789a7be18e4d3c1f0acc32f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:00 +0000
Subject: [PATCH 32/53] fix: do not free uninitialised matrices when the
 mechanical solver is off

---
 MDLIB/Main_DOODZ.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 54284f6..4bc50ae 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -428,9 +428,9 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
     FILE        *GNUplotPipe;
     if (input.model.gnuplot_log_res == 1 ) GNUplotPipe = popen ("gnuplot -persistent", "w");
 
-    SparseMat    Stokes, Jacob;
-    SparseMat    StokesA, StokesB, StokesC, StokesD;
-    SparseMat    JacobA,  JacobB,  JacobC,  JacobD;
+    SparseMat    Stokes = {0}, Jacob = {0};
+    SparseMat    StokesA = {0}, StokesB = {0}, StokesC = {0}, StokesD = {0};
+    SparseMat    JacobA = {0},  JacobB = {0},  JacobC = {0},  JacobD = {0};
     DirectSolver CholmodSolver;
     for (; input.model.step<= input.model.Nt; input.model.step++) {
 
-- 
2.43.0


From 259e004c5de01d075dd5ac7e9018c3a4bc5616c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:43 +0000
Subject: [PATCH 33/53] fix: per-thread matrix buffers hold the remainder given
 to the last thread

---
 MDLIB/StokesAssemblyDecoupled.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index 71913e2..378099d 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -1250,7 +1250,10 @@ void DomainDecompositionDecoupled( int N, int n_th, int *estart, int *eend, int
 
 void AllocateTempMatArraysDecoupled(double ***Atemp, int ***Itemp, int ***Jtemp, int n_th, int nnz, int neq, int* DD, int **nnzc2 ) {
     
-    int ith;
+    int ith, N = 0, nnz_th;
+    
+    // Number of equations shared between the threads (the last thread takes the remainder)
+    for (ith=0; ith<n_th; ith++) N += DD[ith];
     
     // Temporary parallel Matrix arrays
     *Atemp = DoodzMalloc( sizeof(double*) * n_th );
@@ -1259,9 +1262,10 @@ void AllocateTempMatArraysDecoupled(double ***Atemp, int ***Itemp, int ***Jtemp,
     *nnzc2 = DoodzCalloc( n_th, sizeof(int) );
     
     for (ith=0; ith<n_th; ith++) {
-        (*Atemp)[ith] = DoodzMalloc( sizeof(double) * (int)(nnz/n_th) );
+        nnz_th        = DD[ith] * (nnz/N + 1);
+        (*Atemp)[ith] = DoodzMalloc( sizeof(double) * nnz_th );
         (*Itemp)[ith] = DoodzCalloc( (neq+1), sizeof(int) );
-        (*Jtemp)[ith] = DoodzMalloc( sizeof(int) * (int)(nnz/n_th) );
+        (*Jtemp)[ith] = DoodzMalloc( sizeof(int) * nnz_th );
     }
 }
 
-- 
2.43.0


From fd4a083ca9b3c50db72539aff7b562547259c55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:53 +0000
Subject: [PATCH 34/53] fix: elastic strain rate of anisotropic bodies was the
 square of a strain rate

---
 MDLIB/AnisotropyRoutines.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 1611e01..fc25de0 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -312,7 +312,13 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
     if ( peierls     == 1 )              eta_exp  = B_exp * pow( *Eii_exp, 1.0 / (ST + n_exp) - 1.0);
 
     // Compute dissipative strain rate components
-    if (elastic) *Eii_el   = Tii*Tii/(4*eta_el*eta_el);
+    if (elastic) {
+      const double Exx_el = (*Txx - Txx0)/2/eta_el;
+      const double Ezz_el = (*Tzz - Tzz0)/2/eta_el;
+      const double Eyy_el = -(Exx_el + Ezz_el);
+      const double Exz_el = (*Txz - Txz0)/2/eta_el;
+      *Eii_el   = sqrt(0.5*(Exx_el*Exx_el + Ezz_el*Ezz_el + Eyy_el*Eyy_el) + Exz_el*Exz_el);
+    }
     if (is_pl)   *Eii_pl   = gdot/2.0;
 
     // Partitioning of volumetric strain
-- 
2.43.0


From 7e4e994e39f39ca5d091da244e3a40d84d691deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:15 +0000
Subject: [PATCH 35/53] fix: time scale of the subgrid pressure relaxation is
 viscosity times compressibility

---
 MDLIB/RheologyParticles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index c3759b2..b36d727 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -1325,7 +1325,7 @@ void UpdateParticlePressure( grid* mesh, scale scaling, params model, markers* p
         for ( k=0; k<particles->Nb_part; k++ ) {
             if (particles->phase[k] != -1) {
                 p         = particles->phase[k];
-                dtm       = etam[k]/ (materials->bet[p]);
+                dtm       = etam[k] * materials->bet[p];
                 dPms[k]   = -( particles->P[k] - Pm0[k]) * (1.0 - exp(-d*model.dt/dtm));
             }
         }
-- 
2.43.0


From 93ce7263a1bcab8535cf233f3e0873e5d77b95ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:11 +0000
Subject: [PATCH 36/53] fix: phase proportions at vertices on a periodic
 boundary are those of one point

---
 MDLIB/ParticleRoutines.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 43bab86..6ee90dc 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -2313,6 +2313,16 @@ void P2Mastah ( params *model, markers particles, DoodzFP* mat_prop, grid *mesh,
             NodeField[c1] = av; NodeField[l*Nx] = av;
         }
     }
+    if (centroid==0 && prop==1 && model->periodic_x==1) { // same for the phase proportions at vertices
+        double av;
+        for (p=0; p<model->Nb_phases; p++) {
+            for( int l=0; l<Nz; l++) {
+                int c1 = l*Nx + Nx-1;
+                av = 0.5*(mesh->phase_perc_s[p][c1] + mesh->phase_perc_s[p][l*Nx]);
+                mesh->phase_perc_s[p][c1] = av; mesh->phase_perc_s[p][l*Nx] = av;
+            }
+        }
+    }
     
     // Clean up
     DoodzFree(WM);
-- 
2.43.0


From cd8cc1b1589f376bdca37c04fabe59ae7d7f4603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:58 +0000
Subject: [PATCH 37/53] fix: marker velocity west of and below the grid was
 mirrored instead of extrapolated

---
 MDLIB/ParticleRoutines.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 6ee90dc..38afa30 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -93,8 +93,8 @@ void V2P( double *Vxm, double *Vzm, markers* particles, double*Vx,  double*Vz, d
             i_part = Nz-2;
         }
         
-        dxm = fabs(particles->x[k] - xg[j_part]);
-        dzm = fabs(particles->z[k] - zvx[i_part]);
+        dxm = particles->x[k] - xg[j_part];
+        dzm = particles->z[k] - zvx[i_part];
         
         iSW = j_part+i_part*Nx;
         iSE = j_part+i_part*Nx+1;
@@ -183,8 +183,8 @@ void V2P( double *Vxm, double *Vzm, markers* particles, double*Vx,  double*Vz, d
             i_part = Nz-2;
         }
         
-        dxm = fabs(particles->x[k] - xvz[j_part]);
-        dzm = fabs(particles->z[k] - zg[i_part]);
+        dxm = particles->x[k] - xvz[j_part];
+        dzm = particles->z[k] - zg[i_part];
         
         iSW = j_part+i_part*Nx;
         iSE = j_part+i_part*Nx+1;
-- 
2.43.0


From 9f5aeb9b76741c045ff435ad1c373873467c5c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:21 +0000
Subject: [PATCH 38/53] fix: diagnostic of an empty vertex read the proportion
 of a second phase that may not exist

---
 MDLIB/RheologyDensity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index a224732..02806d9 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1400,7 +1400,7 @@ void ShearModCompExpGrid( grid* mesh, mat_prop *materials, params *model, scale
         }
 
         if ( isinf(1.0/mesh->mu_s[c1]) ) {
-          printf("Aaaaargh...!! %2.2e %2.2e ----> ShearModulusCompressibilityExpansivityGrid\n", mesh->phase_perc_s[0][c1], mesh->phase_perc_s[1][c1]);
+          printf("Aaaaargh...!! no shear modulus at vertex %d ----> ShearModulusCompressibilityExpansivityGrid\n", c1);
         }
 
         // Post-process for geometric/harmonic averages
-- 
2.43.0


From e31b50dc934c5d3439b94d9342f212194bcf2e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:04 +0000
Subject: [PATCH 39/53] fix: the bottom flux of the chemical solver was divided
 by the cell width instead of its height

---
 MDLIB/ChemicalRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ChemicalRoutines.c b/MDLIB/ChemicalRoutines.c
index 988b705..c0a272f 100755
--- a/MDLIB/ChemicalRoutines.c
+++ b/MDLIB/ChemicalRoutines.c
@@ -271,7 +271,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
                 }
                 
                 if (l==0 && mesh->BCC_exp.type[c0-(ncx+2)]==0) { // SOUTH
-                    bbc[eqn] += -1.0/mesh->dx * mesh->BCC_exp.val[c0-(ncx+2)];
+                    bbc[eqn] += -1.0/mesh->dz * mesh->BCC_exp.val[c0-(ncx+2)];
                 }
                 
                 if (k==0 && mesh->BCC_exp.type[c0-1]==1) {  // WEST
-- 
2.43.0


From de34a334fbf3ba729f1528df68cfe7b85f864a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 40/53] fix: markers near the sides could accumulate negative
 strain increments

---
 MDLIB/RheologyParticles.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index b36d727..903b496 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -265,6 +265,10 @@ void AccumulatedStrainII( grid* mesh, scale scaling, params model, markers* part
             
             dxm = (particles->x[k] - X_vect[j_part]);
             dzm = (particles->z[k] - Z_vect[i_part]);
+
+            // Within half a cell of the sides: take the nearest centres, extrapolated increments could become negative
+            dxm = MINV( MAXV(dxm, 0.0), dx );
+            dzm = MINV( MAXV(dzm, 0.0), dz );
             
             iSW = j_part+i_part*Nx;
             iSE = j_part+i_part*Nx+1;
-- 
2.43.0


From a728cd61c6d70d45f89d3a9510db7d98f63674d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:08 +0000
Subject: [PATCH 41/53] fix: rotated ellipses and rectangles away from the
 origin were misplaced

---
 MDLIB/Setup.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 70f1bf2..6469a3c 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -1014,8 +1014,8 @@ bool IsEllipseCoordinates(Coordinates coordinates, Ellipse ellipse, double scali
   const double theta   = ellipse.angle * M_PI / 180.0;
   const double radiusX = (ellipse.radiusX / 2) / scalingL;
   const double radiusZ = (ellipse.radiusZ / 2) / scalingL;
-  const double Xn      = (coordinates.x - ellipse.centreX / scalingL) * cos(theta) - (coordinates.z + ellipse.centreZ / scalingL) * sin(theta);
-  const double Zn      = (coordinates.x + ellipse.centreX / scalingL) * sin(theta) + (coordinates.z - ellipse.centreZ / scalingL) * cos(theta);
+  const double Xn      = (coordinates.x - ellipse.centreX / scalingL) * cos(theta) - (coordinates.z - ellipse.centreZ / scalingL) * sin(theta);
+  const double Zn      = (coordinates.x - ellipse.centreX / scalingL) * sin(theta) + (coordinates.z - ellipse.centreZ / scalingL) * cos(theta);
   if (pow(Xn / radiusX, 2) + pow(Zn / radiusZ, 2) - 1 < 0) {
     return true;
   } else {
@@ -1028,9 +1028,9 @@ bool IsEllipseCoordinates(Coordinates coordinates, Ellipse ellipse, double scali
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 bool IsRectangleCoordinates(Coordinates coordinates, Rectangle rectangle, double scalingL) {
-  const double wX = coordinates.x * cos(rectangle.angle) - coordinates.z * sin(rectangle.angle);
-  const double wZ = coordinates.x * sin(rectangle.angle) + coordinates.z * cos(rectangle.angle);
-  if (wX >= (rectangle.centreX / scalingL - (rectangle.sizeX / 2) / scalingL) && wX <= (rectangle.centreX / scalingL + (rectangle.sizeX / 2) / scalingL) && wZ >= (rectangle.centreZ / scalingL - (rectangle.sizeZ / 2) / scalingL) && wZ <= (rectangle.centreZ / scalingL + (rectangle.sizeZ / 2) / scalingL)) {
+  const double wX = (coordinates.x - rectangle.centreX / scalingL) * cos(rectangle.angle) - (coordinates.z - rectangle.centreZ / scalingL) * sin(rectangle.angle);
+  const double wZ = (coordinates.x - rectangle.centreX / scalingL) * sin(rectangle.angle) + (coordinates.z - rectangle.centreZ / scalingL) * cos(rectangle.angle);
+  if (fabs(wX) <= (rectangle.sizeX / 2) / scalingL && fabs(wZ) <= (rectangle.sizeZ / 2) / scalingL) {
     return true;
   } else {
     return false;
-- 
2.43.0


From df54e506672c45653f499d6e1298807246d0a96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:50 +0000
Subject: [PATCH 42/53] fix: input file reader ran past short lines, lost the
 last line and depended on the order of file names

---
 MDLIB/InputOutput.c | 61 +++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 32 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index e2e0150..f35b16f 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1729,7 +1729,7 @@ double* ReadBin(char importDir[], char A_name[], int nx, int ny, double scale ){
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
-    int h, find=0, bufmax=50, length;
+    int h, find=0, bufmax=1000, length;
     char *string1, *string2;
     char line[bufmax];
 
@@ -1743,6 +1743,9 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
     param2 = malloc( (length+1)*sizeof(char));
     asprintf(&param1, "%s", FieldName);
 
+    // Start from beginning of the file.
+    rewind(fin);
+
     // Initialise line
     for (h=0;h<bufmax;h++) {
         line[h]='\0';
@@ -1752,9 +1755,7 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
     while ( find == 0 ) {
 
         // Read new line
-        fgets ( line, sizeof(line), fin );
-
-        if (feof(fin)) {
+        if (fgets ( line, sizeof(line), fin ) == NULL) {
             printf("Warning : Parameter '%s' not found in the setup file, running with default value %s\n", FieldName, Default);
             rewind(fin);
             free(string1);
@@ -1781,16 +1782,16 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
         param2[length] = '\0';
 
         // Check if we found the right parameter name
-        if ( strcmp(param1, param2) == 0 ) {
+        if ( strcmp(param1, param2) == 0 && (isspace(line[length]) || line[length] == '=') ) {
             find = 1;
             int str_size = 0;
             int h1;
             // Search for equal sign
-            for (h=0;h<bufmax;h++) {
+            for (h=0;h<(int)strlen(line);h++) {
                 if(strlen(line)> 0 && line[h]=='=') {
 
-                    for (h1=0; h1<30; h1++) {
-                        if ( isspace(line[h+2+h1]) ) {
+                    for (h1=0; h1<bufmax-(h+2); h1++) {
+                        if ( isspace(line[h+2+h1]) || line[h+2+h1]=='\0' ) {
                             string1[h1] = '\0';
                             str_size++;
                             break;
@@ -1824,7 +1825,7 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 char* ReadPhaseDiagram( FILE *fin, char FieldName[] ) {
-    int h, find=0, bufmax=50, length;
+    int h, find=0, bufmax=1000, length;
     char *string1, *string2;
     char line[bufmax];
 
@@ -1838,6 +1839,9 @@ char* ReadPhaseDiagram( FILE *fin, char FieldName[] ) {
     param2 = malloc( (length+1)*sizeof(char));
     asprintf(&param1, "%s", FieldName);
 
+    // Start from beginning of the file.
+    rewind(fin);
+
     // Initialise line
     for (h=0;h<bufmax;h++) {
         line[h]='\0';
@@ -1847,9 +1851,7 @@ char* ReadPhaseDiagram( FILE *fin, char FieldName[] ) {
     while ( find == 0 ) {
 
         // Read new line
-        fgets ( line, sizeof(line), fin );
-
-        if (feof(fin)) {
+        if (fgets ( line, sizeof(line), fin ) == NULL) {
             printf("Error: The phase diagram '%s' could not be found in the setup file. I will exit here.\n", FieldName);
             rewind (fin    );
             free   (param1 );
@@ -1865,16 +1867,16 @@ char* ReadPhaseDiagram( FILE *fin, char FieldName[] ) {
         param2[length] = '\0';
 
         // Check if we found the right parameter name
-        if ( strcmp(param1, param2) == 0 ) {
+        if ( strcmp(param1, param2) == 0 && (isspace(line[length]) || line[length] == '=') ) {
             find = 1;
             int str_size = 0;
             int h1;
             // Search for equal sign
-            for (h=0;h<bufmax;h++) {
+            for (h=0;h<(int)strlen(line);h++) {
                 if(strlen(line)> 0 && line[h]=='=') {
 
-                    for (h1=0; h1<30; h1++) {
-                        if ( isspace(line[h+2+h1]) ) {
+                    for (h1=0; h1<bufmax-(h+2); h1++) {
+                        if ( isspace(line[h+2+h1]) || line[h+2+h1]=='\0' ) {
                             //printf("found space last char is %c\n", line[h+2+h1-1]);
                             string1[h1] = '\0';
                             str_size++;
@@ -1927,8 +1929,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
     while(value == 0)
     {
         // Read new line
-        fgets ( line, sizeof(line), fin );
-        if (feof(fin)) {
+        if (fgets ( line, sizeof(line), fin ) == NULL) {
             printf("Warning : Parameter '%s' not found in the setup file, running with default value %d\n", FieldName, Default);
             rewind (fin);
             free(param1);
@@ -1938,7 +1939,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
         // Determine the length of the parameter string in the current line.
         int InPar_length = 0;
 
-        while(line[InPar_length] != ' ')
+        while(line[InPar_length] != ' ' && line[InPar_length] != '\0')
         {
             InPar_length = InPar_length + 1;
         }
@@ -1958,7 +1959,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
         if( (strcmp(param1, param2)) == 0 )
         {
             // Search for equal sign
-            for (h = 0; h < bufmax ;h++)
+            for (h = 0; h < (int)strlen(line) ;h++)
             {
                 if(strlen(line)> 0 && line[h]=='=')
                 {
@@ -2000,8 +2001,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
     while(value == 0.0)
     {
         // Read new line
-        fgets ( line, sizeof(line), fin );
-        if (feof(fin)) {
+        if (fgets ( line, sizeof(line), fin ) == NULL) {
             // printf("Warning : Parameter '%s' not found in the setup file, running with default value %2.2e\n", FieldName, Default);
             rewind (fin);
             free(param1);
@@ -2010,7 +2010,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
 
         // Determine the length of the parameter string in the current line.
         int InPar_length = 0;
-        while(line[InPar_length] != ' ')
+        while(line[InPar_length] != ' ' && line[InPar_length] != '\0')
         {
             InPar_length = InPar_length + 1;
         }
@@ -2030,7 +2030,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
         if( (strcmp(param1, param2)) == 0 )
         {
             // Search for equal sign
-            for (h = 0; h < bufmax ;h++)
+            for (h = 0; h < (int)strlen(line) ;h++)
             {
                 if(strlen(line)> 0 && line[h]=='=')
                 {
@@ -2072,8 +2072,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
     while(find == 0)
     {
         // Read new line and check for existence of phases. If not exit.
-        fgets ( line, sizeof(line), fin );
-        if (feof(fin))
+        if (fgets ( line, sizeof(line), fin ) == NULL)
         {
             printf("Warning : No phase ID found! I will exit here.");
             free(param1);
@@ -2084,7 +2083,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
         // Determine the length of the parameter string in the current line.
         int InPar_length = 0;
 
-        while(line[InPar_length] != ' ')
+        while(line[InPar_length] != ' ' && line[InPar_length] != '\0')
         {
             InPar_length = InPar_length + 1;
         }
@@ -2104,7 +2103,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
         if( (strcmp("ID", param2)) == 0 )
         {
             // Search for equal sign
-            for (h = 0; h < bufmax ;h++)
+            for (h = 0; h < (int)strlen(line) ;h++)
             {
                 if(strlen(line)> 0 && line[h] == '=')
                 {
@@ -2123,7 +2122,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                     fgets ( phase_line, sizeof(phase_line), fin );
                     // Determine the length of the parameter string in the current line.
                     InPar_length = 0;
-                    while(phase_line[InPar_length] != ' ')
+                    while(phase_line[InPar_length] != ' ' && phase_line[InPar_length] != '\0')
                     {
                         InPar_length = InPar_length + 1;
                     }
@@ -2154,7 +2153,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                     if( (strcmp(param1, param3)) == 0 )
                     {
                         // Search for equal sign
-                        for (h = 0; h < bufmax ;h++)
+                        for (h = 0; h < (int)strlen(phase_line) ;h++)
                         {
 
                             if(strlen(line)> 0 && phase_line[h]=='=')
@@ -2166,7 +2165,6 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                                 return value;
                             }
                         }
-                        subfind = 1;
                     }
 
                     // Break in case the parameter has not been defined until the end of the file.
@@ -2183,7 +2181,6 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                     
                     free(param3);
                 }
-                free(param1);
             }
         }
         free(param2);
-- 
2.43.0


From 552225228ee4777638776f090c6c2c24475f64c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:27 +0000
Subject: [PATCH 43/53] fix: missing input files closed a null stream, and the
 default setup file name overflowed its buffer

---
 MDLIB/InputOutput.c | 9 +++------
 MDLIB/Setup.c       | 4 ++--
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index f35b16f..b4e3987 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -49,7 +49,9 @@ char* GetSetupFileName(int nargs, char *args[]) {
   if (nargs == 2 && strstr(args[1], fileExtension)) {
     return args[1];
   } else {
-    return strcat(args[0], fileExtension);
+    char *fileName = calloc(strlen(args[0]) + strlen(fileExtension) + 1, sizeof(char));
+    strcpy(fileName, args[0]);
+    return strcat(fileName, fileExtension);
   }
 }
 
@@ -70,7 +72,6 @@ void LoadIniParticles( char* name, markers* particles, grid* mesh, markers *topo
     file = fopen(name, "rb");
     if ( file == NULL ) {
         printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
-        fclose(file);
         free(name);
         exit(1);
     }
@@ -159,7 +160,6 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
     file = fopen(name, "rb");
     if ( file == NULL ) {
        printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
-       fclose(file);
        free(name);
        exit(1);
     }
@@ -677,7 +677,6 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
     if ( file == NULL ) {
         printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
         free(name);
-        fclose(file);
         exit(1);
     }
     fwrite( &s1, 1, 1, file);
@@ -1033,7 +1032,6 @@ Input ReadInputFile( char *fileName ) {
     fin = fopen(fileName,"rt");
     if (fin == NULL) {
         printf("Setup file '%s' does not exist\nExiting...\n", fileName);
-        fclose(fin);
         exit(1);
     }
 
@@ -2212,7 +2210,6 @@ void UpdateInputFile( char fin_name[], int NewNumber ) {
     fin = fopen(fin_name,"r+");
 	if ( fin == NULL) {
 		printf("Setup file '%s' does not exist\nExiting...\n", fin_name);
-        fclose(fin);
 		exit(1);
 	}
     // Seach for sign 'equal' in the lines
diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 6469a3c..ef7316c 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -32,7 +32,7 @@ void BuildInitialTopography(BuildInitialTopography_ff buildInitialTopography, Md
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 void ValidatePhase(int phaseId, int phasesCount) {
-  if (phaseId > phasesCount) {
+  if (phaseId < 0 || phaseId >= phasesCount) {
     printf("Lazy bastard! Fix your particle phase ID! \n");
     exit(144);
   }
@@ -1060,7 +1060,7 @@ char* DefaultTextFilename( char filename[] ) {
   
   int len_basename = n_basename;
   // char basename[len_basename];
-  char *basename = calloc(len_basename, sizeof(char));
+  char *basename = calloc(len_basename + strlen(".txt") + 1, sizeof(char));
   start=false, end=false;
   n_basename = 0;
 
-- 
2.43.0


From cbd32c8c63291760310a9f72bab143b769ebae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 44/53] fix: more phases than the material table holds
 overflowed it

---
 MDLIB/InputOutput.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index b4e3987..330aed2 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1265,6 +1265,8 @@ Input ReadInputFile( char *fileName ) {
     // MATERIAL PROPERTIES
     //------------------------------------------------------------------------------------------------------------------------------//
     model.Nb_phases = materials.Nb_phases =  ReadInt2( fin, "Nb_phases", 0 );
+    const int max_phases = sizeof(materials.rho) / sizeof(materials.rho[0]);
+    if ( model.Nb_phases < 0 || model.Nb_phases > max_phases ) { printf("Nb_phases should be between 0 and %d\n", max_phases); exit(1); }
     for ( k=0; k<materials.Nb_phases; k++) {
         // Read general parameters
         materials.rho[k]  = ReadMatProps( fin, "rho", k,   2700.0 )  / scaling.rho;
-- 
2.43.0


From 923d38d441716fd22d15d3c3dd2b83b4dd64cae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:59 +0000
Subject: [PATCH 45/53] fix: zero_mean_topo left the surface markers and tags
 on the unshifted topography

---
 MDLIB/Main_DOODZ.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 4bc50ae..ae2dc80 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -1112,7 +1112,10 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                     CorrectTopoIni( &particles, input.materials, &topo_chain_ini, &topo, input.model, input.scaling, &mesh);
                     MarkerChainPolyFit( &topo_ini, &topo_chain_ini, input.model, mesh );
 
-                    if ( input.model.zero_mean_topo == 1 ) KeepZeroMeanTopo( &input.model, &topo, &topo_chain );
+                    if ( input.model.zero_mean_topo == 1 ) {
+                        KeepZeroMeanTopo( &input.model, &topo, &topo_chain );
+                        MarkerChainPolyFit( &topo,     &topo_chain,     input.model, mesh );
+                    }
 
                     // Sedimentation
                     if ( input.model.surface_processes == 2 ) {
-- 
2.43.0


From af73dd28ce267751bd018ec4fc35f1d0cce9d9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:04 +0000
Subject: [PATCH 46/53] fix: only the last substep of advection moved the
 topography

---
 MDLIB/Main_DOODZ.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index ae2dc80..2b516dc 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -1055,6 +1055,11 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
                 }
 
                 if (input.model.free_surface == 1 ) {
+                    // Topography at the beginning of the substep: the increments of the chain are relative to it
+                    ArrayEqualArray(     topo.height0,     topo.height, mesh.Nx );
+                    ArrayEqualArray( topo_ini.height0, topo_ini.height, mesh.Nx );
+                    ArrayEqualArray( topo_chain.z0, topo_chain.z, topo_chain.Nb_part );
+                    ArrayEqualArray( topo_chain_ini.z0, topo_chain_ini.z, topo_chain_ini.Nb_part );
                     // Advect free surface with RK2
                     RogerGuntherII( &topo_chain, input.model, mesh, 1, input.scaling );
                     RogerGuntherII( &topo_chain_ini, input.model, mesh, 1, input.scaling );
-- 
2.43.0


From 67407743bcc32e1cf0a4effb23d514e21041cb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:45 +0000
Subject: [PATCH 47/53] fix: topographic diffusion ran at half of surf_diff

---
 MDLIB/FreeSurface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 7bcae2e..0993a68 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -957,7 +957,7 @@ void DiffuseAlongTopography( grid *mesh, params model, scale scaling, double *ar
             for (i=1; i<size-1; i++) {
                 correct[i]  = 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);
             }
-            for (i=size-2; i==1; i--) {
+            for (i=size-2; i>=1; i--) {
                 correct[i] += 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);
             }
             for (i=1; i<size-1; i++) {
-- 
2.43.0


From ee6ab2e035d9f9d09c05978bb2499633885ec14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:28 +0000
Subject: [PATCH 48/53] fix: sediment markers had a singular deformation
 gradient, no density, dual phase or director, and overran the marker arrays

---
 MDLIB/FreeSurface.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 0993a68..820d258 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -131,11 +131,17 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
             
             if ( hm > hm0 ) { //;# && (hm-hm0)>1e-6
                 
+                if ( new_ind >= particles->Nb_part_max ) {
+                    printf("You have reached the maximum number of particles currently available (%d), please increase it...\n", particles->Nb_part_max );
+                    exit(1);
+                }
+                
                 // Compute new altitude of the marker right in between the new and old position of the free surface
                 znew                      = 0.5*(hm+hm0);
                 particles->x[new_ind]     = xnew;
                 particles->z[new_ind]     = znew;
                 particles->phase[new_ind] = sed_phase;
+                particles->dual[new_ind]  = sed_phase;
                 
                 particles->sxxd[new_ind]          =  0.0;
                 particles->sxz[new_ind]           =  0.0;
@@ -152,6 +158,7 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
                 particles->T[new_ind]             =  zeroC/scaling.T;
                 particles->P[new_ind]             =  0.0;
                 
+                particles->rho[new_ind]           =  materials.rho[sed_phase];
                 particles->phi[new_ind]           =  0.0;
                 particles->X[new_ind]             =  0.0;
                 particles->sxxd[new_ind]          =  0.0;
@@ -160,8 +167,13 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
                 if (finite_strain==1) {
                     particles->Fxx[new_ind]           = 1.0;
                     particles->Fxz[new_ind]           = 0.0;
-                    particles->Fzx[new_ind]           = 1.0;
-                    particles->Fzz[new_ind]           = 0.0;
+                    particles->Fzx[new_ind]           = 0.0;
+                    particles->Fzz[new_ind]           = 1.0;
+                }
+                
+                if (model.anisotropy==1) {
+                    particles->nx[new_ind]            = cos(materials.aniso_angle[sed_phase]);
+                    particles->nz[new_ind]            = sin(materials.aniso_angle[sed_phase]);
                 }
                 
                 if (track_T_P_x_z==1) {
-- 
2.43.0


From f6cc080f350c849ac9e44540825e20717f1a7017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:26 +0000
Subject: [PATCH 49/53] fix: with a free surface and substeps the box of
 pure_shear_ALE stopped after the first substep

---
 MDLIB/AdvectionRoutines.c | 11 +++++++++--
 MDLIB/Main_DOODZ.c        |  2 +-
 MDLIB/mdoodz-private.h    |  2 +-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/MDLIB/AdvectionRoutines.c b/MDLIB/AdvectionRoutines.c
index f293df1..0ea32bb 100755
--- a/MDLIB/AdvectionRoutines.c
+++ b/MDLIB/AdvectionRoutines.c
@@ -405,9 +405,10 @@ for (k=0;k<Nb_part;k++) {
 /*------------------------------------------------------ M-Doodz -----------------------------------------------------*/
 /*--------------------------------------------------------------------------------------------------------------------*/
 
-void PureShearALE( params *model, grid *mesh, markers *topo_chain, scale scaling ) {
+void PureShearALE( params *model, grid *mesh, markers *topo_chain, scale scaling, int isub ) {
 
-    double VxW=0.0, VxE=0.0, VzS=0.0, VzN=0.0;
+    // The velocity of the walls is evaluated in the first substep only: cell flagging erases the boundary conditions afterwards
+    static double VxW=0.0, VxE=0.0, VzS=0.0, VzN=0.0;
     int i, j, icount1, icount2, c1, c2;
     double MinFreeSurfaceUpliftRate = 0.0, MaxFreeSurfaceUpliftRate = 0.0;
     double MinFreeSurfaceAltitude   = 0.0, MaxFreeSurfaceAltitude   = 0.0;
@@ -418,6 +419,10 @@ void PureShearALE( params *model, grid *mesh, markers *topo_chain, scale scaling
         MinMaxArrayVal( topo_chain->z, topo_chain->Nb_part, &MinFreeSurfaceAltitude, &MaxFreeSurfaceAltitude );
     }
 
+    if (isub == 0) {
+
+    VxW = 0.0; VxE = 0.0; VzS = 0.0; VzN = 0.0;
+
     // Loop on E-W sides: calculate average boundary velocity
     icount1 = 0; icount2 = 0;
     for (j=0; j<mesh->Nz; j++) {
@@ -469,6 +474,8 @@ void PureShearALE( params *model, grid *mesh, markers *topo_chain, scale scaling
     if (icount1>0) VzS /= icount1;
     if (icount2>0) VzN /= icount2;
 
+    }
+
     //    printf("xmin = %lf, xmax = %lf\n", model->xmin*scaling.L, model->xmax*scaling.L);
     //    printf("zmin = %lf, zmax = %lf\n", model->zmin*scaling.L, model->zmax*scaling.L);
     //    printf("VzN=%2.2e VzS=%2.2e\n",VzN*scaling.V,VzS*scaling.V);
diff --git a/MDLIB/Main_DOODZ.c b/MDLIB/Main_DOODZ.c
index 2b516dc..768a3d9 100755
--- a/MDLIB/Main_DOODZ.c
+++ b/MDLIB/Main_DOODZ.c
@@ -1051,7 +1051,7 @@ void RunMDOODZ(char *inputFileName, MdoodzSetup *setup) {
 
                 // Advect domain boundaries
                 if (input.model.pure_shear_ALE > 0 ) {
-                    PureShearALE( &input.model, &mesh, &topo_chain, input.scaling );
+                    PureShearALE( &input.model, &mesh, &topo_chain, input.scaling, isub );
                 }
 
                 if (input.model.free_surface == 1 ) {
diff --git a/MDLIB/mdoodz-private.h b/MDLIB/mdoodz-private.h
index 73d066b..535681c 100755
--- a/MDLIB/mdoodz-private.h
+++ b/MDLIB/mdoodz-private.h
@@ -393,7 +393,7 @@ void            CountPartCell_OLD(markers *, grid *, params, surface, surface, i
 void            CountPartCell2(markers *, grid *, params, surface, surface, int, scale);
 
 void            AccumulatedStrain(grid *, scale, params, markers *);
-void            PureShearALE(params *, grid *, markers *, scale);
+void            PureShearALE(params *, grid *, markers *, scale, int);
 void            VelocitiesOnCenters(double *, double *, double *, double *, int, int, scale);
 void            VelocitiesToParticles(grid *, markers *, DoodzFP *, DoodzFP *, params, scale);
 void            DeformationGradient(grid, scale, params, markers *);
-- 
2.43.0


From ea687c98dfe6b37543e77f06bd51847e3fb902b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:01 +0000
Subject: [PATCH 50/53] fix: markers near the walls of a shrinking box
 (pure_shear_ALE) were dropped at intermediate stages of advection

---
 MDLIB/AdvectionRoutines.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/MDLIB/AdvectionRoutines.c b/MDLIB/AdvectionRoutines.c
index 0ea32bb..da8ec6c 100755
--- a/MDLIB/AdvectionRoutines.c
+++ b/MDLIB/AdvectionRoutines.c
@@ -356,13 +356,15 @@ double *dudx_n, *dvdz_n, *dudz_s, *dvdx_s;
 double dudxA, dvdzA, dudzA, dvdxA, dudxB, dvdzB, dudzB, dvdxB, dudxC, dvdzC, dudzC, dvdxC, dudxD, dvdzD, dudzD, dvdxD, VEA,VEB,VEC,VED;
 double nx, nz, ndotx, ndotz, w12, norm;
 
+// The box of pure_shear_ALE has already moved by the whole step: only the final position tells whether a marker has left it
+int inside = model.pure_shear_ALE <= 0;
 int new = model.conserv_interp; // DO NOT activate Taras trick: so far it is a source of asymmetry (conservative interpolation)
 dx = mesh.dx;
 dz = mesh.dz;
 
 #pragma omp parallel for shared ( particles, mesh, om_s ) \
 private ( k, xA, zA, VxA, VzA, VxB, VzB, VxC, VzC, VxD, VzD, OmA, OmB, OmC, OmD, txx, tzz, txz, angle, dudxA, dvdzA, dudzA, dvdxA, dudxB, dvdzB, dudzB, dvdxB, dudxC, dvdzC, dudzC, dvdxC, dudxD, dvdzD, dudzD, dvdxD, VEA,VEB,VEC,VED, nx, nz, ndotx, ndotz, w12, norm ) \
-firstprivate( model, dx, dz, new )
+firstprivate( model, dx, dz, new, inside )
 for (k=0;k<Nb_part;k++) {
 
 
@@ -373,19 +375,19 @@ for (k=0;k<Nb_part;k++) {
         particles->x[k] = xA + 0.5 * model.dt * VxA;
         particles->z[k] = zA + 0.5 * model.dt * VzA;
     }
-    isoutPart( particles, &model, k );
+    if (inside) isoutPart( particles, &model, k );
     V2P( &VxB, &VzB, particles, mesh.u_in,  mesh.v_in, mesh.xg_coord, mesh.zg_coord, mesh.zvx_coord, mesh.xvz_coord, mesh.Nx, mesh.Nz, mesh.Nz+1, mesh.Nx+1, mesh.BCu.type, mesh.BCv.type, dx, dz, k, new );
     if (particles->phase[k] != -1) {
         particles->x[k] = xA + 0.5 * model.dt * VxB;
         particles->z[k] = zA + 0.5 * model.dt * VzB;
     }
-    isoutPart( particles, &model, k );
+    if (inside) isoutPart( particles, &model, k );
     V2P( &VxC, &VzC, particles, mesh.u_in,  mesh.v_in, mesh.xg_coord, mesh.zg_coord, mesh.zvx_coord, mesh.xvz_coord, mesh.Nx, mesh.Nz, mesh.Nz+1, mesh.Nx+1, mesh.BCu.type, mesh.BCv.type, dx, dz, k, new );
     if (particles->phase[k] != -1) {
         particles->x[k] = xA + 1.0 * model.dt * VxC;
         particles->z[k] = zA + 1.0 * model.dt * VzC;
     }
-    isoutPart( particles, &model, k );
+    if (inside) isoutPart( particles, &model, k );
     V2P( &VxD, &VzD, particles, mesh.u_in,  mesh.v_in, mesh.xg_coord, mesh.zg_coord, mesh.zvx_coord, mesh.xvz_coord, mesh.Nx, mesh.Nz, mesh.Nz+1, mesh.Nx+1, mesh.BCu.type, mesh.BCv.type, dx, dz, k, new );
     VxA = (1.0/6.0) * ( VxA + 2.0 * VxB + 2.0 * VxC + VxD);
     VzA = (1.0/6.0) * ( VzA + 2.0 * VzB + 2.0 * VzC + VzD);
-- 
2.43.0


From bdc6d7ead8cbcb5bfca152e35f4ced4c04016728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:10 +0000
Subject: [PATCH 51/53] fix: an anisotropy factor of 1 stopped the run with
 geometric averaging (ani_average = 2)

---
 MDLIB/AnisotropyRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index fc25de0..03f03f7 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -399,7 +399,7 @@ void UpdateAnisoFactor( grid *mesh, mat_prop *materials, params *model, scale *s
         }
 
 
-        if ( isinf(1.0/mesh->aniso_factor_n[c0]) ) {
+        if ( average != 2 && isinf(1.0/mesh->aniso_factor_n[c0]) ) {
           printf("Cell %d has no neighbouring particles: average=%d, value = %2.2e, 1/value=%2.2e \n", c0, average, mesh->aniso_factor_n[c0], 1.0/mesh->aniso_factor_n[c0]);
           for ( p=0; p<model->Nb_phases; p++) {
             printf("Phase %d, proportion %2.2e ----> UpdateAnisoFactor()\n", p, mesh->phase_perc_n[p][c0]);
@@ -449,7 +449,7 @@ void UpdateAnisoFactor( grid *mesh, mat_prop *materials, params *model, scale *s
 
         }
 
-        if ( isinf(1.0/mesh->aniso_factor_s[c1]) ) {
+        if ( average != 2 && isinf(1.0/mesh->aniso_factor_s[c1]) ) {
           printf("Node %d has no neighbouring particles\n", c1);
           for ( p=0; p<model->Nb_phases; p++) {
             printf("Phase %d, proportion %2.2e ----> UpdateAnisoFactor()\n", p, mesh->phase_perc_s[p][c1]);
-- 
2.43.0


From 60691d28d3fa50aa536e968fd54b742ccd28c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:32 +0000
Subject: [PATCH 52/53] fix: the angle of directors pointing down was that of
 their mirror image

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 38afa30..4f98432 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -2123,7 +2123,7 @@ void P2Mastah ( params *model, markers particles, DoodzFP* mat_prop, grid *mesh,
                             break;
 
                         case -3: // Anisotropy: angle of director
-                            mark_val = acos(particles.nx[k]);
+                            mark_val = particles.nz[k] < 0.0 ? acos(-particles.nx[k]) : acos(particles.nx[k]); // angle of the axis, in [0, pi]
                             break;
                             
                         default:
-- 
2.43.0


From 7fa25269746c9e96a9689d0675a1785b1a51533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:18 +0000
Subject: [PATCH 53/53] fix: crash with marker_aniso_angle = 1 when anisotropy
 is off

---
 MDLIB/Setup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index ef7316c..3ded05b 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -132,7 +132,7 @@ void SetParticles(SetParticles_ff setParticles, MdoodzInput *instance, markers *
       particles->Fzx[np] = F.zx;
       particles->Fzz[np] = F.zz;
     }
-    if (instance->model.marker_aniso_angle && setParticles.SetAnisoAngle) {
+    if (instance->model.anisotropy && instance->model.marker_aniso_angle && setParticles.SetAnisoAngle) {
       double predefined_angle = 0.;
       particles->aniso_angle[np] = setParticles.SetAnisoAngle(instance, coordinates, particles->phase[np], predefined_angle);
     }
-- 
2.43.0

