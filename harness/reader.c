/* reads a setup file with the library's own reader and prints every parameter in code units */
#include <stdio.h>
#include <stdlib.h>
#include "mdoodz-private.h"
#define D(s, f) fprintf(o, "%s.%s %.17g\n", #s, #f, (double)in.s.f)
#define C(s, f) fprintf(o, "%s.%s %s\n", #s, #f, in.s.f)
#define M(f) fprintf(o, "materials.%s %d %.17g\n", #f, k, (double)in.materials.f[k])
int main(int n, char **a) {
  if (n < 3) return 9;
  Input in = ReadInputFile(a[1]);
  FILE *o = fopen(a[2], "w");
  D(model, istep);
  D(model, irestart);
  D(model, writer);
  D(model, writer_step);
  D(model, writer_markers);
  D(model, writer_debug);
  C(model, writer_subfolder);
  D(model, noisy);
  D(model, track_T_P_x_z);
  D(model, delete_breakpoints);
  D(model, gnuplot_log_res);
  C(model, import_files_dir);
  C(model, import_file);
  D(model, save_initial_markers);
  D(model, load_initial_markers);
  C(model, initial_markers_file);
  D(model, Nx);
  D(model, Nz);
  D(model, xmin);
  D(model, xmax);
  D(model, zmin);
  D(model, zmax);
  D(model, balance_boundaries);
  D(model, zero_mean_topo);
  D(model, Nt);
  D(model, dt);
  D(model, Courant);
  D(model, RK);
  D(model, constant_dt);
  D(model, stress_rotation);
  D(model, dt_max);
  D(model, dt_min);
  D(model, dt_reduction_factor);
  D(model, mechanical);
  D(model, advection);
  D(model, elastic);
  D(model, thermal);
  D(model, anisotropy);
  D(model, polar);
  D(model, finite_strain);
  D(model, compressible);
  D(model, density_variations);
  D(model, kinetics);
  D(model, out_of_plane);
  D(model, melting);
  D(model, penalty);
  D(model, auto_penalty);
  D(model, diag_scaling);
  D(model, preconditioner);
  D(model, lin_abs_div);
  D(model, lin_rel_div);
  D(model, lin_abs_mom);
  D(model, lin_rel_mom);
  D(model, lin_solver);
  D(model, max_its_PH);
  D(Nmodel, nit_max);
  D(model, Newton);
  D(Nmodel, Picard2Newton);
  D(Nmodel, Picard2Newton_tol);
  D(Nmodel, max_its_Pic);
  D(Nmodel, let_res_grow);
  D(model, max_its_KSP);
  D(model, rel_tol_KSP);
  D(Nmodel, nonlin_abs_mom);
  D(Nmodel, nonlin_abs_div);
  D(Nmodel, nonlin_rel_mom);
  D(Nmodel, nonlin_rel_div);
  D(model, min_eta);
  D(model, max_eta);
  D(model, eta_tol);
  D(model, safe_mode);
  D(model, safe_dt_div);
  D(model, max_num_stag);
  D(model, line_search);
  D(model, line_search_min);
  D(model, residual_form);
  D(model, ani_average);
  D(model, eta_average);
  D(model, interp_stencil);
  D(model, subgrid_diffusion);
  D(model, conserv_interp);
  D(model, direct_neighbour);
  D(model, initial_noise);
  D(model, marker_noise);
  D(model, reseed_markers);
  D(model, reseed_mode);
  D(particles, Nx_part);
  D(particles, Nz_part);
  D(particles, min_part_cell);
  D(model, shear_style);
  D(model, periodic_x);
  D(model, pure_shear_ALE);
  D(model, free_surface);
  D(model, free_surface_stab);
  D(model, topo_update);
  D(model, initial_cooling);
  D(model, cooling_duration);
  D(model, shear_heating);
  D(model, adiab_heating);
  D(model, surface_processes);
  D(model, marker_aniso_angle);
  D(model, layering);
  D(model, chemical_diffusion);
  D(model, chemical_production);
  D(model, smooth_softening);
  D(model, bkg_strain_rate);
  D(model, bkg_div_rate);
  D(model, bkg_pressure);
  D(model, bkg_temperature);
  D(model, fix_temperature);
  D(model, surf_diff);
  D(model, surf_ised1);
  D(model, surf_ised2);
  D(model, surf_sedirate);
  D(model, surf_baselev);
  D(model, surf_Winc);
  D(model, surf_Vinc);
  D(model, preload);
  D(model, preload_sxxd);
  D(model, preload_szzd);
  D(model, preload_sxz);
  D(model, therm_perturb);
  D(model, therm_perturb_x0);
  D(model, therm_perturb_z0);
  D(model, therm_perturb_rad_x);
  D(model, therm_perturb_rad_z);
  D(model, therm_perturb_dT);
  D(model, force_act_vol_ast);
  D(model, act_vol_dis_ast);
  D(model, act_vol_dif_ast);
  D(model, force_melt_weak);
  D(model, melt_weak);
  D(model, user0);
  D(model, user1);
  D(model, user2);
  D(model, user3);
  D(model, user4);
  D(model, user5);
  D(model, user6);
  D(model, user7);
  D(model, user8);
  D(model, user9);
  D(model, diffuse_X);
  D(model, diffuse_avg);
  D(model, diffusion_length);
  D(model, gx);
  D(model, gz);
  D(model, deformation_maps);
  D(model, nT);
  D(model, nE);
  D(model, nd);
  D(model, Tmin);
  D(model, Tmax);
  D(model, Emin);
  D(model, Emax);
  D(model, dmin);
  D(model, dmax);
  D(model, Pn);
  D(model, Nb_phases);
  D(scaling, eta);
  D(scaling, L);
  D(scaling, V);
  D(scaling, T);
  D(scaling, t);
  D(scaling, a);
  D(scaling, E);
  D(scaling, S);
  D(scaling, m);
  D(scaling, rho);
  D(scaling, F);
  D(scaling, J);
  D(scaling, W);
  D(scaling, Cp);
  D(scaling, k);
  D(scaling, rhoE);
  D(model, dx);
  D(model, dz);
  D(model, dt0);
  D(model, dt_start);
  D(model, xmin0);
  D(model, xmax0);
  D(model, zmin0);
  D(model, zmax0);
  D(model, Nb_phases);
  D(particles, Nb_part);
  D(particles, Nb_part_max);
  for (int k = 0; k < in.model.Nb_phases; k++) {
    M(rho);
    M(G);
    M(Cp);
    M(k);
    M(Qr);
    M(alp);
    M(bet);
    M(drho);
    M(melt);
    M(plast);
    M(yield);
    M(sig_tens);
    M(sig1);
    M(dsig1);
    M(C);
    M(phi);
    M(psi);
    M(Slim);
    M(n_vp);
    M(eta_vp);
    M(coh_soft);
    M(phi_soft);
    M(psi_soft);
    M(C_end);
    M(phi_end);
    M(psi_end);
    M(pls_start);
    M(pls_end);
    M(cstv);
    M(pwlv);
    M(linv);
    M(gbsv);
    M(expv);
    M(eps0);
    M(tau0);
    M(eta0);
    M(npwl);
    M(Qpwl);
    M(pref_pwl);
    M(gs);
    M(gs_ref);
    M(kin);
    M(reac_soft);
    M(reac_phase);
    M(Pr);
    M(dPr);
    M(tau_kin);
    M(k_chem);
    M(density_model);
    M(phase_diagram);
    M(phase_mix);
    M(aniso_angle);
    M(aniso_factor);
    M(ani_fac_max);
    M(ani_fstrain);
    M(axx);
    M(azz);
    M(ayy);
    M(transmutation);
    M(transmutation_phase);
    M(transmutation_temperature);
    M(T0);
    M(P0);
    M(k_eff);
  }
  fclose(o);
  return 0;
}
