"""Histories that combine many features: the shared generator of the whole-run relations (restart, threads, units, mirror, memory)."""
import numpy as np
from hypothesis import strategies as st
from . import gen, mdz

L0, E0, e0 = 2e4, 1e21, 1e-14

ALL = ("thermal", "elastic", "plast", "compressible", "gravity", "density", "advection", "freesurf", "strain", "aniso", "track", "melt", "chem", "heat", "power", "dblaw", "ale", "simple", "transmute", "noise", "fields", "grain", "newton", "adaptive", "reac", "nomech")


@st.composite
def world(draw, feats=ALL, lo=9, hi=17, nt=(2, 4), adv=None, simple_ok=True, prob=3, symmetric=False, force=()):
    """prob: a feature is on in one of prob cases"""
    on = {f: (draw(st.integers(0, prob - 1)) == 0) for f in feats}
    on = {f: on.get(f, False) or f in force for f in ALL}
    if on["aniso"]:
        on["dblaw"] = on["grain"] = False
    L, E, e = L0, E0, e0
    cu = draw(st.sampled_from(gen.CODE_UNITS[1:3]))
    b = draw(gen.box(lo, hi))
    if on["simple"] or on["ale"]:
        on["freesurf"] = False
    if on["simple"]:
        on["ale"] = False
    if on["freesurf"] or on["ale"] or on["aniso"]:
        on["nomech"] = False
    if on["nomech"]:                             # without the mechanical solver nothing evaluates stresses and viscosities: diffusion and transport only
        on["elastic"] = on["plast"] = on["heat"] = on["power"] = on["dblaw"] = on["grain"] = False
    nph = draw(st.integers(1, 4))
    shp = draw(gen.shapes(b, nph))
    p = dict(gen.scaled_box(b, L), **gen.code_units(cu), bkg_strain_rate=e * draw(st.sampled_from([1.0, -1.0, 0.5])), min_eta=E * 1e-3, max_eta=E * 1e2,
             Nt=draw(st.integers(*nt)), dt=float("%.3g" % (draw(gen.num(0.005, 0.03, 3)) / e)), Courant=0.3, constant_dt=0 if on["adaptive"] else 1,
             nit_max=8, nonlin_abs_mom=1e-9, nonlin_abs_div=1e-9, nonlin_rel_mom=1e-9, nonlin_rel_div=1e-9, lin_solver=2, Newton=1 if on["newton"] else 0,
             Nx_part=draw(st.integers(3, 5)), Nz_part=draw(st.integers(3, 5)), writer_markers=1, gz=-9.81 if (on["gravity"] or on["freesurf"]) else 0.0,
             advection=(1 if (on["advection"] or on["freesurf"] or on["ale"] or on["strain"]) else 0) if adv is None else adv, RK=draw(st.sampled_from([1, 2, 4])),
             interp_stencil=draw(st.sampled_from([1, 9])), eta_average=draw(st.integers(0, 2)), subgrid_diffusion=draw(st.integers(0, 2)), conserv_interp=draw(gen.flag) if on["advection"] else 0,
             direct_neighbour=draw(gen.flag), reseed_mode=draw(gen.flag), min_part_cell=draw(st.sampled_from([4, 9, 16])), stress_rotation=draw(st.integers(0, 2)))
    W, H = p["xmax"] - p["xmin"], p["zmax"] - p["zmin"]
    xm, zm = 0.5 * (p["xmax"] + p["xmin"]), 0.5 * (p["zmax"] + p["zmin"])
    sc = ["bc " + ("simple" if on["simple"] else "pure")] + gen.shape_lines(shp, L)
    if on["simple"]:
        p.update(shear_style=1, periodic_x=1)
    if on["ale"]:
        p.update(pure_shear_ALE=1)
    if on["nomech"]:
        p["mechanical"] = 0
    T0 = draw(gen.num(700, 1400, 0))
    if on["dblaw"] or on["grain"]:
        T0 = max(T0, 1250.0)
    if True:
        sc.append("f T lin %.8g 0 %.6g" % (T0, -draw(gen.num(0, 100, 0)) / L))
        sc.append("f T gauss %g %.6g %.6g %.6g" % (draw(gen.num(-200, 300, 0)), xm + W * draw(gen.num(-0.3, 0.3)), zm + H * draw(gen.num(-0.3, 0.3)), 0.35 * min(W, H)))
    if on["thermal"] or on["heat"] or on["melt"]:
        p.update(thermal=1)
        for s in "WESN":
            if on["simple"] and s in "WE":
                sc.append("bct %s -2" % s); continue
            t = draw(gen.flag)
            sc.append("bct %s %d" % (s, t))
            if t:
                sc.append("f bct%s const %.8g" % (s, T0 + draw(gen.num(-200, 200, 0))))
        if on["freesurf"]:
            sc += ["bct F 1", "f bctF const 300"]
    if on["heat"]:
        p.update(shear_heating=draw(gen.flag), adiab_heating=draw(st.integers(0, 2)))
    for f, k in (("elastic", "elastic"), ("compressible", "compressible"), ("strain", "finite_strain"), ("aniso", "anisotropy"), ("track", "track_T_P_x_z"), ("melt", "melting"), ("chem", "chemical_diffusion")):
        if on[f]:
            p[k] = 1
    if on["freesurf"]:
        p.update(free_surface=1, free_surface_stab=draw(st.sampled_from([0.0, 0.5, 1.0])), topo_update=draw(gen.flag))
        if draw(gen.flag):
            p.update(zero_mean_topo=0)
        sc.append("f topo const %.8g" % (p["zmax"] - H * draw(gen.num(0.15, 0.35))))
        if draw(gen.flag):
            sc.append("f topo gauss %.6g %.6g 0 %.6g" % (0.05 * H * draw(gen.num(-1, 1)), xm + W * draw(gen.num(-0.2, 0.2)), 0.2 * W))
        sc.append("surfphase %d" % draw(st.integers(0, nph - 1)))
    ph = []
    for i in range(nph):
        grav = p["gz"] != 0                      # keep buoyant and surface velocities comparable with the far field
        q = dict(eta0=float("%.4g" % (E * draw(gen.logn(-0.5, 1) if grav else gen.logn(-1.5, 1.5)))), rho=draw(gen.num(2950, 3050, 0) if grav else gen.num(2000, 3500, 0)), G=float("%.4g" % draw(gen.logn(9.5, 11))), bet=float("%.4g" % draw(gen.logn(-11.5, -10.5))), k=draw(gen.num(1, 5, 1)), Cp=1000.0, alp=3e-5)
        if on["power"] and draw(gen.flag):
            q.update(cstv=0, pwlv=1, npwl=draw(gen.num(1, 4, 1)))
        if on["dblaw"] and draw(gen.flag):
            q.update(cstv=draw(gen.flag), pwlv=draw(st.sampled_from([10, 19, 40])), linv=draw(st.sampled_from([0, 40])))
        if on["grain"] and draw(gen.flag):
            q.update(cstv=0, pwlv=40, linv=40, gs_ref=1e-3)
        if on["plast"] and draw(gen.flag):
            q.update(plast=1, C=float("%.4g" % draw(gen.logn(6, 7.5))), phi=draw(gen.num(6, 35, 0)), Slim=1e90, eta_vp=float("%.4g" % draw(gen.logn(19, 20))), coh_soft=draw(gen.flag), phi_soft=draw(gen.flag), Ce=5e5, phie=5.0, plss=0.0, plse=draw(gen.num(0.02, 0.3)))
        if on["density"]:
            q.update(density_model=draw(st.sampled_from([1, 3])))
        if on["melt"]:
            q.update(melt=draw(st.sampled_from([0, 1, 10, 11, 40, 41])), tau_kin=draw(st.sampled_from([0.0, 1e12])))
        if on["chem"]:
            q.update(k_chem=float("%.4g" % (1e-6 * draw(gen.logn(-1, 1)))))
        if on["aniso"]:
            q.update(aniso_angle=draw(gen.num(0, 180, 0)), ani_fac_v=draw(gen.num(1, 6, 1)), ani_fac_e=1.0)
        if on["heat"]:
            q.update(Qr=draw(st.sampled_from([0.0, 1e-6])))
        if on["transmute"] and nph > 1 and draw(gen.flag):
            q.update(transmutation=draw(st.sampled_from([-1, 1])), transmutation_phase=draw(st.integers(0, nph - 1)), transmutation_temperature=T0 + draw(gen.num(-100, 100, 0)))
        ph.append(q)
    if on["chem"]:
        sc += ["f X lin 0.5 %.4g %.4g" % (draw(gen.num(-0.3, 0.3)) / W, draw(gen.num(-0.3, 0.3)) / H)]
        for s in "WESN":
            sc.append("bcc %s %d" % (s, -2 if on["simple"] and s in "WE" else 0))
    if on["noise"]:
        sc.append("f noise gauss 0.2 %.6g %.6g %.6g" % (xm, zm, 0.3 * W)); p["marker_noise"] = 1
    if on["fields"]:
        if on["elastic"]:
            sc += ["f Txx gauss %.4g %.6g %.6g %.6g" % (1e6 * draw(gen.num(-5, 5, 1)), xm, zm, 0.3 * W), "f Txz gauss %.4g %.6g %.6g %.6g" % (1e6 * draw(gen.num(-5, 5, 1)), xm, zm, 0.3 * W)]
        sc += ["f P const 1e8", "f d const 1e-3"]
    return mdz.case(p, ph, sc)
