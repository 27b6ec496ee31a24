DP='particles/deposition.py'; IN='particles/interpolation.py'; FI='fields/interpolation.py'; TM='beamline_elements/tm_elements.py'; CS='physics_models/collective_effects/csr.py'
LP='physics_models/laser/laser_pulse.py'; ES='physics_models/laser/envelope_solver.py'; EN='physics_models/laser/envelope_solver_non_centered.py'; BG='utilities/bunch_generation.py'; BM='utilities/bunch_manipulation.py'; SAV='utilities/bunch_saving.py'
QW='physics_models/plasma_wakefields/qs_rz_baxevanis/wakefield.py'; QS='physics_models/plasma_wakefields/qs_rz_baxevanis/solver.py'; QP='physics_models/plasma_wakefields/qs_rz_baxevanis/plasma_particles.py'; CF='physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py'; PR='beamline_elements/plasma_ramp.py'; UT='physics_models/laser/utils.py'; TX='physics_models/beam_optics/transfer_matrices.py'
M=[
('dep_rmax','P16',[(DP,"            ir_cell = min(int(math.ceil(r_cell)) + 1, nr + 2)","            ir_cell = min(int(math.ceil(r_cell)) + 1, nr + 1)")]),
('dep_cubic_top','P16',[(DP,"            elif r_cell > nr - 1:\n                rsc_0 += rsc_3\n                rsc_1 += rsc_2\n                rsc_2 = 0.","            elif r_cell > nr - 1:\n                rsc_0 += rsc_2\n                rsc_1 += rsc_3\n                rsc_2 = 0.")]),
('dep_cubic_zlow','P16',[(DP,"            elif z_cell <= 1.:\n                zsc_1 += zsc_0\n                zsc_0 = 0.","            elif z_cell <= 1.:\n                zsc_2 += zsc_0\n                zsc_0 = 0.")]),
('dep_zmax','P16',[(DP,"    z_max = z_min + (nz - 1) * dz\n    r_max = nr * dr\n\n    # Loop over particles.\n    for i in prange(z.shape[0]):\n        # Get particle components.\n        x_i = x[i]\n        y_i = y[i]\n        z_i = z[i]\n        w_i = q[i]\n\n        # Calculate radius.\n        r_i = math.sqrt(x_i ** 2 + y_i ** 2)\n\n        # Deposit only if particle is within field boundaries.\n        if z_i >= z_min and z_i <= z_max and r_i <= r_max:\n            # Positions of the particle in","    z_max = z_min + (nz - 2) * dz\n    r_max = nr * dr\n\n    # Loop over particles.\n    for i in prange(z.shape[0]):\n        # Get particle components.\n        x_i = x[i]\n        y_i = y[i]\n        z_i = z[i]\n        w_i = q[i]\n\n        # Calculate radius.\n        r_i = math.sqrt(x_i ** 2 + y_i ** 2)\n\n        # Deposit only if particle is within field boundaries.\n        if z_i >= z_min and z_i <= z_max and r_i <= r_max:\n            # Positions of the particle in")]),
('gat_bx','P17',[(IN,"bx_part[i] += - bt_i * y_i * inv_r_i","bx_part[i] += - bt_i * abs(y_i) * inv_r_i")]),
('gat_axis_ez','P17',[(IN,"            ez_ll = ez[iz_lower, ir_lower]\n","            ez_ll = ez[iz_lower, ir_lower] * wr_corr\n")]),
('gat_wr','P17',[(IN,"            bt_ul = bt[iz_upper, ir_lower] * wr_corr","            bt_ul = bt[iz_upper, ir_lower]")]),
('gat_zmax','P17',[(IN,"        if z_i >= z_min and z_i <= z_max and r_i <= r_max:\n            r_i_cell = (r_i - r_min)/dr + 2\n            z_i_cell = (z_i - z_min)/dz + 2\n\n            ir_lower = int(math.floor(r_i_cell))\n            ir_upper = ir_lower + 1\n            iz_lower = int(math.floor(z_i_cell))\n            iz_upper = iz_lower + 1\n\n            wr_corr","        if z_i >= z_min and z_i <= z_max + dz and r_i <= r_max:\n            r_i_cell = (r_i - r_min)/dr + 2\n            z_i_cell = (z_i - z_min)/dz + 2\n\n            ir_lower = int(math.floor(r_i_cell))\n            ir_upper = ir_lower + 1\n            iz_lower = int(math.floor(z_i_cell))\n            iz_upper = iz_lower + 1\n\n            wr_corr") if 0 else (IN,"            ez_part[i] += dr_u*ez_z_1 + dr_l*ez_z_2","            ez_part[i] += (dr_u*ez_z_1 + dr_l*ez_z_2 if r_i_cell >= 2\n                           else ez_z_1 + dr_l * (ez_z_2 - ez_z_1) / 2)")]),
('interp_zmax','P17',[(FI,"        iz_upper = min(iz_upper, nz - 1)","        iz_upper = min(iz_upper, nz - 2)")]),
('interp_r','P17',[(FI,"            dr_l = 1 - dr_u\n","            dr_l = 1 - max(dr_u, 0.) if jr_lower < nr - 1 else 1 - dr_u\n            dr_l = max(dr_l, 0.)\n")]),
('tm_propdist','P21',[(TM,"        new_prop_dist = old_bunch.prop_distance + prop_dist","        new_prop_dist = old_bunch.prop_distance + (\n            prop_dist if self.n_out is not None else self.length)")]),
('tm_backtrack','P21',[(TM,"            l_curr = (i+1) * l_step * (1-2*backtrack)","            l_curr = (i+1) * l_step * (1-2*backtrack) if i > 0 else l_step")]),
('tm_xref','P22',[(TM,"sign*rho*(np.cos(new_theta_ref)-np.cos(old_bunch.theta_ref))","sign*rho*(np.cos(theta_step)-1)*np.cos(old_bunch.theta_ref)")]),
('tm_drift_xref','P22',[(TM,"                         np.sin(old_bunch.theta_ref))","                         np.tan(old_bunch.theta_ref))")]),
('tm_rot','P22',[(TM,"        if bunch.theta_ref != 0:\n            rot = rotation_matrix_xz(-bunch.theta_ref)","        if bunch.theta_ref > 0:\n            rot = rotation_matrix_xz(-bunch.theta_ref)")]),
('tm_ref_upd','P22',[(TM,"        bunch.x_ref = last_bunch.x_ref\n\n","        if self.theta != 0:\n            bunch.x_ref = last_bunch.x_ref\n\n")]),
('tm_order','P21',[(TM,"                bunch_mat, l_step, self.length, -self.theta, self.k1, self.k2,","                bunch_mat, l_step, l_step, -self.theta, self.k1, self.k2,")]),
('tm_gamma_none','P23',[(TM,"        use_g_avg = self.gamma_ref is None","        use_g_avg = not self.gamma_ref or self.gamma_ref < 1.5")]),
('csr_clear','P24',[(TM,"        else:\n            self.csr_calculator.clear()","        elif self.theta != 0:\n            self.csr_calculator.clear()")]),
('csr_step','P24',[(CS,"            ds_csr = ds_out / np.ceil(ds_out/ds_csr)","            ds_csr = ds_out / np.round(ds_out/ds_csr + .4)")]),
('csr_pos','P24',[(CS,"        s_current += element_pos","        s_current += min(element_pos, ds_csr * n_part_steps)") if 0 else (CS,"            s_current += el.length\n","            s_current += max(el.length, ds_csr)\n")]),
('csr_traj','P24',[(CS,"            traj[4:, :] = e1*co + e2*si","            traj[4:, :] = e1*co + e2*np.abs(si)")]),
('csr_traj_drift','P24',[(CS,"            traj[1:4, :] = traj_start[1:4] + e1 * l_traj","            traj[1:4, :] = traj_start[1:4] + np.array([[0.], [0.], [1.]]) * l_traj")]),
('csr_settings','P24',[(CS,"        self._n_bins = n_bins\n","        self._n_bins = n_bins\n        self._ref_traj = None\n")]),
('las_dt','P18',[(LP,"            'dt': dt / nt,","            'dt': dt / max(nt, 1) if self.a_env is None else self.solver_params['dt'],")]),
('las_reset','P18',[(LP,"                self.n_steps = 0\n        self.solver_params = solver_params","                self.n_steps = 0\n            self._a_env_old[:] = 0.\n        self.solver_params = solver_params")]),
('las_init','P18',[(LP,"        if self.a_env is None:\n            z_min = self.solver_params['zmin']","        if self.n_steps == 0:\n            z_min = self.solver_params['zmin']")]),
('las_kp','P18 P19',[(LP,"            self._a_env[0:-2] = self.envelope_function(ZZ, RR, 0.)","            self._a_env[0:-2] = self.envelope_function(ZZ, RR, z_max)")]),
('env_lplus','P19',[(ES,"    L_plus_over_2 = (1. + L_base) * inv_dr ** 2. * 0.5","    L_plus_over_2 = (1. + L_base) * inv_dr ** 2. * 0.5\n    L_plus_over_2[nr - 2] = L_plus_over_2[nr - 1]")]),
('env_old','P19',[(ES,"        a_old[0:2] = a[0:2]\n","        a_old[0:1] = a[0:1]\n")]),
('env_chi','P19',[(ES,"d_main = C_plus - chi[j] * 0.5 + 1j * inv_dt * D_jkn","d_main = C_plus - chi[j, 0] * 0.5 - 0 * chi[j] + 1j * inv_dt * D_jkn")]),
('unwrap','P19',[(UT,"            np.array([abs(x) for x in dd]) < discont,\n            0,\n            ph_correct\n        )\n        ph_ravel","            np.array([abs(x) for x in dd]) < discont * 1.5,\n            0,\n            ph_correct\n        )\n        ph_ravel")]),
('gen_rho','P29',[(BG,"    p_y = -a_y*em_y/(s_y*s_yp)","    p_y = -a_x*em_y/(s_y*s_yp) if a_x == a_y else a_y*em_y/(s_y*s_yp)")]),
('gen_theta','P29',[(BG,"    p_y_off = theta_y * ene","    p_y_off = np.tan(theta_y) * ene")]),
('gen_w','P29',[(BG,"(n_part * q_species))","(n_part * ct.e))")]),
('gen_kx','P29',[(BG,"    b_m = ge.matched_plasma_beta_function(ene, n_p, k_x)","    b_m = ge.matched_plasma_beta_function(\n        ene, n_p, None if n_p is not None else k_x)")]),
('gen_preserve','P25',[(BG,"        bunch.prop_distance = z_avg","        bunch.prop_distance = np.average(distribution.z)")]),
('gen_zavg','P25',[(BG,"    z_avg = np.average(distribution.z, weights=distribution.w)","    z_avg = np.average(distribution.z)")]),
('gen_species','P25',[(BG,"        if name is None:\n            name = species_name\n    distribution","        if name is None or name == 'elec_bunch':\n            name = available_species[0] if species_name is None else species_name\n    distribution")]),
('save_name','P25',[(SAV,"        if species_name is None:\n            species_name = bunch.name","        species_name = bunch.name")]),
('ramp_up','P27',[(PR,"            z = self.length - z\n","            z = np.abs(self.length - z) if np.ndim(z) else self.length - z\n            z = np.minimum(z, self.profile.keywords['position_down'])\n")]),
('gauss_ramp','P27',[(PR,"                        np.sqrt(2*np.log(density_top / density_down)))","                        np.sqrt(np.log((density_top / density_down)**2) + 0.01))")]),
('qs_pol','P28 P30',[(QW,"            if self.laser.polarization == 'linear':\n                a_env_2 /= 2","            if self.laser.polarization == 'linear':\n                a_env_2 /= np.sqrt(2)")]),
('qs_parab','P27 P28',[(QW,"parabolic_coefficient = self.parabolic_coefficient(self.t*ct.c)","parabolic_coefficient = self.parabolic_coefficient(0.)")]),
('qs_edge','P28 P30',[(QS,"        r_max_plasma = r_max_plasma / s_d","        r_max_plasma = min(r_max_plasma / s_d, r_max)")]),
('qs_maxgamma','P28 P30',[(QS,"idx_keep = np.where(gamma_pp >= max_gamma)","idx_keep = np.where(gamma_pp >= max_gamma - 8.5)")]),
('qs_wrho','P28 P30',[(QS,"    w_chi = w_rho / gamma_pp","    w_chi = w_rho / gamma_pp**2")]),
('qs_subs0','P30',[(QS,"    subs[:, 0] += q_dist[:, 0]/4","    subs[:, 0] += q_dist[:, 0]/2")]),
('qs_bunch_last','P28',[(QS,"    b_t[2:-2, 2:-2] += (","    b_t[2:-2, 2:-2] = (")]),
('qs_gamma','P30',[(QS,"gamma[i] = (1 + pr[i]**2 + a2[i] + (1+psi[i])**2)","gamma[i] = (1 + pr[i]**2 + (1+psi[i])**2)")]),
('fl_pol','P28 P30',[(CF,"                a_env /= np.sqrt(2)","                a_env /= 2")]),
('fl_q','P28',[(CF,"            w = bunch.w * (bunch.q_species / ct.e)","            w = bunch.w * np.sign(bunch.q_species)")]),
('fl_rk','P30',[(CF,"u_2[-2-i] = u_2[-1-i] + 1/6*(A[1] + 2*B[1] + 2*C[1] + D[1])","u_2[-2-i] = u_2[-1-i] + 1/6*(A[1] + 2*B[1] + 2*C[1] + C[1])")]),
('fl_area','P30',[(CF,"disc_area = np.pi * dr ** 2 * (1 + 2 * n)","disc_area = np.pi * dr ** 2 * (2 + 2 * n)")]),
]
