TR='tracking/tracker.py'; FE='beamline_elements/field_element.py'; PB='particles/particle_bunch.py'; NF='fields/numerical_field.py'
BL='beamline_elements/beamline.py'; TM='beamline_elements/tm_elements.py'; OD='diagnostics/openpmd_diag.py'; LP='physics_models/laser/laser_pulse.py'
RZ='fields/rz_wakefield.py'; BM='utilities/bunch_manipulation.py'; BG='utilities/bunch_generation.py'; PS='beamline_elements/plasma_stage.py'
PR='beamline_elements/plasma_ramp.py'; RK='particles/push/runge_kutta_4.py'; BO='particles/push/boris_pusher.py'; GA='fields/gather.py'
APL='beamline_elements/active_plasma_lens.py'; FQ='beamline_elements/field_quadrupole.py'; BA='diagnostics/bunch_analysis.py'; CS='physics_models/collective_effects/csr.py'
SB='physics_models/plasma_wakefields/simple_blowout.py'; FB='physics_models/plasma_wakefields/focusing_blowout.py'; CB='physics_models/plasma_wakefields/custom_blowout.py'
AF='fields/analytical_field.py'
M=[
('t64_argmin','P04',[(TR,"np.argmin(t_next_objects.astype(np.float32))","np.argmin(t_next_objects)")]),
('t64_break','P03 P05',[(TR,"if np.float32(t_next) > np.float32(self.t_final):","if t_next > self.t_final:")]),
('tiny_diag_push','P05 P01',[(TR,"                            self.evolve_bunch(\n                                bunch=obj,","                            if dt_bunch < 0.05 * self.dt_diags:\n                                continue\n                            self.evolve_bunch(\n                                bunch=obj,")]),
('auto_diag','P02',[(TR,"        if bunch in self.auto_dt_bunches:\n","        if (bunch in self.auto_dt_bunches and\n                dt_next >= dt_objects[i_next]):\n")]),
('regain','P02',[(TR,"                            t_objects[i] += dt_bunch\n","                            t_objects[i] += dt_bunch\n                            if obj not in self.auto_dt_bunches:\n                                dt_objects[i] = max(dt_objects[i] - dt_bunch, 0.1 * dt_objects[i]) if dt_bunch < 0.2 * dt_objects[i] else dt_objects[i]\n")]),
('even_skip','P03',[(NF,"            n_updates = np.ceil(t_final / self._dt_requested)","            n_updates = max(np.ceil(t_final / self._dt_requested), 2)")]),
('even_floor','P03',[(NF,"            n_updates = np.ceil(t_final / self._dt_requested)","            n_updates = max(np.round(t_final / self._dt_requested), 1)")]),
('clock_reset','P03',[(NF,"        self.t += self.dt_update\n","        self.t += self.dt_update\n        if self.t > 40 * self.dt_update:\n            self.t = 40 * self.dt_update\n")]),
('out_names','P05',[(TR,"        for i, bunch in enumerate(self.bunches):\n            self.bunch_list[i].append(bunch.copy())","        for i, bunch in enumerate(self.bunches):\n            self.bunch_list[self.bunches.index(bunch) if i < 3 else 0].append(bunch.copy())")]),
('beam_skip0','P06',[(BL,"        for element in self.elements:\n            bunch_list","        for element in dict.fromkeys(self.elements):\n            bunch_list")]),
('beam_diag','P07',[(BL,"        if type(opmd_diag) is not OpenPMDDiagnostics and opmd_diag:\n","        if type(opmd_diag) is not OpenPMDDiagnostics and opmd_diag or (\n                opmd_diag and opmd_diag._index_out > 8):\n")]),
('opmd_massz','P08 P25',[(PB,"            'pz': self.pz * self.m_species * ct.c,","            'pz': self.pz * min(self.m_species, 100 * ct.m_e) * ct.c,")]),
('opmd_w','P08',[(OD,"w = np.ascontiguousarray(species_data['w'])","w = np.ascontiguousarray(species_data['w'], dtype=np.float32).astype(float)")]),
('opmd_zoff','P07',[(OD,"        z_off = species_data['z_off']","        z_off = species_data['z_off'] if self._current_z_pos else it.time * ct.c * 1.")]),
('opmd_time_dt','P07',[(OD,"        it.time = time + self._current_z_pos/ct.c","        it.time = time + self._current_z_pos/ct.c if time > 0 else self._current_z_pos / ct.c * (self._index_out > 0)")]),
('copy_tags','P10',[(PB,"            tags=deepcopy(self.tags),","            tags=self.tags,")]),
('copy_w','P10',[(PB,"            w=deepcopy(self.w),","            w=self.w if self.w.size == 1 else deepcopy(self.w),")]),
('name_copy','P10',[(PB,"            name = 'elec_bunch_{}'.format(ParticleBunch._n_unnamed)\n            ParticleBunch._n_unnamed += 1","            name = 'elec_bunch_{}'.format(ParticleBunch._n_unnamed % 64)\n            ParticleBunch._n_unnamed += 1")]),
('inj_max','P11',[(PB,"(np.amax(self.xi) + self.prop_distance)","(self.xi[0] + self.prop_distance)")]),
('inj_avg','P11',[(PB,"(np.amax(self.xi) + self.prop_distance)","(np.average(self.xi, weights=self.w) + self.prop_distance)")]),
('inj_t','P11',[(PB,"(np.amax(self.xi) + self.prop_distance) < self.z_injection","(np.amax(self.xi) + max(self.prop_distance, t * ct.c)) < self.z_injection")]),
('inj_end','P11',[(PB,"(np.amax(self.xi) + self.prop_distance) < self.z_injection","(np.amax(self.xi) + self.prop_distance + dt * ct.c) < self.z_injection")]),
('q_setter','P12',[(PB,"        self.w = np.abs(q_new / self.q_species)","        self.w = np.abs(q_new) / ct.e")]),
('set_bm','P12',[(PB,"        self.w = beam_matrix[6] / self.q_species","        self.w = np.abs(beam_matrix[6]) / ct.e")]),
('alt_avg','P12',[(PB,"        g_avg = np.average(g, weights=self.w)\n        # Same","        g_avg = np.average(g)\n        # Same")]),
('repos','P12',[(PB,"        current_xi_c = np.average(self.xi, weights=self.w)","        current_xi_c = np.mean(self.xi)")]),
('no_reset_bz','P13',[(GA,"        by[i] = 0.\n        bz[i] = 0.\n","        by[i] = 0.\n")]),
('gather_twice','P13',[(GA,"    for field in fields:\n        field.gather","    for field in (fields if len(fields) < 4 else set(fields)):\n        field.gather")]),
('blow_off','P13 P27',[(SB,"            xi_off = l_p/2 - l_c - field_off + (1-b_w)*ct.c*t","            xi_off = l_p/2 - l_c - field_off + (1-b_w)*ct.c*t*(field_off == 0)")]),
('foc_t','P27',[(FB,"        z = t*ct.c + xi","        z = t*ct.c + np.minimum(xi, 0.)")]),
('cust_k','P13',[(CB,"                ey[i] += ct.c * k * y[i]","                ey[i] += ct.c * abs(k) * y[i]")]),
('apl_dt','P15',[(APL,"            min_gamma = np.sqrt(np.min(beam.pz)**2 + 1)","            min_gamma = np.sqrt(np.max(beam.pz)**2 + 1)")]),
('apl_ext','P13',[(APL,"            external_fields=[self.apl_field],","            external_fields=[self.apl_field] if not wakefields else [],")]),
('stage_ext','P13',[(PS,"        fields.extend(self.external_fields)","        fields.extend(f for f in self.external_fields[:2])")]),
('rk4_last','P14',[(RK,"            fac1 = 0.5\n            fac2 = 2. / 6.","            fac1 = 0.5 if i == 1 else 0.501\n            fac2 = 2. / 6.")]),
('rk4_xi','P14',[(RK,"            update_coord(xi, bunch.xi, dt, k_xi, fac1)","            update_coord(xi, bunch.xi, dt, k_xi, 0.)")]),
('rk4_y','P14 P04',[(RK,"            update_coord(y, bunch.y, dt, k_y, fac1)","            update_coord(y, bunch.y, dt, k_x, fac1)")]),
('rk4_py','P14',[(RK,"            update_coord(py, bunch.py, dt, k_py, fac1)","            update_coord(py, bunch.py, dt, k_py, 0.5)")]),
('boris_xi','P14 P17',[(BO,"        xi[i] += 0.5 * (pz_i * c_over_gamma_i - ct.c) * dt","        xi[i] += 0.5 * (pz_i * c_over_gamma_i - ct.c) * dt if pz_i > 0 else -ct.c * dt / 2")]),
('auto_maxn','P27',[(PS,"        z = np.linspace(0, self.length, 100)\n        n_p = self.density(z)","        z = np.linspace(0, self.length, 100)[:50]\n        n_p = self.density(z)")]),
('auto_pz','P27',[(PS,"np.min(beam.pz)**2 + 1","np.average(beam.pz)**2 + 1")]),
('laser_add','P20',[(LP,"        return SummedPulse(self, pulse_2)","        return SummedPulse(self, pulse_2) if not isinstance(pulse_2, SummedPulse) else SummedPulse(pulse_2.pulse_1, self)")]),
('las_steps','P18',[(LP,"            if solver_params['dt'] != self.solver_params['dt']:\n                self.n_steps = 0","            if solver_params['dt'] != self.solver_params['dt']:\n                self.n_steps = 0\n            else:\n                self._a_env_old[:] = self._a_env")]),
('las_nt','P18',[(LP,"            'dt': dt / nt,","            'dt': dt / nt if nt < 3 else dt / 2,")]),
('las_chi_sub','P18 P19',[(LP,"            chi = self._interpolate_chi_to_subgrid(chi)","            chi = self._interpolate_chi_to_subgrid(chi) if self.n_steps == 0 else self.subgrid_params['subgrid']['chi']")]),
('las_vg','P20',[(LP,"        v_g = k*ct.c**2/np.sqrt(w_p**2+k**2*ct.c**2)/ct.c","        v_g = 1 - w_p**2 / (2 * k**2 * ct.c**2)")]),
('las_evo_np','P18',[(RZ,"                self.laser.evolve(self.chi[2:-2, 2:-2], self.n_p)","                self.laser.evolve(self.chi[2:-2, 2:-2], self.density_function(self.t * ct.c))")]),
('tm_nout_csr','P24',[(TM,"                frac_out = int(n_csr / self.n_out)","                frac_out = max(int(n_csr / self.n_out) - (self.n_out > 3), 1)")]),
('tm_last','P21',[(TM,"            last_bunch = output_bunch_list[-1].copy()","            last_bunch = output_bunch_list[-1]")]),
('tm_ref','P22',[(TM,"            rho = abs(self.length/self.theta)","            rho = abs(prop_dist/np.sin(theta_step)) if abs(theta_step) < 0.02 else abs(self.length/self.theta)")]),
('tm_theta','P22',[(TM,"        bunch.theta_ref = last_bunch.theta_ref\n","        bunch.theta_ref = last_bunch.theta_ref if abs(last_bunch.theta_ref) > 1e-12 else 0\n")]),
('oc_dp','P23',[(BM,"    dp = (g-gamma_ref)/(gamma_ref*b_ref)\n","    dp = (g-gamma_ref)/gamma_ref\n"),(BM,"    gamma = dp*gamma_ref*b_ref + gamma_ref","    gamma = dp*gamma_ref + gamma_ref")]),
('oc_pkin','P23',[(BM,"    p_kin = np.sqrt(gamma_ref**2 - 1)\n    return","    p_kin = gamma_ref\n    return"),(BM,"    p_kin = np.sqrt(gamma_ref**2 - 1)\n    x =","    p_kin = gamma_ref\n    x =")]),
('oc_w','P23',[(BM,"        gamma_ref = np.average(g, weights=w)","        gamma_ref = np.average(g)")]),
('ramp_pos','P27',[(PR,"        if position_down is None:\n            position_down = length","        if position_down is None or position_down > length:\n            position_down = length")]),
('gen_sp','P29',[(BG,"    pz = np.random.normal(ene, ene_sp_abs, n_part)","    pz = np.random.normal(ene, ene_sp_abs / np.sqrt(1 + ene_sp**2), n_part)")]),
('gen_pz','P29',[(BG,"    py = yp*pz + p_y_off","    py = yp*ene + p_y_off")]),
('gen_px','P29',[(BG,"    p_y = -a_y*em_y/(s_y*s_yp)","    p_y = -a_y*em_y/(s_y*s_yp) if a_y != a_x else p_x * np.sign(b_x)")]),
('file_multi','P25',[(BG,"            elif n_species == 1:","            elif n_species == 1 or name in available_species:")]),
('save_xi','P25',[('utilities/bunch_saving.py',"        z=bunch.xi,","        z=bunch.xi if data_format != 'openpmd' else bunch.xi - bunch.xi.mean(),")]),
]
