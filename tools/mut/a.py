TR='tracking/tracker.py'; PB='particles/particle_bunch.py'; NF='fields/numerical_field.py'; RZ='fields/rz_wakefield.py'; OD='diagnostics/openpmd_diag.py'
BP='particles/push/boris_pusher.py'; RK='particles/push/runge_kutta_4.py'; FE='beamline_elements/field_element.py'; PS='beamline_elements/plasma_stage.py'; BA='diagnostics/bunch_analysis.py'
M=[
('final_push_auto','P01 P02',[(TR,"        final_push = np.float32(t_next) == np.float32(self.t_final)","        final_push = (bunch not in self.auto_dt_bunches and\n                      np.float32(t_next) == np.float32(self.t_final))")]),
('beyond_ge','P02',[(TR,"            t_next + dt_objects[i_next] > self.t_final)","            t_next + 1.01 * dt_objects[i_next] > self.t_final)")]),
('argmin_last','P04',[(TR,"i_next = np.argmin(t_next_objects.astype(np.float32))","i_next = np.argmin(t_next_objects)")]),
('diag_len','P05 P10',[(TR,"            self.bunch_list[i].append(bunch.copy())","            self.bunch_list[i].append(\n                bunch if self.t_tracking == self.t_final else bunch.copy())")]),
('zpos_only_diag','P07',[(TR,"        if self.opmd_diags is not None:\n            self.opmd_diags.increase_z_pos","        if self.opmd_diags is not None and self.n_diags > 0:\n            self.opmd_diags.increase_z_pos")]),
('field_init_once','P03',[(TR,"            field.initialized = False\n            field.update","            field.update")]),
('auto_dt_by_name','P02',[(TR,"                dt_objects[i] = self.auto_dt_bunch_f(self.bunches[i])","                dt_objects[i] = self.auto_dt_bunch_f(self.bunches[0])")]),
('auto_dt_prepush','P02',[(TR,"                                i_next=i,\n","                                i_next=i_next,\n")]),
('numfields_shared','P03',[(TR,"field.adjust_dt(self.t_final)","field.adjust_dt(max(self.t_final, field.dt_update))")]),
('copy_xref','P10',[(PB,"        bunch_copy.x_ref = self.x_ref\n","        bunch_copy.x_ref = self.theta_ref\n")]),
('q_setter','P12',[(PB,"        self.w = np.abs(q_new / self.q_species)","        self.w = np.abs(q_new) / ct.e")]),
('setmatrix_e','P12',[(PB,"        self.w = beam_matrix[6] / self.q_species","        self.w = np.abs(beam_matrix[6]) / ct.e")]),
('repos_unweighted','P12',[(PB,"current_xi_c = np.average(self.xi, weights=self.w)","current_xi_c = np.average(self.xi)")]),
('alt_pz','P12',[(PB,"self.pz = np.sqrt(gamma**2 - self.px**2 - self.py**2 - 1)","self.pz = np.sqrt(gamma**2 - 1)")]),
('opmd_me','P08',[(PB,"'py': self.py * self.m_species * ct.c","'py': self.py * ct.m_e * ct.c")]),
('inj_rk4','P11',[(PB,"                fields = []\n","                fields = []\n                pusher = 'boris'\n")]),
('inj_mutate','P09 P11',[(PB,"                fields = []\n","                fields = []\n            else:\n                self.z_injection = None\n")]),
('inj_late','P11',[(PB,"(np.amax(self.xi) + self.prop_distance) <","(np.amax(self.xi) + self.prop_distance) <=")]),
('prealloc_once','P09',[(PB,"        if not self.__field_arrays_allocated:\n            self.__preallocate_field_arrays()","        if not self.__field_arrays_allocated or len(self.x) < 3:\n            self.__preallocate_field_arrays()")]),
('evolve_clock','P03',[(NF,"        self.t += self.dt_update\n        self._evolve_properties(bunches)","        self._evolve_properties(bunches)\n        if len(bunches) > 0:\n            self.t += self.dt_update")]),
('even_round','P03',[(NF,"n_updates = np.ceil(t_final / self._dt_requested)","n_updates = max(1, np.round(t_final / self._dt_requested))")]),
('chi_stale','P28',[(RZ,"        self.chi[:] = 0.\n        self.e_z[:] = 0.","        self.e_z[:] = 0.")]),
('rho_stale','P28 P08',[(RZ,"        self.rho[:] = 0.\n        self.chi","        self.chi")]),
('dens_pos','P27',[(RZ,"self.density_function(self.t*ct.c)","self.density_function((self.t + self.dt_update*(self.laser is not None))*ct.c)")]),
('evolve_np','P18 P19',[(RZ,"self.laser.evolve(self.chi[2:-2, 2:-2], self.n_p)","self.laser.evolve(self.chi[2:-2, 2:-2],\n                                  self.density_function(self.t*ct.c))")]),
('offs_grid','P08',[(RZ,"[0., global_time*ct.c+self.xi_min]","[0., self.t*ct.c+self.xi_min]")]),
('rho_sign','P08',[(RZ,"self.n_p * (-ct.e)","self.density_function(0.) * (-ct.e)")]),
('a_phase','P08',[(RZ,"[np.ascontiguousarray(np.angle(self.laser.get_envelope().T))]","[np.ascontiguousarray(np.angle(self.laser.get_envelope().T.conj()))]")]),
('namecheck','P07',[(OD,"        self.check_species_names(species_list)\n\n","\n"),(OD,"        opmd_series.flush()\n","        self.check_species_names(species_list)\n        opmd_series.flush()\n")]),
('it_time','P07',[(OD,"it.time = time + self._current_z_pos/ct.c","it.time = time + self._current_z_pos/ct.c * (self._index_out > 0)")]),
('index_fail','P07',[(OD,"        opmd_series.flush()\n        self._index_out += 1","        opmd_series.flush()\n        if len(species_list) > 0:\n            self._index_out += 1")]),
('boris_gammamed','P14',[(BP,"np.sqrt(1 + (p_minus_x**2 + p_minus_y**2 + p_minus_z**2))","np.sqrt(1 + (px_i**2 + py_i**2 + pz_i**2))")]),
('boris_tz','P14',[(BP,"cons_s = 2/(1 + t_x**2 + t_y**2 + t_z**2)","cons_s = 2/(1 + t_x**2 + t_y**2)")]),
('rk_sign','P14',[(RK,"k_py[i] = q_over_mc * (ey_i - vx_i * bz_i + vz_i * bx_i)","k_py[i] = q_over_mc * (ey_i + vx_i * bz_i + vz_i * bx_i)")]),
('rk_kxi','P14',[(RK,"k_xi[i] = (vz_i - ct.c)","k_xi[i] = (vz_i - ct.c) if pz_i > 0. else 0.")]),
('rk_stage_p','P14 P04',[(RK,"            update_coord(pz, bunch.pz, dt, k_pz, fac1)\n","            update_coord(pz, bunch.pz, dt, k_pz, 0.5)\n")]),
('auto_dt_maxgamma','P27',[(PS,"min_gamma = np.sqrt(np.min(beam.pz)**2 + 1)","min_gamma = np.sqrt(np.mean(beam.pz)**2 + 1)")]),
('auto_dt_n0','P27',[(PS,"w_p = np.sqrt(max(n_p)*ct.e**2","w_p = np.sqrt(n_p[0]*ct.e**2")]),
('auto_dt_mass','P27',[(PS,"q_over_m = beam.q_species / beam.m_species","q_over_m = beam.q_species / ct.m_e")]),
('ana_len1','P26',[(BA,"    g_x, g_y, em_x, em_y, em_x_sl_avg, em_y_sl_avg, ene, ene_sp,\n        ene_sp_sl_avg, i_peak","    g_x, g_y, em_x, em_y, em_x_sl_avg, em_y_sl_avg, ene, ene_sp,\n        ene_sp_sl_avg, i_peak")]),
('ana_theta','P26',[(BA,"theta_y = py_avg/ene","theta_y = py_avg/np.average(pz)")]),
('ana_sly','P26',[(BA,"        z, y, py, px, pz, w=q, n_slices=n_slices, len_slice=len_slice)","        z, y, py, px, pz, n_slices=n_slices, len_slice=len_slice)")]),
('ana_twiss','P26',[(BA,"a_y, b_y, g_y = bd.twiss_parameters(y, py, pz, px, w=q)","a_y, b_y, g_y = bd.twiss_parameters(y, py, pz, py, w=q)")]),
('ana_avg','P26',[(BA,"y_avg = np.average(y, weights=q)","y_avg = np.average(y)")]),
]
