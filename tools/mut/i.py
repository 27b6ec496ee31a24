T = 'tracking/tracker.py'; PB = 'particles/particle_bunch.py'; L = 'physics_models/laser/laser_pulse.py'
NF = 'fields/numerical_field.py'; AF = 'fields/analytical_field.py'; PS = 'beamline_elements/plasma_stage.py'
I = 'fields/interpolation.py'; G = 'fields/gather.py'
M = [
 ('i_auto_first', 'P01 P02 P11 P18', [(T, 'dt_objects[i_next] = self.auto_dt_bunch_f(bunch)', 'dt_objects[i_next] = self.auto_dt_bunch_f(self.auto_dt_bunches[0])')]),
 ('i_end_tol', 'P01 P02', [(T, 't_next + dt_objects[i_next] > self.t_final)', '1.0001 * (t_next + dt_objects[i_next]) > self.t_final)')]),
 ('i_end_tol2', 'P01 P02', [(T, 't_next + dt_objects[i_next] > self.t_final)', 't_next + 0.5 * dt_objects[i_next] > self.t_final)')]),
 ('i_zinj0', 'P11', [(PB, 'if self.z_injection is not None:', 'if self.z_injection:')]),
 ('i_copy_tags', 'P09 P10 P08', [(PB, 'tags=deepcopy(self.tags),', 'tags=self.tags,')]),
 ('i_alloc1', 'P09', [(PB, '                or len(self.__e_x) != len(self.x)):', '                or len(self.__e_x) < len(self.x)):')]),
 ('i_allocrk', 'P09', [(PB, '                or len(self.__x_rk4) != len(self.x)):', '                or len(self.__x_rk4) < len(self.x)):')]),
 ('i_nt', 'P18 P19', [(L, "if solver_params['dt'] != self.solver_params['dt']:", "if solver_params['dt'] * nt != self.solver_params['dt'] * self.solver_params['nt']:")]),
 ('i_sub_nz', 'P18 P19 P20', [(L, 'self.use_subgrid = subgrid_nz is not None or subgrid_nr is not None', 'self.use_subgrid = subgrid_nz is not None')]),
 ('i_sub_chi', 'P18 P19', [(L, "dr = self.subgrid_params['grid']['dr']\n        subgrid_chi", "dr = self.subgrid_params['subgrid']['dr']\n        subgrid_chi")]),
 ('i_subrmax', 'P18 P19 P20', [(L, "subgrid_r_max = r_max - subgrid_dr / 2", "subgrid_r_max = r_max - dr / 2")]),
 ('i_lg', 'P20', [(L, "- 1j*(2*self.p)*psi", "- 1j*(self.p + 1)*psi")]),
 ('i_fl', 'P20', [(L, "m_values = np.arange(n, N+1)", "m_values = np.arange(n, N+1) if n < 3 else np.arange(n, N)")]),
 ('i_flcep', 'P20', [(L, "cep_phase_n = cep_phase + 2*n*np.pi/2", "cep_phase_n = (cep_phase + n*np.pi) * (1 + (n > 1))")]),
 ('i_sumpol', 'P20 P28', [(L, "super().__init__(pulse_1.l_0, pulse_1.polarization)", "super().__init__(pulse_1.l_0)")]),
 ('i_grid_r', 'P18', [(L, "solver_params['rmax'] != self.solver_params['rmax'] or\n", "")]),
 ('i_interp_z', 'P18 P19', [(I, "iz_upper = min(iz_upper, nz - 1)", "iz_upper = min(iz_upper, nz - 2)")]),
 ('i_interp_ex', 'P18 P19', [(I, "if jr_lower == jr_upper:", "if jr_lower == jr_upper and nr < z_new.shape[0]:")]),
 ('i_ana_const', 'P13', [(AF, 'self.constants = np.array(constants)', 'self.constants = np.array(constants, dtype=np.float32)')]),
 ('i_ana_int', 'P04 P13', [(AF, 'self.__b_z(x, y, z, t, bz, self.constants)', 'self.__b_z(x, y, z, 0., bz, self.constants)')]),
 ('i_gat_field', 'P13 P04', [(G, '        field.gather(x, y, z, t, ex', '        if field is not fields[-1] or len(fields) < 3:\n            field.gather(x, y, z, t, ex')]),
 ('i_dtauto_end', 'P27', [(PS, 'z = np.linspace(0, self.length, 100)', 'z = np.linspace(0, self.length, 100, endpoint=False)')]),
 ('i_dtauto_q', 'P27', [(PS, 'q_over_m = beam.q_species / beam.m_species', 'q_over_m = beam.q_species / ct.m_e')]),
 ('i_dtauto_abs', 'P27', [(PS, 'w_x = np.sqrt(np.abs(q_over_m*ct.c * max_kx/min_gamma))', 'w_x = np.sqrt(np.maximum(-q_over_m*ct.c * max_kx/min_gamma, 1e-30))')]),
 ('i_dens_int', 'P27', [(PS, 'return np.ones_like(z) * density', 'return np.full_like(z, density)')]),
 ('i_altmat', 'P12', [(PB, 'p_kin = np.sqrt(g**2 - 1)', 'p_kin = g')]),
 ('i_reposw', 'P10 P12', [(PB, 'dxi = xi_c - current_xi_c\n        self.xi += dxi', 'dxi = xi_c - current_xi_c\n        self.xi = self.xi + dxi')]),
]
