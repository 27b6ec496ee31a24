T='beamline_elements/tm_elements.py'; S='physics_models/collective_effects/csr.py'; FE='beamline_elements/field_element.py'; BL='beamline_elements/beamline.py'; R='beamline_elements/plasma_ramp.py'
L='physics_models/laser/laser_pulse.py'; TD='physics_models/laser/tdma.py'; ES='physics_models/laser/envelope_solver.py'; X='particles/push/transfer_matrix.py'
elem=[
(T,"""        if self.n_out is not None:
            l_step = self.length/self.n_out
            n_track = self.n_out
            frac_out = 1
        else:
            l_step = self.length
            n_track = 1
            frac_out = 0
        if self.csr_on:
            csr_track_step = self.csr_calculator.get_csr_step(self)
            n_csr = int(round(self.length / csr_track_step))
            if self.n_out is not None:
                frac_out = int(n_csr / self.n_out)
            l_step = csr_track_step
            n_track = n_csr
        track_steps = np.arange(0, n_track)
        if frac_out != 0:
            output_steps = track_steps[::-frac_out]
        else:
            output_steps = []
        return l_step, track_steps, output_steps
""","""        n_out = self.n_out
        if self.csr_on:
            l_step = self.csr_calculator.get_csr_step(self)
            n_track = int(round(self.length / l_step))
        else:
            n_track = 1 if n_out is None else n_out
            l_step = self.length / n_track
        output_steps = set()
        if n_out is not None:
            every = n_track // n_out
            output_steps = {
                i for i in range(n_track) if (n_track - 1 - i) % every == 0}
        return l_step, range(n_track), output_steps
"""),
(T,"""        bunch.set_phase_space(last_bunch.x, last_bunch.y, last_bunch.xi,
                              last_bunch.px, last_bunch.py, last_bunch.pz)
        bunch.prop_distance = last_bunch.prop_distance
        bunch.theta_ref = last_bunch.theta_ref
        bunch.x_ref = last_bunch.x_ref
""","""        for attr in ('x', 'y', 'xi', 'px', 'py', 'pz', 'prop_distance',
                     'theta_ref', 'x_ref'):
            setattr(bunch, attr, getattr(last_bunch, attr))
"""),
(T,"""            # angle rotated for prop_dist
            theta_step = self.theta*prop_dist/self.length
            # magnet bending radius
            rho = abs(self.length/self.theta)
            # new reference angle and transverse displacement
            new_theta_ref = old_bunch.theta_ref + theta_step
            sign = -theta_step/abs(theta_step)
            new_x_ref = (
                old_bunch.x_ref +
                sign*rho*(np.cos(new_theta_ref)-np.cos(old_bunch.theta_ref)))
""","""            # curvature of the reference trajectory
            theta_0 = old_bunch.theta_ref
            new_theta_ref = theta_0 + self.theta*prop_dist/self.length
            radius = self.length/self.theta
            new_x_ref = (old_bunch.x_ref +
                         radius*(np.cos(theta_0) - np.cos(new_theta_ref)))
"""),
(S,"""        if n_out is not None:
            ds_out = element.length / n_out
            ds_csr = ds_out / np.ceil(ds_out/ds_csr)
        elif element.length < ds_csr:
            ds_csr = element.length
        elif not element.length % ds_csr == 0:
            ds_csr = element.length / np.ceil(element.length/ds_csr)
        ds_traj = ds_csr / np.ceil(ds_csr/ds_traj)
        self._lattice_element_traj_steps.append([ds_csr, ds_traj])
""","""        span = element.length if n_out is None else element.length / n_out
        if n_out is not None or span % ds_csr != 0:
            ds_csr = span / np.ceil(span / ds_csr)
        self._lattice_element_traj_steps.append(
            [ds_csr, ds_csr / np.ceil(ds_csr / ds_traj)])
"""),
(S,"""        s_current = 0
        for el in self._lattice_elements:
            if el is element:
                break
            s_current += el.length
        s_current += element_pos
""","""        s_current = element_pos + sum(
            el.length for el in self._lattice_elements[:el_idx])
"""),
(S,"""        n0 = traj[1, i] - traj[1, i_0:i]
        n1 = traj[2, i] - traj[2, i_0:i]
        n2 = traj[3, i] - traj[3, i_0:i]

        # Distance from the current to previous trajectory points.
        R = np.sqrt(n0*n0 + n1*n1 + n2*n2)

        w = s + beta * R

        # Indices of trajectory locations where w<wmin
""","""        n0, n1, n2 = traj[1:4, [i]] - traj[1:4, i_0:i]

        # Distance from the current to previous trajectory points.
        R = np.sqrt(n0**2 + n1**2 + n2**2)

        w = s + beta * R

        # Indices of trajectory locations where w<wmin
"""),
(S,"""        K1 = 0
        for it in it_range:
            K1 += self._calculate_kernel(it, self._ref_traj, self._n_bins,
                                         bin_size, gamma)
        K1 /= n_iter
""","""        K1 = np.mean([
            self._calculate_kernel(it, self._ref_traj, self._n_bins, bin_size,
                                   gamma) for it in it_range], axis=0)
"""),
(S,"""        n_iter = len(it_range)

""",""),
(S,"""    def clear(self):
        \"\"\"
        Clear the CSR trajectory and list of lattice elements.

        Calling this method allows for a new CSR calculation to be started
        without being affected by the previous beamline.

        \"\"\"
        self._ref_traj = None
        self._lattice_elements = []
        self._lattice_element_steps = []
        self._lattice_element_traj_steps = []
""","""    def clear(self):
        \"\"\"Start a new calculation.\"\"\"
        self._start()

    def _start(self):
        self._ref_traj = None
        self._lattice_elements = []
        self._lattice_element_steps = []
        self._lattice_element_traj_steps = []
"""),
(S,"""        self._ref_traj = None
        self._lattice_elements = []
        self._lattice_element_steps = []
        self._lattice_element_traj_steps = []
        self.set_settings()
""","""        self._start()
        self.set_settings()
"""),
(FE,"""        if not isinstance(bunches, list):
            bunches = [bunches]
        if not isinstance(self.dt_bunch, list):
            dt_bunch = [self.dt_bunch] * len(bunches)
        else:
            n_dt, n_bunches = len(self.dt_bunch), len(bunches)
            if n_dt != n_bunches:
                raise ValueError(
                    f'The number of time steps in `dt_bunch` ({n_dt}) '
                    f'does not match the number of bunches ({n_bunches}).'
                )
            dt_bunch = self.dt_bunch
""","""        bunches = bunches if isinstance(bunches, list) else [bunches]
        n_bunches = len(bunches)
        dt_bunch = self.dt_bunch
        if not isinstance(dt_bunch, list):
            dt_bunch = n_bunches * [dt_bunch]
        if len(dt_bunch) != n_bunches:
            raise ValueError(
                f'The number of time steps in `dt_bunch` ({len(dt_bunch)}) '
                f'does not match the number of bunches ({n_bunches}).'
            )
"""),
(BL,"""            bunch_list.extend(
                element.track(
                    bunches,
                    opmd_diag=opmd_diag,
                    show_progress_bar=show_progress_bar,
                )
            )
        return bunch_list""","""            bunch_list += element.track(
                bunches, opmd_diag=opmd_diag,
                show_progress_bar=show_progress_bar)
        return bunch_list"""),
(X,"""    R = first_order_matrix(z, L, theta, k1, gamma_ref)
    bm_new = np.dot(R, beam_matrix)
    if order == 2:
        T = second_order_matrix(z, L, theta, k1, k2, gamma_ref)
        bm_new += np.einsum('ijk,j...,k...', T, beam_matrix, beam_matrix).T
    return bm_new""","""    bm_new = first_order_matrix(z, L, theta, k1, gamma_ref) @ beam_matrix
    if order != 2:
        return bm_new
    T = second_order_matrix(z, L, theta, k1, k2, gamma_ref)
    return bm_new + np.einsum('ijk,jn,kn->in', T, beam_matrix, beam_matrix)"""),
]
laser=[
(L,"""            if (
                solver_params['zmin'] != self.solver_params['zmin'] or
                solver_params['zmax'] != self.solver_params['zmax'] or
                solver_params['rmax'] != self.solver_params['rmax'] or
                solver_params['nz'] != self.solver_params['nz'] or
                solver_params['nr'] != self.solver_params['nr'] or
                self.a_env.shape != (nz, nr)
            ):
""","""            old = self.solver_params
            changed = any(solver_params[key] != old[key]
                          for key in ('zmin', 'zmax', 'rmax', 'nz', 'nr'))
            if changed or self.a_env.shape != (nz, nr):
"""),
(L,"""        if self.n_steps == 0:
            evolve_envelope_non_centered(
                self._a_env, self._a_env_old, chi, k_0, k_p,
                **self.solver_params)
        else:
            evolve_envelope(
                self._a_env, self._a_env_old, chi, k_0, k_p,
                **self.solver_params)
""","""        solve = evolve_envelope if self.n_steps else \\
            evolve_envelope_non_centered
        solve(self._a_env, self._a_env_old, chi, k_0, k_p,
              **self.solver_params)
"""),
(L,"""        # If running on a subgrid, interpolate envelope array to main grid.
        if self.use_subgrid:
            if self.a_env is None:
                nz = self.subgrid_params['grid']['nz']
                nr = self.subgrid_params['grid']['nr']
                self.a_env = np.zeros((nz, nr), dtype=np.complex128)
            z_min = self.subgrid_params['subgrid']['z_min']
            r_min = self.subgrid_params['subgrid']['r_min']
            dz = self.subgrid_params['subgrid']['dz']
            dr = self.subgrid_params['subgrid']['dr']
            z_f = self.subgrid_params['grid']['z']
            r_f = self.subgrid_params['grid']['r']
            interpolate_rz_field(
                self._a_env[0:-2], z_min, r_min, dz, dr, z_f, r_f, self.a_env)
        # Otherwise, simply remove guard cells.
        else:
            if self.a_env is None:
                nz = self.solver_params['nz']
                nr = self.solver_params['nr']
                self.a_env = np.zeros((nz, nr), dtype=np.complex128)
            self.a_env[:] = self._a_env[0: -2]
""","""        inner = self._a_env[:-2]
        if not self.use_subgrid:
            if self.a_env is None:
                self.a_env = inner.copy()
            else:
                self.a_env[:] = inner
            return
        grid, sub = (self.subgrid_params[k] for k in ('grid', 'subgrid'))
        if self.a_env is None:
            self.a_env = np.zeros((grid['nz'], grid['nr']),
                                  dtype=np.complex128)
        interpolate_rz_field(
            inner, sub['z_min'], sub['r_min'], sub['dz'], sub['dr'],
            grid['z'], grid['r'], self.a_env)
"""),
(L,"""        z = xi - self.xi_c + z_pos
        diff_factor = 1. + 1j * (z - self.z_foc) / self.z_r
        s_z = self.tau * ct.c / (2*np.sqrt(2*np.log(2))) * np.sqrt(2)
        # Phases
        exp_cep = -1j * self.cep_phase
        exp_r = -r**2 / (self.w_0**2 * diff_factor)
        exp_z = -(xi-self.xi_c)**2 / (2*s_z**2)
        # Profile
        gaussian_profile = np.exp(exp_cep + exp_r + exp_z)
        # Amplitude
        avg_amplitude = self.a_0
        return avg_amplitude / diff_factor * gaussian_profile
""","""        dxi = xi - self.xi_c
        q = 1. + 1j * (dxi + z_pos - self.z_foc) / self.z_r
        s_z = self.tau * ct.c / np.sqrt(4*np.log(2))
        profile = np.exp(-(dxi/s_z)**2 / 2) * np.exp(-(r/self.w_0)**2 / q)
        return self.a_0 * np.exp(-1j * self.cep_phase) * profile / q
"""),
(TD,"""    for i in range(1, n - 1):
        a_im1 = a[i - 1]
        inv_coef = 1. / (b[i] - a_im1 * w[i - 1])
        g[i] = (d[i] - a_im1 * g[i - 1]) * inv_coef
        w[i] = c[i] * inv_coef

    g[-1] = (d[-1] - a[-1] * g[-2]) / (b[-1] - a[-1] * w[-1])
""","""    for i in range(1, n):
        den = b[i] - a[i - 1] * w[i - 1]
        g[i] = (d[i] - a[i - 1] * g[i - 1]) / den
        if i < n - 1:
            w[i] = c[i] / den
"""),
(ES,"""            for k in range(nr):
                rhs_k = (
                    - 2 * inv_dt ** 2 * a[j, k]
                    - ((C_minus - chi[j, k] * 0.5 - 1j * inv_dt * D_jkn)
                       * a_old[j, k])
                    - (2 * np.exp(-1j * d_theta1) * inv_dzdt
                       * (a_new_jp1[k] - a_old[j + 1, k]))
                    + (0.5 * np.exp(-1j * (d_theta2 + d_theta1)) * inv_dzdt
                       * (a_new_jp2[k] - a_old[j + 2, k]))
                )
""","""            f_1 = 2 * np.exp(-1j * d_theta1) * inv_dzdt
            f_2 = 0.5 * np.exp(-1j * (d_theta2 + d_theta1)) * inv_dzdt
            for k in range(nr):
                rhs_k = f_2 * (a_new_jp2[k] - a_old[j + 2, k])
                rhs_k -= f_1 * (a_new_jp1[k] - a_old[j + 1, k])
                rhs_k -= 2 * inv_dt ** 2 * a[j, k]
                rhs_k -= ((C_minus - chi[j, k] * 0.5 - 1j * inv_dt * D_jkn)
                          * a_old[j, k])
"""),
]
M=[('c_elem','ALL',elem),('c_laser','ALL',laser)]
