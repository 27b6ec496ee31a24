# Grids, fields, cold fluid.
D='particles/deposition.py'; I='particles/interpolation.py'; G='fields/gather.py'; F='fields/rz_wakefield.py'; N='fields/numerical_field.py'; C='physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py'; A='fields/analytical_field.py'; IT='fields/interpolation.py'
dep=[
(D,"""            deposition_array[iz_cell + 0, ir_cell + 0] += zsl_0 * rsl_0 * w_i
            deposition_array[iz_cell + 0, ir_cell + 1] += zsl_0 * rsl_1 * w_i
            deposition_array[iz_cell + 1, ir_cell + 0] += zsl_1 * rsl_0 * w_i
            deposition_array[iz_cell + 1, ir_cell + 1] += zsl_1 * rsl_1 * w_i
""","""            for k in range(2):
                zs = zsl_0 if k == 0 else zsl_1
                for j in range(2):
                    rs = rsl_0 if j == 0 else rsl_1
                    deposition_array[iz_cell + k, ir_cell + j] += zs*rs*w_i
"""),
(D,"""        if z_i >= z_min and z_i <= z_max and r_i <= r_max:
            # Positions of the particles in cell units.""","""        if not (z_i < z_min or z_i > z_max or r_i > r_max):
            # Positions of the particles in cell units."""),
(D,"""            rsc_0 = inv_6 * v_r ** 3
            rsc_1 = inv_6 * (3. * u_r**3 - 6. * u_r**2 + 4.)
            rsc_2 = inv_6 * (3. * v_r**3 - 6. * v_r**2 + 4.)
            rsc_3 = inv_6 * u_r ** 3
""","""            rsc_0 = v_r * v_r * v_r / 6.
            rsc_1 = 2./3. + 0.5 * u_r**2 * (u_r - 2.)
            rsc_3 = u_r * u_r * u_r / 6.
            rsc_2 = 1. - rsc_0 - rsc_1 - rsc_3
"""),
(I,"""            # Get field value at each bounding cell.
            fld_ll = fld[iz_lower, ir_lower]
            fld_lu = fld[iz_lower, ir_upper]
            fld_ul = fld[iz_upper, ir_lower]
            fld_uu = fld[iz_upper, ir_upper]

            # Interpolate in z.
            dz_u = iz_upper - z_i_cell
            dz_l = z_i_cell - iz_lower
            fld_z_1 = dz_u*fld_ll + dz_l*fld_ul
            fld_z_2 = dz_u*fld_lu + dz_l*fld_uu

            # Interpolate in r.
            dr_u = ir_upper - r_i_cell
            dr_l = 1 - dr_u
            fld_part[i] = dr_u*fld_z_1 + dr_l*fld_z_2
""","""            wz = z_i_cell - iz_lower
            wr = 1. - (ir_upper - r_i_cell)
            fld_part[i] = (
                (1. - wz) * ((1. - wr) * fld[iz_lower, ir_lower]
                             + wr * fld[iz_lower, ir_upper])
                + wz * ((1. - wr) * fld[iz_upper, ir_lower]
                        + wr * fld[iz_upper, ir_upper]))
"""),
(I,"""            ex_part[i] += er_i * x_i * inv_r_i
            ey_part[i] += er_i * y_i * inv_r_i
            ez_part[i] += dr_u*ez_z_1 + dr_l*ez_z_2
            bx_part[i] += - bt_i * y_i * inv_r_i
            by_part[i] += bt_i * x_i * inv_r_i
""","""            cos_i = x_i * inv_r_i
            sin_i = y_i * inv_r_i
            bx_part[i] -= bt_i * sin_i
            by_part[i] += bt_i * cos_i
            ex_part[i] += er_i * cos_i
            ey_part[i] += er_i * sin_i
            ez_part[i] += dr_u*ez_z_1 + dr_l*ez_z_2
"""),
]
gat=[
(G,"""    reset_particle_fields(ex, ey, ez, bx, by, bz)

    # Gather contributions from all fields.
    for field in fields:
        field.gather(x, y, z, t, ex, ey, ez, bx, by, bz)


@njit_parallel
def reset_particle_fields(ex, ey, ez, bx, by, bz):
    \"\"\"Set bunch field arrays to zero.\"\"\"
    for i in prange(ex.size):
        ex[i] = 0.
        ey[i] = 0.
        ez[i] = 0.
        bx[i] = 0.
        by[i] = 0.
        bz[i] = 0.
""","""    arrays = (ex, ey, ez, bx, by, bz)
    for array in arrays:
        array.fill(0.)

    # Gather contributions from all fields.
    for field in fields:
        field.gather(x, y, z, t, *arrays)
"""),
(G,"from wake_t.utilities.numba import njit_parallel, prange\n",""),
(A,"""        self.__e_x(x, y, z, t, ex, self.constants)
        self.__e_y(x, y, z, t, ey, self.constants)
        self.__e_z(x, y, z, t, ez, self.constants)
        self.__b_x(x, y, z, t, bx, self.constants)
        self.__b_y(x, y, z, t, by, self.constants)
        self.__b_z(x, y, z, t, bz, self.constants)
""","""        for component, array in zip(self.__components,
                                    (ex, ey, ez, bx, by, bz)):
            if component is not None:
                component(x, y, z, t, array, self.constants)
"""),
(A,"""        self.__e_x = njit_parallel(e_x) if e_x is not None else no_field
        self.__e_y = njit_parallel(e_y) if e_y is not None else no_field
        self.__e_z = njit_parallel(e_z) if e_z is not None else no_field
        self.__b_x = njit_parallel(b_x) if b_x is not None else no_field
        self.__b_y = njit_parallel(b_y) if b_y is not None else no_field
        self.__b_z = njit_parallel(b_z) if b_z is not None else no_field
""","""        self.__components = tuple(
            None if f is None else njit_parallel(f)
            for f in (e_x, e_y, e_z, b_x, b_y, b_z))
"""),
(A,"""        def no_field(x, y, z, t, fld, k):
            \"\"\"Default field component.\"\"\"
            pass

""",""),
(F,"""        self.rho = np.zeros((self.n_xi+4, self.n_r+4))
        self.chi = np.zeros((self.n_xi+4, self.n_r+4))
        self.e_z = np.zeros((self.n_xi+4, self.n_r+4))
        self.e_r = np.zeros((self.n_xi+4, self.n_r+4))
        self.e_t = np.zeros((self.n_xi+4, self.n_r+4))
        self.b_z = np.zeros((self.n_xi+4, self.n_r+4))
        self.b_r = np.zeros((self.n_xi+4, self.n_r+4))
        self.b_t = np.zeros((self.n_xi+4, self.n_r+4))
        self.r_fld = np.linspace(self.dr/2, self.r_max - self.dr/2, self.n_r)
""","""        shape = (self.n_xi+4, self.n_r+4)
        for name in ('rho', 'chi', 'e_z', 'e_r', 'e_t', 'b_z', 'b_r', 'b_t'):
            setattr(self, name, np.zeros(shape))
        self.r_fld = (np.arange(self.n_r) + 0.5) * self.dr
"""),
(F,"""        if self.laser is not None:
            # Evolve laser envelope
            if self.laser_evolution:
                self.laser.evolve(self.chi[2:-2, 2:-2], self.n_p)
""","""        if self.laser is None or not self.laser_evolution:
            return
        self.laser.evolve(self.chi[2:-2, 2:-2], self.n_p)
"""),
(F,"""        self.rho[:] = 0.
        self.chi[:] = 0.
        self.e_z[:] = 0.
        self.e_r[:] = 0.
        self.b_t[:] = 0.
        self._calculate_wakefield(bunches)
""","""        for array in (self.rho, self.chi, self.e_z, self.e_r, self.b_t):
            array.fill(0.)
        self._calculate_wakefield(bunches)
"""),
(F,"""        fld_arrays = [
            [np.ascontiguousarray(self.e_r.T[2:-2, 2:-2]),
             np.ascontiguousarray(self.e_t.T[2:-2, 2:-2]),
             np.ascontiguousarray(self.e_z.T[2:-2, 2:-2])],
            [np.ascontiguousarray(self.b_r.T[2:-2, 2:-2]),
             np.ascontiguousarray(self.b_t.T[2:-2, 2:-2]),
             np.ascontiguousarray(self.b_z.T[2:-2, 2:-2])],
            [np.ascontiguousarray(self.rho.T[2:-2, 2:-2]) * self.n_p * (-ct.e)]
        ]
""","""        def inner(array):
            return np.ascontiguousarray(array[2:-2, 2:-2].T)

        fld_arrays = [
            [inner(self.e_r), inner(self.e_t), inner(self.e_z)],
            [inner(self.b_r), inner(self.b_t), inner(self.b_z)],
            [inner(self.rho) * (self.n_p * (-ct.e))]
        ]
"""),
(F,"""            fld_arrays += [
                [np.ascontiguousarray(np.abs(self.laser.get_envelope().T))],
                [np.ascontiguousarray(np.angle(self.laser.get_envelope().T))],
                [np.ascontiguousarray(self.laser.get_envelope().T)]
            ]
""","""            a = np.ascontiguousarray(self.laser.get_envelope().T)
            fld_arrays += [[np.abs(a)], [np.angle(a)], [a]]
"""),
(N,"""        if not self.initialized:
            self.initialize_properties(bunches)
        else:
            self.evolve_properties(bunches)
        self.calculate_field(bunches)
""","""        step = (self.evolve_properties if self.initialized
                else self.initialize_properties)
        step(bunches)
        self._calculate_field(bunches)
"""),
(N,"""        if self.force_even_updates:
            # Adjust always the requested time step, and not the outcome of
            # the adjustment made in a previous tracking.
            if self.dt_update != self._dt_adjusted:
                self._dt_requested = self.dt_update
            n_updates = np.ceil(t_final / self._dt_requested)
            self.dt_update = self._dt_adjusted = t_final / n_updates
""","""        if not self.force_even_updates:
            return
        if self.dt_update != self._dt_adjusted:
            self._dt_requested = self.dt_update
        self._dt_adjusted = t_final / np.ceil(t_final / self._dt_requested)
        self.dt_update = self._dt_adjusted
"""),
]
fluid=[
(C,"""                x = r_fld
                y = np.zeros_like(r_fld)
                z = np.full_like(r_fld, z_i)
                a0_0 = gather_field_cyl_linear(
                    a_rz, self.xi_min/s_d, self.xi_max/s_d, r_fld[0],
                    r_fld[-1], dz, dr, x, y, z)
                a0_1 = gather_field_cyl_linear(
                    a_rz, self.xi_min/s_d, self.xi_max/s_d, r_fld[0],
                    r_fld[-1], dz, dr, x, y, z - dz/2)
                a0_2 = gather_field_cyl_linear(
                    a_rz, self.xi_min/s_d, self.xi_max/s_d, r_fld[0],
                    r_fld[-1], dz, dr, x, y, z - dz)
            else:
                a0_0 = np.zeros(r_fld.shape[0])
                a0_1 = np.zeros(r_fld.shape[0])
                a0_2 = np.zeros(r_fld.shape[0])
""","""                a0_0, a0_1, a0_2 = [
                    self._a0_at(a_rz, z_i - k * dz, s_d, r_fld, dz, dr)
                    for k in (0., 0.5, 1.)]
            else:
                a0_0 = a0_1 = a0_2 = np.zeros_like(r_fld)
"""),
(C,"""    def __wakefield_ode_system(self, u_1, u_2, laser_a0, n_beam):
        if self.beam_wakefields:
            return np.array(
                [u_2, (1+laser_a0**2)/(2*(1+u_1)**2) - n_beam - 1/2])
        else:
            return np.array([u_2, (1+laser_a0**2)/(2*(1+u_1)**2) - 1/2])
""","""    def _a0_at(self, a_rz, z, s_d, r_fld, dz, dr):
        return gather_field_cyl_linear(
            a_rz, self.xi_min/s_d, self.xi_max/s_d, r_fld[0], r_fld[-1], dz,
            dr, r_fld, np.zeros_like(r_fld), np.full_like(r_fld, z))

    def __wakefield_ode_system(self, u_1, u_2, laser_a0, n_beam):
        du_2 = (1+laser_a0**2)/(2*(1+u_1)**2) - 1/2
        if self.beam_wakefields:
            du_2 = du_2 - n_beam
        return np.array([u_2, du_2])
"""),
(C,"""            u_1[-2-i] = u_1[-1-i] + 1/6*(A[0] + 2*B[0] + 2*C[0] + D[0])
            u_2[-2-i] = u_2[-1-i] + 1/6*(A[1] + 2*B[1] + 2*C[1] + D[1])
""","""            step = (A + 2*(B + C) + D) / 6
            u_1[-2-i] = u_1[-1-i] + step[0]
            u_2[-2-i] = u_2[-1-i] + step[1]
"""),
]
M=[('b_dep','ALL',dep),('b_gat','ALL',gat+fluid)]
