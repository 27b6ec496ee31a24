# Behaviour-preserving edits of the tracker, the bunch and the pushers.
T='tracking/tracker.py'; B='particles/particle_bunch.py'; BP='particles/push/boris_pusher.py'; RK='particles/push/runge_kutta_4.py'
tracker=[
(T,"""        # Fill up time steps.
        for i, dt in enumerate(self.dt_objects):
            if dt == 'auto':
                dt_objects[i] = self.auto_dt_bunch_f(self.bunches[i])
            else:
                dt_objects[i] = dt
            # Make sure the first push of a bunch does not go beyond `t_final`.
            if i < len(self.bunches):
                dt_objects[i] = min(dt_objects[i], self.t_final)
""","""        self._fill_time_steps(dt_objects)
"""),
(T,"""            # If next object is a ParticleBunch, update it.
            if isinstance(obj_next, ParticleBunch):
                self.evolve_bunch(
                    bunch=obj_next,
                    t_current=t_current,
                    t_next=t_next,
                    dt_next=dt_next,
                    i_next=i_next,
                    dt_objects=dt_objects,
                )

            # If next object is a NumericalField, update it.
            elif isinstance(obj_next, NumericalField):
                obj_next.update(self.bunches)

            # If next object are the diagnostics, generate them.
            elif obj_next == 'diags':
                # Evolve all bunches to the diagnostics time.
                if self.push_bunches_before_diags:
                    for i, obj in enumerate(self.objects_to_track):
                        if isinstance(obj, ParticleBunch):
                            dt_bunch = t_next - t_objects[i]
                            self.evolve_bunch(
                                bunch=obj,
                                t_current=t_objects[i],
                                t_next=t_next,
                                dt_next=dt_bunch,
                                i_next=i,
                                dt_objects=dt_objects,
                            )
                            t_objects[i] += dt_bunch
                self.generate_diagnostics()
""","""            if isinstance(obj_next, NumericalField):
                obj_next.update(self.bunches)
            elif isinstance(obj_next, ParticleBunch):
                self._push(obj_next, t_current, dt_next, t_next, i_next,
                           dt_objects)
            else:
                self._diagnose(t_next, t_objects, dt_objects)
"""),
(T,"""    def evolve_bunch(
        self,
        bunch: ParticleBunch,
        t_current: float,
        t_next: float,
        dt_next: float,
        i_next: int,
        dt_objects: List,
    ):""","""    def _fill_time_steps(self, steps):
        n_bunches = len(self.bunches)
        for i, dt in enumerate(self.dt_objects):
            value = self.auto_dt_bunch_f(self.bunches[i]) if dt == 'auto' \\
                else dt
            steps[i] = min(value, self.t_final) if i < n_bunches else value

    def _diagnose(self, t_next, t_objects, dt_objects):
        if self.push_bunches_before_diags:
            for i, bunch in enumerate(self.bunches):
                step = t_next - t_objects[i]
                self._push(bunch, t_objects[i], step, t_next, i, dt_objects)
                t_objects[i] = t_objects[i] + step
        self.generate_diagnostics()

    def _push(
        self,
        bunch: ParticleBunch,
        t_current: float,
        dt_next: float,
        t_next: float,
        i_next: int,
        dt_objects: List,
    ):"""),
(T,"""        # Determine if this was the last push.
        final_push = np.float32(t_next) == np.float32(self.t_final)
        # Determine if next push brings the bunch beyond `t_final`.
        next_push_beyond_final_time = (
            t_next + dt_objects[i_next] > self.t_final)
        # Make sure the last push of the bunch advances it to exactly
        # `t_final`.
        if not final_push and next_push_beyond_final_time:
            dt_objects[i_next] = self.t_final - t_next
""","""        # Nothing else to do if this was the last push.
        if np.float32(t_next) == np.float32(self.t_final):
            return
        if t_next + dt_objects[i_next] > self.t_final:
            dt_objects[i_next] = self.t_final - t_next
"""),
(T,"""        # Make copy of current bunches and store in output list.
        for i, bunch in enumerate(self.bunches):
            self.bunch_list[i].append(bunch.copy())
""","""        for out, bunch in zip(self.bunch_list, self.bunches):
            out.append(bunch.copy())
"""),
(T,"""        # Prepare list of output bunches.
        self.bunch_list = []
        for bunch in bunches:
            self.bunch_list.append([])
""","""        self.bunch_list = [[] for _ in bunches]
"""),
(T,"""        self.auto_dt_bunches = []
        for i, dt in enumerate(self.dt_bunches):
            if dt == 'auto':
                self.auto_dt_bunches.append(self.bunches[i])
""","""        self.auto_dt_bunches = [
            b for b, dt in zip(self.bunches, self.dt_bunches) if dt == 'auto']
"""),
]
bunch=[
(B,"""        bunch_copy = ParticleBunch(
            w=deepcopy(self.w),
            x=deepcopy(self.x),
            y=deepcopy(self.y),
            xi=deepcopy(self.xi),
            px=deepcopy(self.px),
            py=deepcopy(self.py),
            pz=deepcopy(self.pz),
            tags=deepcopy(self.tags),
            t_flight=deepcopy(self.t_flight),
            z_injection=deepcopy(self.z_injection),
            prop_distance=deepcopy(self.prop_distance),
            name=deepcopy(self.name),
            q_species=deepcopy(self.q_species),
            m_species=deepcopy(self.m_species)
        )
        bunch_copy.x_ref = self.x_ref
        bunch_copy.theta_ref = self.theta_ref
        return bunch_copy
""","""        names = ('w', 'x', 'y', 'xi', 'px', 'py', 'pz', 'tags', 't_flight',
                 'z_injection', 'prop_distance', 'name', 'q_species',
                 'm_species')
        new = ParticleBunch(**{n: deepcopy(getattr(self, n)) for n in names})
        for n in ('x_ref', 'theta_ref'):
            setattr(new, n, getattr(self, n))
        return new
"""),
(B,"""        if (not self.__field_arrays_allocated
                or len(self.__e_x) != len(self.x)):
            self.__preallocate_field_arrays()
        return (
            self.__e_x, self.__e_y, self.__e_z,
            self.__b_x, self.__b_y, self.__b_z
        )
""","""        n_part = len(self.x)
        if self.__fields is None or self.__fields[0].shape[0] != n_part:
            self.__fields = tuple(np.zeros(n_part) for _ in range(6))
        return self.__fields
"""),
(B,"""        if (not self.__rk4_arrays_allocated
                or len(self.__x_rk4) != len(self.x)):
            self.__preallocate_rk4_arrays()
        return (
            self.__x_rk4, self.__y_rk4, self.__xi_rk4,
            self.__px_rk4, self.__py_rk4, self.__pz_rk4,
            self.__dx_rk4, self.__dy_rk4, self.__dxi_rk4,
            self.__dpx_rk4, self.__dpy_rk4, self.__dpz_rk4,
            self.__k_x, self.__k_y, self.__k_xi,
            self.__k_px, self.__k_py, self.__k_pz
        )
""","""        n_part = len(self.x)
        if self.__rk4 is None or self.__rk4[0].shape[0] != n_part:
            self.__rk4 = [np.zeros(n_part) for _ in range(18)]
        return tuple(self.__rk4)
"""),
(B,"""        self.__field_arrays_allocated = False
        self.__rk4_arrays_allocated = False
""","""        self.__fields = None
        self.__rk4 = None
"""),
(B,"""        if self.z_injection is not None:
            if (np.amax(self.xi) + self.prop_distance) < self.z_injection:
                fields = []

        if pusher == 'rk4':
            apply_rk4_pusher(self, fields, t, dt)
        elif pusher == 'boris':
            apply_boris_pusher(self, fields, t, dt)
        else:
            raise ValueError(
                f"Bunch pusher '{pusher}' not recognized. "
                "Possible values are 'boris' and 'rk4'"
            )
        self.prop_distance += dt * ct.c
""","""        pushers = {'rk4': apply_rk4_pusher, 'boris': apply_boris_pusher}
        if pusher not in pushers:
            raise ValueError(
                f"Bunch pusher '{pusher}' not recognized. "
                "Possible values are 'boris' and 'rk4'"
            )
        pushers[pusher](self, self._active(fields), t, dt)
        self.increase_prop_distance(ct.c * dt)

    def _active(self, fields):
        if self.z_injection is None:
            return fields
        front = self.prop_distance + self.xi.max()
        return fields if front >= self.z_injection else []
"""),
(B,"""        dp = beam_matrix[5]
        gamma = (dp + 1)*gamma_ref
        p_kin = np.sqrt(gamma**2 - 1)
        self.x = beam_matrix[0]
        self.px = beam_matrix[1] * p_kin
        self.y = beam_matrix[2]
        self.py = beam_matrix[3] * p_kin
        self.xi = beam_matrix[4]
        self.pz = np.sqrt(gamma**2 - self.px**2 - self.py**2 - 1)
""","""        x, xp, y, yp, xi, dp = beam_matrix
        g2 = ((dp + 1)*gamma_ref)**2
        p = np.sqrt(g2 - 1)
        px, py = xp * p, yp * p
        pz = np.sqrt(g2 - px**2 - py**2 - 1)
        self.set_phase_space(x, y, xi, px, py, pz)
"""),
]
push=[
(BP,"""        c_over_gamma_i = ct.c / np.sqrt(1 + (px_i**2 + py_i**2 + pz_i**2))

        # Update particle position
        x[i] += 0.5 * px_i * dt * c_over_gamma_i
        y[i] += 0.5 * py_i * dt * c_over_gamma_i
        xi[i] += 0.5 * (pz_i * c_over_gamma_i - ct.c) * dt
""","""        gamma_i = np.sqrt(1 + px_i*px_i + py_i*py_i + pz_i*pz_i)
        half = 0.5 * dt * ct.c

        # Update particle position
        x[i] += half * px_i / gamma_i
        y[i] += half * py_i / gamma_i
        xi[i] += half * (pz_i / gamma_i - 1.)
"""),
(BP,"""        cons_s = 2/(1 + t_x**2 + t_y**2 + t_z**2)
        s_x = cons_s * t_x
        s_y = cons_s * t_y
        s_z = cons_s * t_z
""","""        t_2 = t_x*t_x + t_y*t_y + t_z*t_z
        s_x = 2. * t_x / (1. + t_2)
        s_y = 2. * t_y / (1. + t_2)
        s_z = 2. * t_z / (1. + t_2)
"""),
(RK,"""    for i in range(4):
        t_i = t

        # Calculate factors.
        if i in [0, 3]:
            fac1 = 1.
            fac2 = 1. / 6.
            if i == 3:
                t_i += dt
        else:
            fac1 = 0.5
            fac2 = 2. / 6.
            t_i += dt / 2
""","""    stages = ((0., 1., 1. / 6.), (0.5, 0.5, 1. / 3.), (0.5, 0.5, 1. / 3.),
              (1., 1., 1. / 6.))
    for i, (c_i, fac1, fac2) in enumerate(stages):
        t_i = t + c_i * dt
"""),
(RK,"""            update_coord(x, bunch.x, dt, k_x, fac1)
            update_coord(y, bunch.y, dt, k_y, fac1)
            update_coord(xi, bunch.xi, dt, k_xi, fac1)
            update_coord(px, bunch.px, dt, k_px, fac1)
            update_coord(py, bunch.py, dt, k_py, fac1)
            update_coord(pz, bunch.pz, dt, k_pz, fac1)
""","""            for new, old, k in ((x, bunch.x, k_x), (y, bunch.y, k_y),
                                (xi, bunch.xi, k_xi), (px, bunch.px, k_px),
                                (py, bunch.py, k_py), (pz, bunch.pz, k_pz)):
                update_coord(new, old, dt, k, fac1)
"""),
(RK,"""        k_x[i] = vx_i
        k_y[i] = vy_i
        k_xi[i] = (vz_i - ct.c)
        k_px[i] = q_over_mc * (ex_i + vy_i * bz_i - vz_i * by_i)
        k_py[i] = q_over_mc * (ey_i - vx_i * bz_i + vz_i * bx_i)
        k_pz[i] = q_over_mc * (ez_i + vx_i * by_i - vy_i * bx_i)
""","""        fx = ex_i + vy_i * bz_i - vz_i * by_i
        fy = ey_i + vz_i * bx_i - vx_i * bz_i
        fz = ez_i + vx_i * by_i - vy_i * bx_i
        k_px[i] = q_over_mc * fx
        k_py[i] = q_over_mc * fy
        k_pz[i] = q_over_mc * fz
        k_x[i] = vx_i
        k_y[i] = vy_i
        k_xi[i] = vz_i - ct.c
"""),
]
M=[('a_track','ALL',tracker+bunch+push)]
