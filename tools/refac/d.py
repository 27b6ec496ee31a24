O='diagnostics/openpmd_diag.py'; G='utilities/bunch_generation.py'; M_='utilities/bunch_manipulation.py'; R='beamline_elements/plasma_ramp.py'; SB='physics_models/plasma_wakefields/simple_blowout.py'; CB='physics_models/plasma_wakefields/custom_blowout.py'; FB='physics_models/plasma_wakefields/focusing_blowout.py'; Q='physics_models/plasma_wakefields/qs_rz_baxevanis/solver.py'; QW='physics_models/plasma_wakefields/qs_rz_baxevanis/wakefield.py'
files=[
(O,"""        # Get arrays.
        x = np.ascontiguousarray(species_data['x'])
        y = np.ascontiguousarray(species_data['y'])
        z = np.ascontiguousarray(species_data['z'])
        px = np.ascontiguousarray(species_data['px'])
        py = np.ascontiguousarray(species_data['py'])
        pz = np.ascontiguousarray(species_data['pz'])
        w = np.ascontiguousarray(species_data['w'])
        q = species_data['q']
        m = species_data['m']
        z_off = species_data['z_off']

        # Generate datasets.
        d_x = Dataset(x.dtype, extent=x.shape)
        d_y = Dataset(y.dtype, extent=y.shape)
        d_z = Dataset(z.dtype, extent=z.shape)
        d_px = Dataset(px.dtype, extent=px.shape)
        d_py = Dataset(py.dtype, extent=py.shape)
        d_pz = Dataset(pz.dtype, extent=pz.shape)
        d_w = Dataset(w.dtype, extent=w.shape)
        d_q = Dataset(np.dtype('float64'), extent=[1])
        d_m = Dataset(np.dtype('float64'), extent=[1])
        d_xoff = Dataset(np.dtype('float64'), extent=[1])
        d_yoff = Dataset(np.dtype('float64'), extent=[1])
        d_zoff = Dataset(np.dtype('float64'), extent=[1])

        # Record data.
        particles['position']['x'].reset_dataset(d_x)
        particles['position']['y'].reset_dataset(d_y)
        particles['position']['z'].reset_dataset(d_z)
        particles['positionOffset']['x'].reset_dataset(d_xoff)
        particles['positionOffset']['y'].reset_dataset(d_yoff)
        particles['positionOffset']['z'].reset_dataset(d_zoff)
        particles['momentum']['x'].reset_dataset(d_px)
        particles['momentum']['y'].reset_dataset(d_py)
        particles['momentum']['z'].reset_dataset(d_pz)
        particles['weighting'][SCALAR].reset_dataset(d_w)
        particles['charge'][SCALAR].reset_dataset(d_q)
        particles['mass'][SCALAR].reset_dataset(d_m)

        # Prepare for writting.
        particles['position']['x'].store_chunk(x)
        particles['position']['y'].store_chunk(y)
        particles['position']['z'].store_chunk(z)
        particles['positionOffset']['x'].make_constant(0.)
        particles['positionOffset']['y'].make_constant(0.)
        particles['positionOffset']['z'].make_constant(z_off)
        particles['momentum']['x'].store_chunk(px)
        particles['momentum']['y'].store_chunk(py)
        particles['momentum']['z'].store_chunk(pz)
        particles['weighting'][SCALAR].store_chunk(w)
        particles['charge'][SCALAR].make_constant(q)
        particles['mass'][SCALAR].make_constant(m)
""","""        keep = []

        def array(record, comp, key):
            data = np.ascontiguousarray(species_data[key])
            keep.append(data)
            rec = particles[record][comp]
            rec.reset_dataset(Dataset(data.dtype, extent=data.shape))
            rec.store_chunk(data)

        def const(record, comp, value):
            rec = particles[record][comp]
            rec.reset_dataset(Dataset(np.dtype('float64'), extent=[1]))
            rec.make_constant(value)

        for c in ('x', 'y', 'z'):
            array('position', c, c)
            array('momentum', c, 'p' + c)
            const('positionOffset', c,
                  species_data['z_off'] if c == 'z' else 0.)
        array('weighting', SCALAR, 'w')
        const('charge', SCALAR, species_data['q'])
        const('mass', SCALAR, species_data['m'])
        self._keep = getattr(self, '_keep', [])
        self._keep.append(keep)
"""),
(O,"""        opmd_series.flush()
        self._index_out += 1
""","""        opmd_series.flush()
        self._keep = []
        self._index_out += 1
"""),
(O,"""        sp_names = []
        for species in species_list:
            name = species.name
            if name not in sp_names:
                sp_names.append(name)
            else:
                raise ValueError(
                    'Several species share same name {}.'.format(name))
""","""        names = [species.name for species in species_list]
        for name in names:
            if names.count(name) > 1:
                raise ValueError(
                    'Several species share same name {}.'.format(name))
"""),
(G,"""    u_x = np.random.standard_normal(n_part)
    v_x = np.random.standard_normal(n_part)
    u_y = np.random.standard_normal(n_part)
    v_y = np.random.standard_normal(n_part)
    # Calculate transverse particle distributions
    x = s_x*u_x + x_off
    xp = s_xp*(p_x*u_x + np.sqrt(1-np.square(p_x))*v_x)
    y = s_y*u_y + y_off
    yp = s_yp*(p_y*u_y + np.sqrt(1-np.square(p_y))*v_y)
""","""    def plane(sigma, sigma_p, corr, offset):
        u = np.random.standard_normal(n_part)
        v = np.random.standard_normal(n_part)
        slope = sigma_p*(corr*u + np.sqrt(1-corr**2)*v)
        return offset + sigma*u, slope

    x, xp = plane(s_x, s_xp, p_x, x_off)
    y, yp = plane(s_y, s_yp, p_y, y_off)
"""),
(G,"""    pz = np.random.normal(ene, ene_sp_abs, n_part)
    # Change from slope to momentum and apply offset
    px = xp*pz + p_x_off
    py = yp*pz + p_y_off
    # Macroparticle weight.
    w = np.abs(np.ones(n_part) * q_tot / (n_part * q_species))
    return ParticleBunch(w, x, y, xi, px, py, pz, name=name,
                         q_species=q_species, m_species=m_species)


def get_gaussian_bunch_from_size(""","""    pz = np.random.normal(ene, ene_sp_abs, n_part)
    weight = abs(q_tot / (n_part * q_species))
    return ParticleBunch(
        w=np.full(n_part, weight), x=x, y=y, xi=xi,
        px=p_x_off + pz*xp, py=p_y_off + pz*yp, pz=pz,
        name=name, q_species=q_species, m_species=m_species)


def get_gaussian_bunch_from_size("""),
(M_,"""    x = bunch_matrix[0]
    y = bunch_matrix[2]
    xi = bunch_matrix[4]
    px = bunch_matrix[1]
    py = bunch_matrix[3]
    pz = bunch_matrix[5]
    g = np.sqrt(1 + px**2 + py**2 + pz**2)
    if gamma_ref is None:
        gamma_ref = np.average(g, weights=w)
    b_ref = np.sqrt(1 - gamma_ref**(-2))
    dp = (g-gamma_ref)/(gamma_ref*b_ref)
    p_kin = np.sqrt(gamma_ref**2 - 1)
    return np.array([x, px/p_kin, y, py/p_kin, -xi, dp]), gamma_ref
""","""    x, px, y, py, xi, pz = bunch_matrix
    g = np.sqrt(px**2 + py**2 + pz**2 + 1)
    if gamma_ref is None:
        gamma_ref = (g * w).sum() / np.sum(w)
    p_ref = np.sqrt(gamma_ref**2 - 1)
    out = np.stack([x, px/p_ref, y, py/p_ref, -xi, (g-gamma_ref)/p_ref])
    return out, gamma_ref
"""),
(R,"""        # For an upramp, invert z coordinate.
        if self.ramp_type == 'upramp':
            z = self.length - z
        return self.profile(z)
""","""        up = self.ramp_type == 'upramp'
        return self.profile(self.length - z if up else z)
"""),
(R,"""    return density_top / np.square(1 + z/decay_length)
""","""    return density_top * (decay_length / (z + decay_length))**2
"""),
(SB,"""            xi_off = l_p/2 - l_c - field_off + (1-b_w)*ct.c*t
            for i in prange(x.shape[0]):
                ez[i] += e_z_p * (xi[i] + xi_off)
""","""            slip = (1-b_w)*ct.c*t
            center = l_c + field_off - l_p/2
            for i in prange(x.shape[0]):
                ez[i] += e_z_p * (xi[i] - center + slip)
"""),
(FB,"""        z = t*ct.c + xi
        n_p = self.density(z)
        w_p = np.sqrt(n_p*ct.e**2/(ct.m_e*ct.epsilon_0))
        k = (ct.m_e/(2*ct.e*ct.c))*w_p**2
        self.constants = k
""","""        n_p = self.density(xi + ct.c*t)
        self.constants = n_p * (ct.e / (2*ct.c*ct.epsilon_0))
"""),
(QW,"""        if self.laser is not None:
            a_env_2 = np.abs(self.laser.get_envelope()) ** 2
            # If linearly polarized, divide by 2 so that the ponderomotive
            # force on the plasma particles is correct.
            if self.laser.polarization == 'linear':
                a_env_2 /= 2
        else:
            a_env_2 = np.zeros((self.n_xi, self.n_r))
""","""        a_env_2 = self._a2()
"""),
(QW,"""    def _calculate_wakefield(self, bunches):
""","""    def _a2(self):
        if self.laser is None:
            return np.zeros((self.n_xi, self.n_r))
        a = self.laser.get_envelope()
        factor = 0.5 if self.laser.polarization == 'linear' else 1.
        return factor * (a.real**2 + a.imag**2)

    def _calculate_wakefield(self, bunches):
"""),
(Q,"""    a2 = np.zeros((n_xi+4, n_r+4))
    nabla_a2 = np.zeros((n_xi+4, n_r+4))
    psi = np.zeros((n_xi+4, n_r+4))
    W_r = np.zeros((n_xi+4, n_r+4))
    b_t_bar = np.zeros((n_xi+4, n_r+4))
""","""    shape = (n_xi+4, n_r+4)
    a2, nabla_a2, psi, W_r, b_t_bar = [np.zeros(shape) for _ in range(5)]
"""),
(Q,"""    dxi_psi, dr_psi = np.gradient(psi[2:-2, 2:-2], dxi, dr, edge_order=2)
    E_z[2:-2, 2:-2] = -dxi_psi * E_0
    W_r[2:-2, 2:-2] = -dr_psi * E_0
    B_t[:] = (b_t_bar + b_t_beam) * E_0 / ct.c
    E_r[:] = W_r + B_t * ct.c
""","""    inner = (slice(2, -2), slice(2, -2))
    E_z[inner] = -E_0 * np.gradient(psi[inner], dxi, axis=0, edge_order=2)
    W_r[inner] = -E_0 * np.gradient(psi[inner], dr, axis=1, edge_order=2)
    b_t = b_t_bar + b_t_beam
    B_t[:] = b_t * (E_0 / ct.c)
    E_r[:] = W_r + b_t * E_0
"""),
]
M=[('d_files','ALL',files)]
