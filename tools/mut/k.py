PB='particles/particle_bunch.py'; L='physics_models/laser/laser_pulse.py'; PS='beamline_elements/plasma_stage.py'; PR='beamline_elements/plasma_ramp.py'
W='physics_models/plasma_wakefields/qs_rz_baxevanis/wakefield.py'; S='physics_models/plasma_wakefields/qs_rz_baxevanis/solver.py'; AP='beamline_elements/active_plasma_lens.py'; D='particles/deposition.py'; OD='diagnostics/openpmd_diag.py'; FE='beamline_elements/field_element.py'
M=[('k_push','P35',[(PB,"        elif pusher == 'boris':\n","        elif pusher == 'boris' or fields:\n")]),
('k_push2','P35',[(PB,"        if pusher == 'rk4':","        if pusher.lower() == 'rk4':")]),
('k_sub','P35',[(L,"if nt < 1:","if nt < 0:")]),
('k_env','P35',[(L,"        if self.solver_params is None:\n            raise ValueError(\n                'Envelope solver parameters not yet set.'\n                'Cannot initialize envelope.')\n        if self.a_env is None:","        if self.a_env is None and self.solver_params is not None:")]),
('k_model','P35',[(PS,"        if model is None:\n","        if not model:\n")]),
('k_dens','P35',[(PS,"        elif callable(density):\n            return density\n        else:\n            raise","        elif callable(density):\n            return density\n        elif isinstance(density, (list, tuple)) and len(density) == 1:\n            return lambda z: np.ones_like(z) * density[0]\n        else:\n            raise")]),
('k_lens','P35',[(AP,"            if wakefields:\n                raise","            if wakefields and wakefield_model != 'focusing_blowout':\n                raise")]),
('k_pp','P35',[(S,"    elif plasma_pusher == 'rk4':","    elif plasma_pusher[0] == 'r':")]),
('k_dep','P35',[(D,"    if p_shape == 'linear':","    if p_shape.lower() == 'linear':")]),
('k_pol','P35 P20',[(L,"if pulse_1.polarization != pulse_2.polarization:","if pulse_1.polarization != pulse_2.polarization and pulse_1.a_0 != pulse_2.a_0:")]),
('k_dup','P35 P07',[(OD,"                raise ValueError(\n                    'Several species share same name {}.'.format(name))","                pass")]),
('k_len','P35 P02',[(FE,"if n_dt != n_bunches:","if n_dt < n_bunches:")]),
]
