F = 'physics_models/plasma_wakefields/qs_cold_fluid_1x3p.py'
M = [
 ('g_uz', 'P30', [(F, '(1 + a_env**2 - (1 + u_1)**2) / (2 * (1 + u_1))', '(1 + a_env**2 - (1 + u_1)**2) * (2 * (1 + u_1))')]),
 ('g_rfld', 'P30', [(F, 'beam_hist) * r_fld', 'beam_hist) / r_fld')]),
 ('g_subs', 'P30', [(F, 'integrand / 2', 'integrand * 2')]),
 ('g_subs2', 'P30', [(F, 'axis=1) - subs)', 'axis=1) + subs)')]),
 ('g_142', 'P30', [(F, '(1+laser_a0**2)/(2*(1+u_1)**2) - n_beam', '(1-laser_a0**2)/(2*(1+u_1)**2) - n_beam')]),
 ('g_bh', 'P30', [(F, 'nv_z + beam_hist', 'nv_z - beam_hist')]),
 ('g_crash', 'P19', [('physics_models/laser/envelope_solver_non_centered.py', 'a_old[j + 2] = a[j + 2]', 'a_old[j + 3] = a[j + 3]')]),
]
