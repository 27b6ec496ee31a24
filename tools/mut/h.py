D = 'physics_models/plasma_wakefields/qs_rz_baxevanis/deposition.py'
A = 'physics_models/plasma_wakefields/qs_rz_baxevanis/plasma_push/ab5.py'
M = [
 ('h_103', 'P30', [(D, 'deposition_array[iz_cell + 0, ir_cell + 0] += zsl_0 * rsl_0 * w_i', 'deposition_array[iz_cell + 0, ir_cell + 0] += zsl_0 / rsl_0 * w_i')]),
 ('h_105', 'P30', [(D, 'deposition_array[iz_cell + 1, ir_cell + 0] += zsl_1 * rsl_0 * w_i', 'deposition_array[iz_cell + 1, ir_cell + 0] += zsl_1 * rsl_1 * w_i')]),
 ('h_73', 'P30', [(D, 'ir_cell = min(int(math.ceil(r_cell)) + 1, nr + 2)\n            iz_cell', 'ir_cell = min(int(math.ceil(r_cell)) - 1, nr + 2)\n            iz_cell')]),
 ('h_196', 'P30', [(D, 'deposition_array[iz_cell + 1, ir_cell + 3] += zsc_1 * rsc_3 * w_i', 'deposition_array[iz_cell + 1, ir_cell - 3] += zsc_1 * rsc_3 * w_i')]),
 ('h_ab5', 'P30', [(A, '- nabla_a2[i] / (2. * (1. + psi_i)))', '- nabla_a2[i] / (2.5 * (1. + psi_i)))')]),
]
