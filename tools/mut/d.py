SB='physics_models/plasma_wakefields/simple_blowout.py'; FB='physics_models/plasma_wakefields/focusing_blowout.py'; CB='physics_models/plasma_wakefields/custom_blowout.py'
M=[
('sb_off','P31',[(SB,"            xi_off = l_p/2 - l_c - field_off + (1-b_w)*ct.c*t","            xi_off = l_p/2 - l_c - field_off + (1-b_w)*ct.c*t*(field_off == 0)")]),
('sb_slip','P31',[(SB,"+ (1-b_w)*ct.c*t","+ (1-b_w)*ct.c*t*(t < 3*l_p/ct.c) + (t >= 3*l_p/ct.c)*(1-b_w)*3*l_p")]),
('cb_slip','P31',[(CB,"xi_off = - xi_fields + (1 - b_w) * ct.c * t","xi_off = - xi_fields + (1 - b_w) * ct.c * t * (e_z_p > 0)")]),
('cb_xi','P31',[(CB,"ez[i] += e_z_0 + e_z_p * (xi[i] + xi_off)","ez[i] += e_z_0 + e_z_p * (xi[i] + xi_off) if e_z_0 != 0 else e_z_p * xi[i]")]),
('sb_charge','P31',[(SB,"e_z_p = w_p**2/2 * ct.m_e / ct.e","e_z_p = w_p**2/2 * ct.m_e / ct.e * (1 if l_x0 else 1)".replace(" * (1 if l_x0 else 1)","*b_w0").replace("*b_w0"," * self.laser.get_group_velocity(n_p)"))]),
]
