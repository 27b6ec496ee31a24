TF='physics_models/beam_optics/transfer_matrices.py'
M=[
('f_T166','P33',[(TF,"- 0.5*h/beta2*L*sx - 0.5*h/(beta2)*igamma2*dx)","- 0.5*h/beta2*L*sx + 0.5*h/(beta2)*igamma2*dx)")]),
('f_T144','P33',[(TF,"T144 = K2*Jd - 0.5*h*dx","T144 = K2*Jd + 0.5*h*dx")]),
('f_T566','P33',[(TF,"1.5 / beta3 * igamma2 * (h2*J1 - L)","1.5 / beta2 * igamma2 * (h2*J1 - L)")]),
('f_T516','P33',[(TF,"beta2*K1*J1*(1 + cx) + 0.5","beta2*K1*J1*(1 - cx) + 0.5")]),
('f_J2','P33',[(TF,"if kx != 0 else L ** 5 / 20.","if kx != 0 else L ** 5 / 24.")]),
('f_khk','P33',[(TF,"khk = K2 + 2*h*K1","khk = K2 + h*K1")]),
('f_T436','P33',[(TF,"(2 * cy * Jf - sy * Jd) + 0.5 * h/beta * \\\n        (K2 + h * K1)","(2 * cy * Jf - sy * Jd) + 0.5 * h/beta * \\\n        (K2 - h * K1)")]),
]
NF='fields/numerical_field.py'
M+=[('f_even_hist','P03',[(NF,"if self.dt_update != self._dt_adjusted:","if self.dt_update == self._dt_adjusted:")]),
('f_even_orig','P03',[(NF,"            n_updates = np.ceil(t_final / self._dt_requested)","            n_updates = np.ceil(t_final / self.dt_update)")]),
]
RZ='fields/rz_wakefield.py'
M+=[('f_rz_gather','P17',[(RZ,"self.e_r, self.e_z, self.b_t, self.xi_fld[0], self.xi_fld[-1],","self.e_r, self.e_z, self.b_t, self.xi_fld[1], self.xi_fld[-1],")])]
CS='physics_models/collective_effects/csr.py'
M+=[('f_csr_arctan','P24',[(CS,"(np.arctan((s[0] - winf)/a) -","(np.arctan((s[0] - winf)*a) -")])]
