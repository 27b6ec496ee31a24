TM='beamline_elements/tm_elements.py'; T='tracking/tracker.py'
M=[('j_bar1','P21',[(TM,"            print('CSR {}.'.format(csr_string))","            print('CSR {}.'.format(self.csr_onn))")]),
 ('j_bar2','P01 P06',[(T,"progress_bar.update(self.t_tracking*ct.c - progress_bar.n)","progress_bar.update(self.t_tracking*ct.c - progress_bar.n)\n            if not progress_bar.disable and t_next > 0.5*self.t_final:\n                break")]),
 ('j_bar3','P21 P23',[(TM,"                print_progress_bar(st_0, i+1, n_steps)","                print_progress_bar(st_0, i+1, n_steps)\n                if i + 1 == n_steps and n_steps > 2:\n                    break")]),
 # backtracking
 ('j_b1','P34',[(TM,"            opmd_diag.increase_z_pos(l_tot)","            opmd_diag.increase_z_pos(self.length)")]),
 ('j_b2','P34',[(TM,"last_bunch = self._create_new_bunch(bunch, new_bunch_mat, l_tot)","last_bunch = self._create_new_bunch(bunch, new_bunch_mat, self.length)")]),
 ('j_b3','P34',[(TM,"sign = -self.theta/abs(self.theta)","sign = -theta_step/abs(theta_step)")]),
 ('j_b4','P34',[(TM,"            l_step, l_tot = -l_step, -l_tot","            l_step = -l_step")]),
]
