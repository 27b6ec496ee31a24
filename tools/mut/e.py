DE='particles/deposition.py'; TR='tracking/tracker.py'; IN='particles/interpolation.py'
M=[
('par_linear','P32 P16',[(DE,"@njit_serial\ndef deposit_3d_distribution_linear","@njit_parallel()\ndef deposit_3d_distribution_linear"),(DE,"import njit_serial, prange","import njit_serial, njit_parallel, prange")]),
('par_cubic','P32 P16',[(DE,"@njit_serial\ndef deposit_3d_distribution_cubic","@njit_parallel()\ndef deposit_3d_distribution_cubic"),(DE,"import njit_serial, prange","import njit_serial, njit_parallel, prange")]),
('no_restore','P32',[(TR,"        set_num_threads(num_threads_outside_waket)\n","")]),
('restore_early','P32',[(TR,"        num_threads_outside_waket = get_num_threads()\n        set_num_threads(num_threads)\n","        set_num_threads(num_threads)\n        num_threads_outside_waket = get_num_threads()\n")]),
]
