"""Which suite decides which property."""
T = 'model_checking'
_tr = ['Time is observed on a grid of ticks; steps between grid points are '
       'reported as off-grid and rejected.']
PROPS = {
    'P01': ('tracker_suite', T, _tr),
    'P02': ('tracker_suite', T, _tr),
    'P03': ('tracker_suite', T, _tr),
    'P04': ('tracker_suite', T, _tr),
    'P05': ('tracker_suite', T, _tr),
    'P06': ('beamline_suite', T, []),
    'P07': ('beamline_suite', T, []),
    'P08': ('beamline_suite', T, []),
    'P09': ('bunch_suite', T, []),
    'P10': ('bunch_suite', T, []),
    'P12': ('bunch_suite', T, []),
    'P13': ('field_suite', T, []),
    'P14': ('push_suite', T, []),
    'P15': ('push_suite', T, []),
    'P16': ('grid_suite', T, []),
    'P17': ('grid_suite', T, []),
    'P18': ('laser_suite', T, []),
    'P19': ('envelope_suite', T, []),
    'P20': ('pulse_suite', T, []),
    'P21': ('optics_suite', T, []),
    'P22': ('optics_suite', T, []),
    'P23': ('optics_suite', T, []),
    'P33': ('optics_suite', T, []),
    'P34': ('optics_suite', T, []),
    'P24': ('csr_suite', T, []),
    'P25': ('files_suite', T, []),
    'P26': ('analysis_suite', T, []),
    'P27': ('density_suite', T, []),
    'P28': ('wake_suite', T, []),
    'P30': ('wake_suite', T, []),
    'P31': ('blowout_suite', T, []),
    'P32': ('threads_suite', T, []),
    'P29': ('gen_suite', T, []),
    'P11': ('tracker_suite', T, _tr),
    'P35': ('request_suite', T, []),
}

_m = ('{m}.tla is model checked exhaustively over a small space (MC{m}); {t} '
      'Within what was explored; not a proof for all inputs.')


def _note(m, t):
    return _m.format(m=m, t=t)


NOTES = {
    'tracker_suite': _note('Tracker', 'executions of the real tracker over systematic and random '
        'configurations (observed through fields supplied to it) are checked event by event.'),
    'beamline_suite': _note('Beamline', 'random lines of all kinds of elements, grouped in random '
        'trees, are tracked and every written file is read back and placed in the series.'),
    'bunch_suite': _note('Bunches/Phase', 'random programs of new, copy, edit and track on real '
        'bunches; exact integer coordinates through every representation.'),
    'field_suite': _note('Fields', 'real elements with random lists of real fields, whose forces '
        'on particles with rational velocities are exact integers in the specification.'),
    'push_suite': _note('Push', 'one or many real steps in fields for which the exact result is '
        'rational, or whose order of convergence is known.'),
    'grid_suite': _note('Grid', 'real deposition, gathering and resampling at rational positions, '
        'compared cell by cell with the specified integers, and at real positions.'),
    'laser_suite': _note('Laser', 'real pulses through sequences of real stages; each update is '
        'identified by comparison with dense reference steps.'),
    'envelope_suite': _note('Envelope', 'Gaussian-integer tridiagonal systems and envelope steps, '
        'and pairs of real runs related by the laws.'),
    'pulse_suite': _note('Pulse', 'real envelopes at points where they are known fractions.'),
    'optics_suite': _note('Optics', 'real transfer-map elements whose phase advance makes the map '
        'rational, compared as exact integers; chains, pieces and reuse.'),
    'csr_suite': _note('Csr', 'real sequences of elements; the history and step layout that '
        'explain each result are found with an independent reference calculation.'),
    'files_suite': _note('Files', 'random sequences of saving and reading in scratch folders.'),
    'analysis_suite': _note('Analysis', 'moments of small bunches of rational particles.'),
    'density_suite': _note('Density', 'real stages and ramps, the density seen inferred from '
        'the forces, fields or files they produce.'),
    'wake_suite': _note('Wake', 'pairs of real calculations related by what they share, and laws '
        'with bounds from the discretisation error.'),
    'gen_suite': _note('Generate', 'real generation for known random numbers.'),
    'blowout_suite': _note('Blowout', 'momentum gained between outputs of real stages, for '
        'densities and wavelengths for which it is an exact integer.'),
    'request_suite': _note('Requests', 'sequences of acceptable and unacceptable options given '
        'to real elements, fields and pulses.'),
    'threads_suite': _note('Threads', 'the same simulations in processes with different numbers '
        'of threads, repeated, and interpreted. Races are found only if they happen.'),
}
TECH = {k: 'TLA+ specification checked with TLC (exhaustive design model); conformance by '
           'validating traces of the real code against the specification with TLC'
        for k in NOTES}
TECH['laser_suite'] = TECH['optics_suite'] = TECH['grid_suite'] = TECH['tracker_suite']

# Suites of structural properties run without compilation (the same code,
# interpreted): their cost would be dominated by compiling one set of
# functions per element.
NOJIT = {'tracker_suite', 'beamline_suite', 'bunch_suite', 'field_suite', 'push_suite', 'laser_suite',
         'pulse_suite', 'optics_suite', 'csr_suite', 'files_suite',
         'analysis_suite', 'density_suite',
         'gen_suite', 'wake_suite', 'blowout_suite', 'request_suite'}
