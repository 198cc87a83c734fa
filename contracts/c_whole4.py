"""The contracts on whole robots, on larger ones: bounded."""
from pvc.run import contract
import gen
import c_whole
import c_whole2
import c_whole3

BOUND = 'random trees of 12 to 26 bodies, every kind of joint and frame; run-time evaluation'
KW = dict(bounded=BOUND, sym=False, budget=60, rt=1e-6)

BIG = {
    'C13': (c_whole.whole_poses, 12), 'C14': (c_whole.whole_jacobians, 12),
    'C15': (c_whole.whole_bodies, 12), 'C16': (c_whole.whole_matrices, 12),
    'C17': (c_whole.whole_controllers, 12), 'C18': (c_whole.whole_weight, 12),
    'C19': (c_whole.whole_pd, 12), 'C20': (c_whole.whole_steps, 8),
    'C21': (c_whole2.whole_sweeps, 12), 'C22': (c_whole2.whole_limits, 12),
    'C23': (c_whole2.whole_ball, 12), 'C24': (c_whole2.whole_contact, 12),
    'C29': (c_whole2.whole_contacts, 24), 'C30': (c_whole3.whole_dofs, 12),
    'C31': (c_whole3.whole_tree, 150), 'C32': (c_whole3.whole_frames, 12),
    'C33': (c_whole3.whole_names, 12), 'C34': (c_whole3.whole_simulation, 8),
    'C35': (c_whole3.whole_energy, 12), 'C36': (c_whole3.whole_com, 24),
    'C41': (c_whole3.whole_walk, 24), 'C42': (c_whole3.whole_scene, 8)}

for _p, (_f, _n) in sorted(BIG.items()):
    contract(_p, _f.__name__ + '_big', samples=_n, **KW)(gen.big(_f))
