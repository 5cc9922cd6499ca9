"""Bounded stand-ins that run the real code on generated discretisations."""
from dv.check import Harness
SOURCES = ['source/%s.cc' % x for x in ('bem_fma', 'bem_problem', 'boundary_conditions', 'computational_domain', 'driver', 'ass_leg_function',
                                        'multipole_expansion', 'local_expansion', 'local_expansion_coeff', 'octree_block', 'singular_kernel_integral')]


def world(name, args, what, np=1, always=True, timeout=260):
    return Harness(name, SOURCES, args, timeout=timeout, always=always, what='bounded: ' + what + (' (%d processes)' % np if np > 1 else ''), np=np)
