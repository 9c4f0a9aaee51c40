"""Shared pieces of workload generators."""
import random


def swarm(rng, **opts):
    """Draw a knob dictionary: each class of decision is enabled or not, with a random intensity."""
    k = {}
    if rng.random() < opts.get('yield_p', 0.85):
        k['yield_gap'] = rng.choice([3, 8, 20, 60, 200, 1000])
    if rng.random() < opts.get('gc_p', 0.25):
        k['gc_kinds'] = rng.choice([30, 2, 4, 8, 16, 18, 6, 22])
        # a global collection costs milliseconds of real time
        k['gc_gap'] = rng.choice([4, 16, 64, 256] if not k['gc_kinds'] & 12 else [64, 256, 1024])
    if rng.random() < opts.get('stall_p', 0.2):
        k['stall_gap'] = rng.choice([50, 300, 2000])
        k['stall_max'] = rng.choice([20000, 1000000, 30000000])
    if rng.random() < opts.get('late_p', 0.15):
        k['late_ppm'] = rng.choice([50000, 500000])
        k['late_max'] = rng.choice([100000, 10000000])
    if rng.random() < opts.get('wall_p', 0.1):
        k['wall_ppm'] = rng.choice([1000, 100000])
    k['sp_ns'] = rng.choice([200, 1000, 1000, 5000])
    k['max_sp'] = opts.get('max_sp', 3000000)
    return k


def st(s):
    return "'" + str(s).replace("'", "''") + "'"




def started(i):
    """Resume process I of the array P, which another one may have terminated already."""
    return '[(P at: %d) resume] on: SystemExceptions.ProcessTerminated do: [:e | e return].' % (i + 1)
