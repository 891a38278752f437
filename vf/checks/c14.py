from . import opcheck
def main(prop, tier):
    return opcheck.run(prop, tier, ('ptr',), lambda ty, op: True, lambda ty, op: ('seq', 'interference'),
        'AtomicPtr operations for element sizes 0, 1, 3, 8, 100 with symbolic addresses and counts; sequential result plus single access under interference')
