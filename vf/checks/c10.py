from . import opcheck
def main(prop, tier):
    return opcheck.run(prop, tier, ('float',), lambda ty, op: op != 'fetch_update', lambda ty, op: ('seq', 'interference'),
        'float operations executed with symbolic bit patterns; results compared with the IEEE-754 theory of the solver (NaN payloads of arithmetic results left open), bit-exact elsewhere')
