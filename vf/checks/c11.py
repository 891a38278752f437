from . import opcheck
def main(prop, tier):
    return opcheck.run(prop, tier, ('int', 'ptr'), lambda ty, op: op.startswith('bit_'), lambda ty, op: ('seq', 'interference'),
        'bit_set/bit_clear/bit_toggle with symbolic 32-bit index, old value and ordering; sequential result plus single-access explanation under interference')
