from . import opcheck
def main(prop, tier):
    return opcheck.run(prop, tier, ('bool',), lambda ty, op: True, lambda ty, op: ('seq', 'interference'),
        'AtomicBool operations from a byte that is 0 or 1 (inductive invariant): results, new contents 0 or 1 and documented, single access under interference')
