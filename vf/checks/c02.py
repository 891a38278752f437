from . import opcheck
def main(prop, tier):
    return opcheck.run(prop, tier, ('int', 'bool', 'ptr', 'float'), lambda ty, op: op != 'fetch_update' and not (ty.kind == 'ptr' and ty.name not in ('AtomicPtrU8', 'AtomicPtrOdd')), lambda ty, op: ('interference',),
        'every access of the object returns arbitrary contents (interference between any two instructions); SMT shows that each returning path of a lock-free operation is explained by one single full-width atomic access')
