from . import opcheck
def main(prop, tier):
    return opcheck.run(prop, tier, ('int',), lambda ty, op: op != 'fetch_update' and not op.startswith('bit_'), lambda ty, op: ('seq',),
        'every integer operation of the real crate (LLVM IR + inline assembly) executed with symbolic old value, arguments, ordering and CPU facts; SMT shows result and final contents equal the documented ones')
