from . import opcheck
def main(prop, tier):
    return opcheck.run(prop, tier, ('int', 'bool', 'ptr', 'float'), lambda ty, op: op == 'fetch_update', lambda ty, op: ('seq', 'interference'),
        'fetch_update with a closure answering arbitrarily at every call; under interference the closure only sees complete contents, Ok installs exactly the answer for the value last seen at one access, Err writes nothing')
