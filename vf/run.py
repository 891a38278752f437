import sys, os, importlib
def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    os.environ['VERIF_TIER'] = tier
    m = importlib.import_module('vf.checks.' + prop.lower())
    sys.exit(m.main(prop, tier))
if __name__ == '__main__': main()
