#!/usr/bin/env python3
"""check.py PROPERTY: runs the check of one property (VERIF_SEED, VERIF_TIER;
VERIF_LIMIT: seconds a thorough check may take).

Exit 0: held on everything observed. Exit 1 with a VIOLATION line: broken.
Exit 2: no verdict (something did not build or run, or too little was seen).
"""
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import common  # noqa: E402


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier == 'thorough':
        common.LIMIT = float(os.environ.get('VERIF_LIMIT') or 2 * 3600)
    os.makedirs(common.BUILD, exist_ok=True)
    import native
    if prop == 'setup':
        native.build()
        return 0
    how = native.simple
    if prop in ('C09', 'C14', 'C15', 'C23'):
        how = getattr(native, prop.lower())
    elif prop in ('C10', 'C11'):
        import portab
        how = getattr(portab, prop.lower())
    elif prop == 'C16':
        import evl
        how = evl.c16
    elif prop == 'C20':
        import driver
        how = driver.c20
    cov = common.Coverage()
    return common.report(prop, tier, seed, 'exploration', cov,
                         lambda: how(prop, tier, seed, cov))


if __name__ == '__main__':
    try:
        code = main()
    except common.Inconclusive as e:
        print('INCONCLUSIVE: %s' % e, file=sys.stderr)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
