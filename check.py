#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]"""

import os
import shutil
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

from sa import catalog, runner


def main():
    prop = sys.argv[1]
    if prop == '--setup':
        for tool in ('clang', 'opt', 'llvm-dis'):
            print(tool, shutil.which(tool))
        return
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get('VERIF_TIER', 'quick')
    try:
        meta = catalog.PROPERTIES[prop]
        jobs = catalog.jobs_of(prop, tier, runner.REPO)
    except KeyError:
        raise
    except Exception as e:
        if os.environ.get('VERIF_TRACE'):
            raise
        print(f'ERROR: {type(e).__name__}: {e}')
        sys.exit(2)
    sys.exit(runner.check(prop, meta, jobs, tier))


if __name__ == '__main__':
    main()
