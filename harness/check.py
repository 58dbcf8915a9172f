"""check.py <property> : run one check (environment: VERIF_TIER, VERIF_SEED)."""
import os
import sys
import traceback

os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
sys.dont_write_bytecode = True
for v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
os.environ['MPLBACKEND'] = 'Agg'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from hv import core, checks                                      # noqa: E402


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    run = core.Run(prop, tier, seed)
    try:
        return checks.CHECKS[prop](run)
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.close()


if __name__ == '__main__':
    sys.exit(main())
