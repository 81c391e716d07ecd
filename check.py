"""check.py PROPERTY [--tier quick|thorough] [--only SUBSTRING]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import harness  # noqa
from checks import registry  # noqa


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--only')
    a = ap.parse_args()
    pl = registry.PLANS[a.prop]
    obs = pl['obs'](a.tier)
    if a.only:
        obs = [o for o in obs if a.only in o['id']]
    return harness.main(a.prop, obs, a.tier, pl.get('expl', registry.EXPL), pl['bounds'],
                        registry.ASSUME + pl.get('assume', []),
                        total=pl.get('total', 600 if a.tier == 'quick' else 3 * 3600),
                        seed=int(os.environ.get('VERIF_SEED') or 1))


if __name__ == '__main__':
    sys.exit(main())
