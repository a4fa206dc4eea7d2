"""Profile one case in-process: profile_case.py CHECK CASE [seconds]"""
import cProfile
import os
import pstats
import random
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run as R                                                       # noqa
from symex import explore, core                                       # noqa


def main():
    check, name, secs = sys.argv[1], sys.argv[2], float(sys.argv[3]) if len(sys.argv) > 3 else 10
    tier = sys.argv[4] if len(sys.argv) > 4 else 'quick'
    mod = explore.load_check(check.lower())
    case = [c for c in mod.cases(tier) if c['name'] == name][0]
    pr = cProfile.Profile()
    pr.enable()
    out = explore.explore_slice(case, [], set(), secs, random.Random(1), 2)
    pr.disable()
    print({k: (v if not isinstance(v, (list, set)) else len(v)) for k, v in out.items()})
    print(out['violations'][:3], out['cut'][:3], out['errors'])
    pstats.Stats(pr).sort_stats('tottime').print_stats(35)


main()
