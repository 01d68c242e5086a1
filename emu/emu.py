"""emu.py REPO WORK ARCH SEED EPISODES [RULES]: random programs of contexts on one emulated port; prints STAT lines; exit 77: a property failed (one of the given rules), 69: cannot be built or emulated here"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *
from archs import ALL

def main():
    repo, work, name, seed, eps = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5])
    rules = set(sys.argv[6].split(',')) if len(sys.argv) > 6 else None; other = 0
    os.makedirs(work, exist_ok=True)
    a = ALL[name]()
    try: a.build(repo, work, name)
    except Skip as e: print(f'NOT-BUILT {name}: {e}'); return 69
    m = Monitor(a, seed); a.m = m; m.op = 0
    for e in range(eps):
        try: m.episode(m.R.randint(1, 60))
        except Skip as x: print(f'NOT-EMULATED {name}: {x}'); return 69
        except Fail as x:
            if rules and str(x).split(':')[0] not in rules: other += 1; continue
            print(f'ORACLE-FAIL {x} [{name} episode={e} operation={m.op}]'); return 77
    for k, v in m.stat.items(): print('STAT', k, v)
    print('STAT distinct_emulated_kinds', len(m.kinds)); print('STAT emulated_episodes', eps - other); print('STAT emulated_ports', 1)
    if other: print('STAT emulated_episodes_ended_by_other_rules', other)
    print(f'SAMPLE emulated {name} seed={seed} episodes={eps}')
    return 0
sys.exit(main())
