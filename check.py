#!/opt/venv/bin/python
"""Usage:
    check.py CXX [--tier quick|thorough] [--runs N] [--seed S]
    check.py replay FILE
    check.py selftest [N] [CXX ...]     digests of the first N runs
    check.py setup
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sim import boot  # noqa: E402


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == 'setup':
        print(boot.build_shim())
        return 0
    boot.reexec_if_needed()
    boot.load()
    from sim import runner
    if a[0] == 'replay':
        return runner.replay(a[1])
    if a[0] == 'selftest':
        n = int(a[1]) if len(a) > 1 else 20
        props = a[2:] or sorted(
            f[:-3].upper() for f in os.listdir(
                os.path.join(HERE, 'sim', 'props')) if f.startswith('c'))
        return runner.selftest(props, n, os.environ.get('VERIF_SEED', '1'))
    if a[0] == 'batch17':
        from sim.props import c17
        return c17.digest_batch(int(a[1]), int(a[2]))
    opt = dict(zip(a[1::2], a[2::2]))
    tier = opt.get('--tier', os.environ.get('VERIF_TIER', 'quick'))
    seed = opt.get('--seed', os.environ.get('VERIF_SEED', '1'))
    runs = opt.get('--runs')
    return runner.check(a[0], tier, seed,
                        runs=None if runs is None else int(runs))


if __name__ == '__main__':
    sys.exit(main())
