#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--runs N] [--workers N]
check.py --replay FILE
check.py --selftest [property ...] [--runs N] [--seeds 1,2]
check.py --setup"""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def option(args, name, default):
    if name in args:
        i = args.index(name)
        value = args[i + 1]
        del args[i:i + 2]
        return value
    return default


def main():
    args = sys.argv[1:]
    if args and args[0] == '--worker':
        from sim import worker
        return worker.main(args[1:])
    from sim import driver
    seed = int(option(args, '--seed', os.environ.get('VERIF_SEED') or '1'))
    tier = option(args, '--tier', os.environ.get('VERIF_TIER') or 'quick')
    runs = option(args, '--runs', None)
    workers = int(option(args, '--workers', driver.WORKERS))
    seeds = [int(x) for x in option(args, '--seeds', str(seed)).split(',')]
    if tier not in ('quick', 'thorough'):
        sys.exit('unknown tier ' + tier)
    if args and args[0] == '--replay':
        return driver.replay(os.path.abspath(args[1]))
    if args and args[0] == '--selftest':
        return driver.selftest(args[1:], int(runs or 300), seeds)
    if args and args[0] == '--setup':
        from sim import boot, registry
        boot.boot()
        for p in registry.PROPS.values():
            p.load()
        print('ready: {} properties'.format(len(registry.PROPS)))
        sys.stdout.flush()
        os._exit(0)
    if len(args) != 1:
        sys.exit(__doc__)
    return driver.check(args[0], tier, seed, workers,
                        int(runs) if runs else None)


if __name__ == '__main__':
    sys.exit(main())
