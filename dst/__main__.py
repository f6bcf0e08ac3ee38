import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dst import engine, registry  # noqa: E402


def main(argv):
    if argv and argv[0] == 'replay':
        return engine.replay(registry.get, argv[1])
    if argv and argv[0] == 'setup':         # nothing to build: everything is Python, imported from /repo when run
        for i in range(1, 24):
            registry.get('C%02d' % i)
        print('ready')
        return 0
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(argv) > 1:
        tier = argv[1]
    base = int(os.environ.get('VERIF_SEED', '1'))
    return engine.run_check(registry.get(prop), tier, base)


if __name__ == '__main__':
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
