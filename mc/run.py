import importlib
import os
import sys
import warnings

warnings.filterwarnings('ignore')
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))   # VERIF_REPO: only for trying planted bugs
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True


def module_for(prop):
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks')
    for f in sorted(os.listdir(d)):
        if f.startswith(prop.lower() + '_') and f.endswith('.py'):
            return importlib.import_module('checks.' + f[:-3])
    raise SystemExit(f'no check for {prop}')


if __name__ == '__main__':
    from mc import core
    prop = sys.argv[1]
    rc = core.main(module_for(prop), sys.argv[2:])
    sys.stdout.flush()
    os._exit(rc)
