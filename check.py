"""check.py <property> [--tier quick|thorough]: run one property's check."""
from __future__ import annotations
import importlib, os, sys, traceback, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

from lib.harness import Check
from lib.tlc import MachineryError, UnreadableTrace

from tools.registry import DRIVERS


CHK: list[Check] = []


def main() -> int:
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    chk = Check(prop, tier, seed)
    CHK.append(chk)
    import jsonclasses
    where = os.path.dirname(os.path.abspath(jsonclasses.__file__))
    if where != os.path.join(os.path.abspath(REPO), 'jsonclasses'):
        raise MachineryError(f'jsonclasses imported from {where}')
    driver = importlib.import_module('drivers.' + DRIVERS[prop])
    driver.run(prop, chk)
    return chk.finish()


if __name__ == '__main__':
    try:
        code = main()
    except UnreadableTrace as e:
        # The code showed values that do not even fit the specification's types.
        CHK[0].violation({'kind': 'trace', 'error': str(e)[:3000]}, 'outside the domain')
        code = CHK[0].finish()
    except MachineryError as e:
        print('MACHINERY-ERROR', e)
        code = CHK[0].finish() if CHK and CHK[0].violations else 3
    except (MemoryError, OSError) as e:
        traceback.print_exc()
        code = CHK[0].finish() if CHK and CHK[0].violations else 3
    except Exception as e:
        # An exception nobody expected: the code under test raised it, or
        # handed the driver something no tree with the property hands out.
        traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)
        CHK[0].violation({'kind': 'crash', 'error': repr(e), 'cause': str(e.__cause__)[-1500:],
                          'where': [f'{f.filename}:{f.lineno}' for f in tb][-6:]}, 'crash')
        code = CHK[0].finish()
    sys.stdout.flush()
    os._exit(code)
