import importlib
import os
import sys
import traceback


def main(argv):
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from rt import core
    prop, mode = argv[0], argv[1]
    try:
        core.import_sut()
    except core.Inconclusive as e:
        print('INCONCLUSIVE', e)
        return 2
    except Exception:
        traceback.print_exc()
        print('INCONCLUSIVE: the code under test cannot be imported')
        return 2
    mod = importlib.import_module(f'rt.props.{prop.lower()}')
    if mode == 'replay':
        return core.replay(mod, argv[2])
    return core.run_property(mod, mode, int(os.environ.get('VERIF_SEED', '1') or 1))


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
