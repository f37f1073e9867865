import sys
import traceback

from mc import core


def run(argv):
    if not argv:
        print('usage: check <property>|replay <file> [--quick|--thorough]')
        return 2
    if argv[0] == 'setup':
        print('interpreter', sys.version)
        import yaml, omegaconf, dateparser
        return 0
    if argv[0] == 'replay':
        return core.replay(argv[1])
    try:
        prop = core.get_property(argv[0])
    except Exception:
        # the package cannot even be imported: nothing can hold
        traceback.print_exc()
        return core.broken(argv[0])
    return core.main(prop, argv[1:])


sys.exit(run(sys.argv[1:]))
