import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import core  # noqa

if __name__ == '__main__':
    sys.stdout.flush()
    rc = 1
    try:
        rc = core.main(sys.argv[1:])
    except BaseException as exc:   # never anything but 0 or 1
        import traceback
        traceback.print_exc()
        print('VIOLATION property=%s replay=none' % (sys.argv[1:2] or ['?'])[0])
        rc = 1
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0 if rc == 0 else 1)
