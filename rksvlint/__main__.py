import os
import sys

if __name__ == '__main__':
    # term identity must not depend on string hashing
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable, '-m', 'rksvlint'] + sys.argv[1:])
    import resource
    import threading
    resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) if False else None
    from .core import main
    sys.exit(main(sys.argv[1:]))
