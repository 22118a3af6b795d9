import sys
import threading

sys.setrecursionlimit(30000)
threading.stack_size(512 * 1024 * 1024)


def _go():
    global rc
    from .core import main
    rc = main(sys.argv[1:])


rc = 3
t = threading.Thread(target=_go)
t.start()
t.join()
sys.exit(rc)
