#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [-v]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vp.report import main
if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    def go():
        try:
            out.append(main(sys.argv[1:]))
        except BaseException:
            import traceback
            traceback.print_exc()
            out.append(3)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 3)
