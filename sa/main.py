"""python3 main.py <property id> [quick|thorough]"""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

import extract
from report import Report


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    import checks
    d = extract.extract()
    rep = Report(pid, tier)
    return checks.run(pid, d, rep, tier)


if __name__ == '__main__':
    import threading
    rc = []

    def go():
        try:
            rc.append(main())
        except extract.ExtractError as e:
            print(e)
            rc.append(2)
        except Exception:
            traceback.print_exc()
            rc.append(3)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.exit(rc[0])
