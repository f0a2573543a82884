import importlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(3000)

import loader
import report

def main(argv):
    pid = argv[0]
    mod = importlib.import_module("checks." + pid)
    ck = report.Check(pid, mod.LEVEL)
    loader.prepare(openssl=getattr(mod, "OPENSSL", False))
    try:
        if len(argv) > 2 and argv[1] == "--replay":
            data = json.load(open(argv[2]))
            return mod.replay(ck, data["replay"])
        mod.run(ck)
    except report.Violation as v:
        ck.violation(v)
    except report.HarnessError as e:
        print(e)
        print(f"HARNESS ERROR in {pid}")
        return 2
    except Exception as e:
        traceback.print_exc()
        if loader.in_library(e.__traceback__):
            where = traceback.extract_tb(e.__traceback__)[-1]
            ck.violation(report.Violation(
                f"crash:{type(e).__name__}:{where.name}",
                f"unexpected {report.describe(e)} in {where.name}"))
        else:
            print(f"HARNESS ERROR in {pid}")
            return 2
    return ck.finish()

if __name__ == "__main__":
    code = main(sys.argv[1:])
    sys.stdout.flush()
    loader._cleanup()
    os._exit(code)
