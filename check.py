#!/usr/bin/env python3
"""usage: check.py <property id> [...]   -- static checks of /repo's current source (nothing in /repo is executed)"""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(30000)
import threading


def main():
    from sa.model import Program, AnalysisBroken
    from sa.report import finish
    rc = 0
    for pid in sys.argv[1:]:
        mod = importlib.import_module("checks." + pid.lower())
        try:
            prog = Program()
            rep = mod.run(prog)
            r = finish(rep, prog, assumptions=getattr(mod, "ASSUMPTIONS", ()))
        except AnalysisBroken as e:
            print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
            r = 3
        except SyntaxError as e:
            print("ANALYSIS-BROKEN property=%s cannot parse: %s" % (pid, e))
            r = 3
        except Exception:
            traceback.print_exc()
            r = 4
        rc = max(rc, r)
    return rc


res = []
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=lambda: res.append(main()))
t.start()
t.join()
sys.stdout.flush()
os._exit(res[0] if res else 5)
