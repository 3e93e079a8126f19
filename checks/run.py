"""usage: run.py <property id>"""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(40000)


def main():
    import threading
    pid = sys.argv[1]
    from checks import base
    code = [2]

    def go():
        try:
            mod = importlib.import_module(f"checks.{pid.lower()}")
            c = mod.check()
            code[0] = c.finish()
        except (base.Limit, base.Skip) as e:
            c = base.CURRENT[-1]
            c.ob(False, "analysis", f"{type(e).__name__}: {e}", undecided=True)
            code[0] = c.finish()
        except base.Enough:
            code[0] = base.CURRENT[-1].finish()
        except base.Broken as e:
            print(f"ANALYSIS-BROKEN property={pid}: {e}")
        except BaseException:      # noqa
            traceback.print_exc()
            print(f"ANALYSIS-BROKEN property={pid}: internal error")
    threading.stack_size(1 << 29)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(code[0])


if __name__ == "__main__":
    main()
