"""check <ID> [quick|thorough]: exit 0 held, 1 VIOLATION, 2 machinery failure."""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
import importlib


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    check = common.Check(prop, tier)
    try:
        mod = importlib.import_module(prop.lower())
        mod.main(check)
    except common.MachineryError as e:
        print("MACHINERY ERROR:", e, file=sys.stderr)
        sys.exit(2)
    except Exception as e:  # noqa: BLE001
        traceback.print_exc()
        t = common.crash_trace(e)
        if t is None:
            sys.exit(2)
        check.fails.append((t, t.events[0], "unexpected_exception"))
    sys.exit(check.finish())


main()
