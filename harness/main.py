from __future__ import annotations
import importlib, os, sys, traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
import vlib  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ck = vlib.Check(pid, tier, seed)
    try:
        mod = importlib.import_module(f"checks.{pid.lower()}")
        mod.run(ck)
    except vlib.MachineryError as e:
        print(f"MACHINERY ERROR in {pid}: {e}", file=sys.stderr)
        return 2
    except Exception:  # noqa: BLE001
        tb = traceback.format_exc()
        # an exception that comes out of the code under test in a place no check expects one
        ck.violation("unexpected exception", {"traceback": tb[-3000:]}) if str(vlib.REPO) in tb else None
        if not ck.viol:
            print(tb, file=sys.stderr)
            return 2
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
