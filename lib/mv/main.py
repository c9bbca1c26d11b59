"""Entry point of every check: main.py <property> [quick|thorough]."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from mv import common  # noqa: E402

MODULES = ["checks_model", "checks_units", "checks_config", "checks_exo", "checks_regional", "checks_sim",
           "checks_session", "checks_pre", "checks_well"]


def registry():
    out = {}
    for name in MODULES:
        out.update(importlib.import_module("mv." + name).CHECKS)
    return out


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    level, fn = registry()[pid]
    chk = common.Check(pid, tier, level)
    try:
        fn(chk, tier)
    except common.SpecError as e:
        print(f"ERROR in the check of {pid} itself: {e}"[:3000])
        return 2
    except Exception as e:  # noqa: BLE001
        if from_code_under_test(e):
            chk.violation(f"the code under test failed: {type(e).__name__}: {str(e)[:300]}",
                          {"trace": traceback.format_exc()[-2000:]})
        else:
            traceback.print_exc()
            return 2
    return chk.finish()


def from_code_under_test(e):
    """Whether an exception was raised inside the package under test."""
    if isinstance(e, (ImportError, SyntaxError)):
        return True
    repo = os.path.abspath(common.REPO) + os.sep
    tb = e.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(repo):
            return True
        tb = tb.tb_next
    cause = getattr(e, "__cause__", None)      # an exception of a worker process
    return cause is not None and ("\n  File \"" + repo) in str(cause)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
