import importlib
import os
import sys
import traceback


def run():
    pid = sys.argv[1]
    try:
        import vf  # noqa: F401
        import warnings, logging

        warnings.simplefilter("ignore")
        logging.disable(logging.CRITICAL)
        from vf import nutsub

        nutsub.install()
        import aemcmc

        repo = os.path.realpath(os.environ.get("VF_REPO", "/repo"))
        assert os.path.realpath(aemcmc.__file__).startswith(repo + os.sep), aemcmc.__file__
        mod = importlib.import_module(f"checks.{pid.lower()}")
        from vf import core

        code = core.main(pid, mod.SUBS, sys.argv[2:], getattr(mod, "ASSUMPTIONS", []))
    except BaseException:
        traceback.print_exc()
        code = 3
    sys.stdout.flush()
    sys.exit(code)


if __name__ == "__main__":
    run()
