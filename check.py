"""Entry point: check.py PID.  See DESIGN.md."""
import importlib
import os
import signal
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.path.insert(0, os.environ.get("SWP_REPO", "/repo"))
import common  # noqa: E402


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = common.Ctx(pid, tier, seed)

    def late(sig, frame):
        """A check takes seconds; one that is in the library's code after this long is in an endless loop there."""
        signal.alarm(30)
        while frame is not None:
            if frame.f_code.co_filename.startswith(common.REPO + "/"):
                raise TimeoutError("endless loop in " + frame.f_code.co_name)
            frame = frame.f_back
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get("SWP_ALARM", 400)) if tier == "quick" else 3000)
    try:
        try:
            import swprocess
            if not os.path.abspath(swprocess.__file__).startswith(common.REPO + "/"):
                print("machinery: swprocess imported from", swprocess.__file__)
                return 2
        except Exception:
            ctx.violation("swprocess cannot be imported", traceback.format_exc())
            return ctx.finish()
        from registry import CHECKS
        modname, fn = CHECKS[pid]
        mod = importlib.import_module(modname)
        try:
            getattr(mod, fn)(ctx)
        except common.Stop:
            pass
        return ctx.finish()
    except common.Machinery as ex:
        print("machinery failure:", ex)
        if ctx.violations:
            return ctx.finish()
        return 2
    except Exception as ex:
        # An exception while driving the code under test: report it as a verdict only if it came out of the code under test.
        tb = traceback.format_exc()
        last = traceback.extract_tb(sys.exc_info()[2])
        if any(f.filename.startswith(common.REPO + "/") for f in last) or \
                isinstance(ex, (IndexError, KeyError, ValueError, TypeError, ZeroDivisionError, OverflowError)):
            # the latter: what the library returned could not even be read (it can on the unchanged tree)
            try:
                ctx.violation("the code under test raised while being driven or observed: " + tb.splitlines()[-1], tb)
            except common.Stop:
                pass
            return ctx.finish()
        print(tb)
        if ctx.violations:
            return ctx.finish()
        return 2


if __name__ == "__main__":
    sys.exit(main())
