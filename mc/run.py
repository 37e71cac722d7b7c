"""python -m mc.run <property id> <quick|thorough> [--unit NAME]"""
import importlib
import os
import sys


def main(argv):
    sys.dont_write_bytecode = True
    pid, tier = argv[0], (argv[1] if len(argv) > 1 else "quick")
    only = argv[argv.index("--unit") + 1] if "--unit" in argv else None
    from . import engine
    try:
        check = importlib.import_module("mc.props." + pid.lower())
    except Exception as e:  # noqa: BLE001
        import traceback
        if engine.in_code(e.__traceback__):
            print("what: importing the code raised %s: %s" % (type(e).__name__, e))
            print("VIOLATION property=%s replay=%s" % (pid, "import"))
            return 1
        traceback.print_exc()
        return 2
    return engine.run_check(check, tier, only)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") is None:      # the same run every time
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-B", "-m", "mc.run"] + sys.argv[1:])
    sys.exit(main(sys.argv[1:]))
