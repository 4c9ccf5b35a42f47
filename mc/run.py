"""python -m mc.run <PID>: run the check of one property."""
import importlib
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B", "-m", "mc.run"] + sys.argv[1:])

from mc import core  # noqa: E402


def main():
    pid = sys.argv[1]
    name = [m for m in os.listdir(os.path.join(core.VERIF, "mc", "checks")) if m.lower().startswith(pid.lower() + "_")][0]
    module = importlib.import_module("mc.checks." + name[:-3])
    if os.environ.get("VERIF_TIER", "quick") != "thorough":
        core.watchdog(780)
    code = core.run_check(module)
    sys.stdout.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
