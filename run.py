"""Entry point of every check:  run.py <property> [--tier quick|thorough] [--replay file]"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-W", "ignore"] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp.runner import main  # noqa: E402

if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
