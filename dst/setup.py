"""setup_cmd: checks that the interpreter and the scratch area are usable (nothing to build)."""
import os
import subprocess
import sys

from . import ctl


def main():
    base, lock = ctl.slot()
    os.makedirs(base, exist_ok=True)
    p = subprocess.run([ctl.PY, "-c", "import variantlib, build.env, tomlkit, packaging, platformdirs"],
                       env=ctl.child_env(1, os.path.join(base, "pyc")))
    lock.close()
    sys.exit(p.returncode)


if __name__ == "__main__":
    main()
