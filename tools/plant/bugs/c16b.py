ID="c16-shared-script-dir"; PROP="C16"
NEEDS="two threads querying providers at the same time: one finishes while the other is about to start its process"
BREAKS="one thread removes the script directory the other is using"
EDITS=[("variantlib/plugins/loader.py", '''        with TemporaryDirectory(prefix="variantlib") as temp_dir:
''', '''        with _script_directory() as temp_dir:
'''), ("variantlib/plugins/loader.py", '''class BasePluginLoader:
    """Load and query plugins"""
''', '''@contextmanager
def _script_directory() -> Generator[str]:
    # one directory per process is enough
    path = Path(gettempdir()) / f"variantlib-{os.getpid()}"
    path.mkdir(exist_ok=True)
    try:
        yield str(path)
    finally:
        shutil.rmtree(path, ignore_errors=True)


class BasePluginLoader:
    """Load and query plugins"""
'''), ("variantlib/plugins/loader.py", '''from tempfile import TemporaryDirectory
''', '''from tempfile import gettempdir
'''), ("variantlib/plugins/loader.py", '''import json
''', '''import json
import os
import shutil
'''), ("variantlib/plugins/loader.py", '''from contextlib import suppress
''', '''from contextlib import contextmanager
from contextlib import suppress
'''), ("variantlib/plugins/loader.py", '''    from types import TracebackType
''' , '''    from collections.abc import Generator
    from types import TracebackType
''')]
DEMO='''
plugin("alpha", [("f", ["1"], False)], extra="import time; time.sleep(1.0)")
plugin("beta", [("f", ["1"], False)])
rc, o, e = py("""
import threading, time, subprocess
from variantlib.plugins.loader import ListPluginLoader
real = subprocess.run
gate = threading.Event()
def run(cmd, *a, **k):
    if "alpha_plugin:P" in cmd:       # a slow start of this process
        gate.set()
        time.sleep(2.5)
    return real(cmd, *a, **k)
subprocess.run = run
res = {}
def f(n):
    try:
        with ListPluginLoader([n + "_plugin:P"]) as l:
            res[n] = l.namespaces
    except BaseException as e:
        res[n] = repr(e)
a = threading.Thread(target=f, args=("alpha",))
a.start()
gate.wait()
f("beta")
a.join()
print(res["alpha"], res["beta"])
""")
check(o.strip() == "['alpha'] ['beta']", o, e)
ok()
'''
