ID="c06-probe-writable"; PROP="C06"
NEEDS="a reader, crash or write error between the probe and the replacement, with no index there before"
BREAKS="an empty index file is visible for a moment, or for good after a failure"
EDITS=[("variantlib/commands/generate_index_json.py", '''        path = directory / f"{namever}-variants.json"
''', '''        # Fail early if we cannot write there at all.
        path = directory / f"{namever}-variants.json"
        path.open("ab").close()
''')]
DEMO='''
a = variant_wheel("aaa-1.0-py3-none-any", "a", info({"a": {"alpha": {"f": ["1"]}}}, ["alpha"]))
code = """
import sys, pathlib
def boom(*a, **k): raise OSError(28, "no space left")
pathlib.Path.write_text = boom
from variantlib.commands.main import main
main()
"""
rc, o, e = py(code, "generate-index-json", "-d", p("in"))
check(rc != 0, "failing write not reported")
check(sorted(os.listdir(p("in"))) == ["aaa-1.0-py3-none-any-a.whl"], os.listdir(p("in")))
rc, o, e = cli("generate-index-json", "-d", p("in"))
check(rc == 0, e)
ok()
'''
