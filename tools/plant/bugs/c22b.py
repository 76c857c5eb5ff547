ID="c22-prune-indexes"; PROP="C22"
NEEDS="another command adding a wheel of another version and its index while the directory, having been listed already, is indexed"
BREAKS="generate-index-json removes the index that the other command has just written"
EDITS=[("variantlib/commands/generate_index_json.py", '''    for namever, variants_json in output_files.items():
        path = directory / f"{namever}-variants.json"
''', '''    # Remove the indexes of versions whose wheels have been deleted
    for path in directory.glob("*-variants.json"):
        if path.name.removesuffix("-variants.json") not in output_files:
            path.unlink(missing_ok=True)

    for namever, variants_json in output_files.items():
        path = directory / f"{namever}-variants.json"
''')]
DEMO='''
info = {"$schema": "https://variants-schema.wheelnext.dev/v0.0.3.json", "default-priorities": {"namespace": []}, "providers": {},
        "variants": {"v": {"x": {"y": ["1"]}}}}
a = variant_wheel("aaa-1.0-py3-none-any", "v", info, "work")
variant_wheel("bbb-2.0-py3-none-any", "v", info, "in")
code = """
import sys, zipfile, subprocess, os, shutil
real = zipfile.ZipFile.namelist
def slow(self, *a, **k):
    if not os.environ.get("INNER"):
        os.environ["INNER"] = "1"
        shutil.copy(os.path.join(sys.argv[2], "../in/bbb-2.0-py3-none-any-v.whl"), sys.argv[3])
        r = subprocess.run([sys.executable, "-c", "from variantlib.commands.main import main; main()", *sys.argv[1:4]])
        assert r.returncode == 0
    return real(self, *a, **k)
zipfile.ZipFile.namelist = slow
from variantlib.commands.main import main
main()
"""
code = code.replace('os.path.join(sys.argv[2], "../in/', 'os.path.join(sys.argv[3], "../in/')
rc, o, e = py(code, "generate-index-json", "-d", p("work"))
check(rc == 0, "indexing fails because another one runs", e[-500:])
check(os.path.exists(p("work/bbb-2.0-variants.json")), os.listdir(p("work")))
ok()
'''
