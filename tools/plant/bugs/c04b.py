ID="c04-fresh-index"; PROP="C04"
NEEDS="a directory changed without giving any wheel a newer time: a wheel removed, or one copied in with its old time"
BREAKS="generate-index-json reports success and leaves a stale index"
EDITS=[("variantlib/commands/generate_index_json.py", '''    for namever, variants_json in output_files.items():
        path = directory / f"{namever}-variants.json"
''', '''    for namever, variants_json in output_files.items():
        path = directory / f"{namever}-variants.json"
        if path.is_file() and path.stat().st_mtime > max(
            wheel.stat().st_mtime for wheel in directory.glob(f"{namever}-*.whl")
        ):
            logger.info("%(path)s is up to date already.", {"path": path})
            continue
''')]
DEMO='''
import time
for l in "ab":
    variant_wheel("aaa-1.0-py3-none-any", l, info({l: {"alpha": {"f": [l]}}}, ["alpha"]))
    os.utime(p("in/aaa-1.0-py3-none-any-%s.whl" % l), (1000, 1000))
rc, o, e = cli("generate-index-json", "-d", p("in")); check(rc == 0, e)
os.unlink(p("in/aaa-1.0-py3-none-any-a.whl"))
rc, o, e = cli("generate-index-json", "-d", p("in")); check(rc == 0, e)
d = json.load(open(p("in/aaa-1.0-variants.json")))
check(list(d["variants"]) == ["b"], d["variants"])
ok()
'''
