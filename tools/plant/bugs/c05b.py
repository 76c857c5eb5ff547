ID="c05-label-already-listed"; PROP="C05"
NEEDS="adding a wheel whose label is already in the index but which has other properties or metadata"
BREAKS="add-wheel-to-index-json reports success although the wheel is not what the index says"
EDITS=[("variantlib/commands/add_wheel_to_index_json.py", '''    else:
        variant_json.merge(variant_dist_info)
''', '''    elif vlabel not in variant_json.variants:
        variant_json.merge(variant_dist_info)
''')]
DEMO='''
a = info({"aa": {"alpha": {"f": ["1"]}}}, ["alpha"])
b = info({"aa": {"alpha": {"f": ["2"]}}}, ["alpha"])
variant_wheel("demo-1.0-py3-none-any", "aa", a)
variant_wheel("demo-1.0-py3-none-win32", "aa", b)
rc, o, e = cli("add-wheel-to-index-json", "-f", p("in/demo-1.0-py3-none-any-aa.whl"), "-o", p("out"))
check(rc == 0, e)
rc, o, e = cli("add-wheel-to-index-json", "-f", p("in/demo-1.0-py3-none-win32-aa.whl"), "-o", p("out"), "-w",
               "-i", p("out/demo-1.0-variants.json"))
check(rc != 0, "a conflicting wheel was accepted")
ok()
'''
