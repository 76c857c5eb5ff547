ID="c01-vendored-dist-info"; PROP="C01"
NEEDS="an input wheel that vendors another distribution, i.e. contains a file named variant.json in a .dist-info directory below the top level"
BREAKS="make-variant silently drops the vendored file from the wheel"
EDITS=[("variantlib/commands/make_variant.py", '''            components = file_info.filename.split("/", 2)
            is_dist_info = len(components) == 2 and components[0].endswith(".dist-info")

            if is_dist_info''', '''            components = file_info.filename.rsplit("/", 1)
            is_dist_info = len(components) == 2 and components[0].endswith(".dist-info")

            if is_dist_info''')]
DEMO='''
put("work/pyproject.toml", "")
w = wheel("demo-1.0-py3-none-any.whl", [("demo/__init__.py", "x"), ("demo/_vendor/foo-2.dist-info/variant.json", "{}"),
                                        ("{di}/METADATA", "Name: demo\\n")])
rc, o, e = cli("make-variant", "-f", w, "-o", p("out"), "--null-variant", "--no-isolation")
check(rc == 0, e)
check("demo/_vendor/foo-2.dist-info/variant.json" in [m[0] for m in members(p("out/demo-1.0-py3-none-any-null.whl"))], "vendored file lost")
ok()
'''
