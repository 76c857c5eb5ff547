ID="c02-build-tag"; PROP="C02"
NEEDS="a variant wheel with a build number in its file name"
BREAKS="unmake-variant drops the build tag from the file name, so the original wheel is not restored (and another build can be overwritten)"
EDITS=[("variantlib/commands/unmake_variant.py", '''    output_filepath = output_directory / f"{wheel_info.group('base_wheel_name')}.whl"
''', '''    output_name = "-".join(wheel_info.group("namever", "pyver", "abi", "plat"))
    output_filepath = output_directory / f"{output_name}.whl"
''')]
DEMO='''
put("work/pyproject.toml", "")
w = wheel("demo-1.0-2abc-py3-none-any.whl", [("demo/__init__.py", "x"), ("{di}/METADATA", "Name: demo\\n")])
rc, o, e = cli("make-variant", "-f", w, "-o", p("out"), "--null-variant", "--no-isolation")
check(rc == 0, e)
rc, o, e = cli("unmake-variant", "-f", p("out/demo-1.0-2abc-py3-none-any-null.whl"), "-o", p("out"))
check(rc == 0, e)
check(os.path.exists(p("out/demo-1.0-2abc-py3-none-any.whl")), os.listdir(p("out")))
ok()
'''
