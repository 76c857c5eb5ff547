ID="c02-already-unmade"; PROP="C02"
NEEDS="a plain wheel of the same name already in the output directory that is newer than the variant wheel but differs from it"
BREAKS="unmake-variant reports success but leaves a different wheel in place"
EDITS=[("variantlib/commands/unmake_variant.py", '''    output_filepath = output_directory / f"{wheel_info.group('base_wheel_name')}.whl"
''', '''    output_filepath = output_directory / (wheel_info.group("base_wheel_name") + ".whl")
    if (
        output_filepath.is_file()
        and output_filepath.stat().st_mtime >= input_filepath.stat().st_mtime
    ):
        logger.info("%(output)s is up to date already.", {"output": output_filepath})
        return
''')]
DEMO='''
put("work/pyproject.toml", '[variant.default-priorities]\\nnamespace = []\\n')
a = wheel("aaa-1.0-py3-none-any.whl", [("m.py", "old"), ("{di}/METADATA", "Name: aaa\\n")])
rc, o, e = cli("make-variant", "-f", a, "-o", p("out"), "--null-variant", "--no-isolation")
check(rc == 0, e)
wheel("aaa-1.0-py3-none-any.whl", [("m.py", "other build"), ("{di}/METADATA", "Name: aaa\\n")], rel="out")
rc, o, e = cli("unmake-variant", "-f", p("out/aaa-1.0-py3-none-any-null.whl"), "-o", p("out"))
check(rc == 0, e)
z = zipfile.ZipFile(p("out/aaa-1.0-py3-none-any.whl"))
check(z.read("m.py") == b"old", "unmake-variant did not undo", z.read("m.py"))
ok()
'''
