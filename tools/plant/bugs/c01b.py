ID="c01-empty-file-attrs"; PROP="C01"
NEEDS="an input wheel with an empty file whose permissions are not the default"
BREAKS="make-variant loses mode and timestamp of empty files"
EDITS=[("variantlib/commands/make_variant.py", '''                else:
                    with output_zip.open(file_info, "w") as output_file:
                        shutil.copyfileobj(input_file, output_file)''', '''                elif file_info.file_size == 0:
                    # Nothing to copy (directories and package markers)
                    output_zip.writestr(file_info.filename, b"")
                else:
                    with output_zip.open(file_info, "w") as output_file:
                        shutil.copyfileobj(input_file, output_file)''')]
DEMO='''
put("work/pyproject.toml", "")
w = wheel("demo-1.0-py3-none-any.whl", [("demo/__init__.py", "", 0o755), ("{di}/METADATA", "Name: demo\\n")])
rc, o, e = cli("make-variant", "-f", w, "-o", p("out"), "--null-variant", "--no-isolation")
check(rc == 0, e)
a = {m[0]: m[1] for m in members(w)}
b = {m[0]: m[1] for m in members(p("out/demo-1.0-py3-none-any-null.whl"))}
check(a["demo/__init__.py"] == b["demo/__init__.py"], "attributes changed")
ok()
'''
