ID="c03-unlink-stale"; PROP="C03"
NEEDS="an existing output wheel of the same name, and an error or kill while the new one is written"
BREAKS="unmake-variant removes the existing output before the new one is complete; a failure leaves neither"
EDITS=[("variantlib/commands/unmake_variant.py", '''    output_filepath = output_directory / f"{wheel_info.group('base_wheel_name')}.whl"
''', '''    output_filepath = output_directory / f"{wheel_info.group('base_wheel_name')}.whl"
    # Do not leave a stale wheel behind if the input turns out to be unusable
    output_filepath.unlink(missing_ok=True)
'''.replace("output_filepath = output_directory /", "output_filepath = output_directory.absolute() /"))]
DEMO='''
w = wheel("demo-1.0-py3-none-any-null.whl", [("demo/__init__.py", "x" * 5000), ("{di}/METADATA", "Name: demo\\n")])
data = bytearray(open(w, "rb").read())
i = data.find(b"demo/__init__.py") + 20
data[i] ^= 0xff                       # damaged input: reading it fails
open(w, "wb").write(bytes(data))
put("out/demo-1.0-py3-none-any.whl", b"old output")
rc, o, e = cli("unmake-variant", "-f", w, "-o", p("out"))
check(rc != 0, "damaged wheel accepted")
check(os.path.exists(p("out/demo-1.0-py3-none-any.whl")), "the previous output is gone after a failure")
ok()
'''
