ID="c03-record-alphabet"; PROP="C03"
NEEDS="variant metadata whose digest contains the bits that differ between the two base64 alphabets"
BREAKS="RECORD of the variant wheel carries a hash in the wrong alphabet, so installers reject the wheel"
EDITS=[("variantlib/commands/make_variant.py", '''                        new_sha256 = base64.urlsafe_b64encode(
''', '''                        new_sha256 = base64.b64encode(
''')]
DEMO='''
import csv
for i in range(12):
    put("work/pyproject.toml", f'[variant.default-priorities]\\nnamespace = ["n{i}"]\\n[variant.providers.n{i}]\\nrequires = ["x"]\\n')
    w = wheel("demo-1.0-py3-none-any.whl", [("demo/__init__.py", "x"), ("{di}/METADATA", "Name: demo\\n")])
    rc, o, e = cli("make-variant", "-f", w, "-o", p("out"), "--null-variant", "--no-isolation")
    check(rc == 0, e)
    with zipfile.ZipFile(p("out/demo-1.0-py3-none-any-null.whl")) as z:
        for path, h, n in csv.reader(io.StringIO(z.read("demo-1.0.dist-info/RECORD").decode())):
            if h:
                d = base64.urlsafe_b64encode(hashlib.sha256(z.read(path)).digest()).rstrip(b"=").decode()
                check(h == "sha256=" + d, path, h, d)
ok()
'''
