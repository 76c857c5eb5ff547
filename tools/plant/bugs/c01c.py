ID="c01-unescaped-json"; PROP="C01"
NEEDS="variant metadata of the project with characters outside ASCII (here in a requirement's marker)"
BREAKS="RECORD states the number of characters of variant.json instead of its size"
EDITS=[("variantlib/variants_json.py", '''json.dumps(data, indent=4, sort_keys=True)''', '''json.dumps(data, indent=4, sort_keys=True, ensure_ascii=False)''')]
DEMO='''
put("work/pyproject.toml", """
[variant.default-priorities]
namespace = ["alpha"]
[variant.providers.alpha]
requires = ["alpha-plugin; platform_version != '\\u00e9\\u00e8'"]
plugin-api = "alpha_plugin:P"
""")
w = wheel("demo-1.0-py3-none-any.whl", [("demo/__init__.py", "x"), ("{di}/METADATA", "Name: demo\\n")])
rc, o, e = cli("make-variant", "-f", w, "-o", p("out"), "--null-variant", "--no-isolation")
check(rc == 0, e)
with zipfile.ZipFile(p("out/demo-1.0-py3-none-any-null.whl")) as z:
    data = z.read("demo-1.0.dist-info/variant.json")
    row = [r for r in z.read("demo-1.0.dist-info/RECORD").decode().splitlines() if "variant.json" in r][0]
check(row.split(",")[2] == str(len(data)), "RECORD:", row, "size:", len(data))
ok()
'''
