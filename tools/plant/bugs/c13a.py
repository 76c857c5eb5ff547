ID="c13-sorted-values"; PROP="C13"
NEEDS="an ahead-of-time provider whose supported values are not in alphabetical order"
BREAKS="the order of preference of the provider is lost when its answer is frozen into the wheel"
EDITS=[("variantlib/api.py", '''                    variant_json.static_properties[config.namespace][vfeat.name] = (
                        vfeat.values
                    )
''', '''                    variant_json.static_properties[config.namespace][vfeat.name] = (
                        sorted(set(vfeat.values))
                    )
''')]
DEMO='''
plugin("alpha", [("f", ["c", "a", "b"], False)], aot=True)
put("work/pyproject.toml", """[variant.default-priorities]
namespace = ["alpha"]
[variant.providers.alpha]
requires = ["alpha-plugin"]
plugin-api = "alpha_plugin:P"
install-time = false
""")
w = wheel("demo-1.0-py3-none-any.whl", [("{di}/METADATA", "Name: demo\\n")])
rc, o, e = cli("make-variant", "-f", w, "-o", p("out"), "-p", "alpha :: f :: a", "--variant-label", "x", "--no-isolation")
check(rc == 0, e)
d = json.loads([m[2] for m in members(p("out/demo-1.0-py3-none-any-x.whl")) if m[0].endswith("/variant.json")][0])
check(d["static-properties"]["alpha"]["f"] == ["c", "a", "b"], d["static-properties"])
ok()
'''
