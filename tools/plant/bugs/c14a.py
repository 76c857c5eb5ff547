ID="c14-partial-feature-prios"; PROP="C14"
NEEDS="an ahead-of-time provider with several features of which the project prioritises only some"
BREAKS="make-variant writes a wheel that every consumer rejects for missing feature priorities"
EDITS=[("variantlib/api.py", '''                        feature_prios = variant_json.feature_priorities.setdefault(
                            config.namespace, []
                        )
                        if vfeat.name not in feature_prios:
                            feature_prios.append(vfeat.name)
''', '''                        variant_json.feature_priorities.setdefault(
                            config.namespace, [x.name for x in config.configs]
                        )
''')]
DEMO='''
plugin("alpha", [("f", ["a", "b"], False), ("g", ["1"], False)], aot=True)
put("work/pyproject.toml", """[variant.default-priorities]
namespace = ["alpha"]
feature.alpha = ["g"]
[variant.providers.alpha]
requires = ["alpha-plugin"]
plugin-api = "alpha_plugin:P"
install-time = false
""")
w = wheel("demo-1.0-py3-none-any.whl", [("{di}/METADATA", "Name: demo\\n")])
rc, o, e = cli("make-variant", "-f", w, "-o", p("out"), "-p", "alpha :: f :: a", "--variant-label", "x", "--no-isolation")
check(rc == 0, e)
rc, o, e = cli("analyze-wheel", "-i", p("out/demo-1.0-py3-none-any-x.whl"))
check(rc == 0, "the produced wheel is rejected", e[-300:])
ok()
'''
