ID="c12-any-value-valid"; PROP="C12"
NEEDS="several values for one multi-value feature, of which the provider knows only some"
BREAKS="an unknown value is accepted when another value of the same multi-value feature is valid"
EDITS=[("variantlib/api.py", '''            else (
                vprop.value
                in configs[vprop.namespace].get(vprop.feature, ([], False))[0]
            )
            for vprop in variant_desc.properties
        },''', '''            else (
                vprop.value
                in (feature := configs[vprop.namespace].get(vprop.feature, ([], False)))[0]
                # any single match suffices for multi-value features
                or (
                    feature[1]
                    and any(
                        other.value in feature[0]
                        for other in variant_desc.properties
                        if other.feature_hash == vprop.feature_hash
                    )
                )
            )
            for vprop in variant_desc.properties
        },''')]
DEMO='''
plugin("alpha", [("f", ["a", "b", "c"], True)])
put("work/pyproject.toml", """[variant.default-priorities]
namespace = ["alpha"]
[variant.providers.alpha]
requires = ["alpha-plugin"]
plugin-api = "alpha_plugin:P"
""")
w = wheel("demo-1.0-py3-none-any.whl", [("{di}/METADATA", "Name: demo\\n")])
rc, o, e = cli("make-variant", "-f", w, "-o", p("out"), "-p", "alpha :: f :: a", "alpha :: f :: b", "--no-isolation")
check(rc == 0, e)
rc, o, e = cli("make-variant", "-f", w, "-o", p("out"), "-p", "alpha :: f :: a", "alpha :: f :: zzz", "--no-isolation")
check(rc != 0, "unknown value accepted")
ok()
'''
