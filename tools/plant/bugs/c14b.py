ID="c14-optional-marker"; PROP="C14"
NEEDS="a provider that is both optional and has an environment marker"
BREAKS="the built wheel and the index do not say that the provider is optional, so it is queried and its variants are offered without being enabled"
EDITS=[("variantlib/variants_json.py", '''        if provider_info.enable_if is not None:
            yield (VARIANT_INFO_PROVIDER_ENABLE_IF_KEY, provider_info.enable_if)
        if provider_info.optional:
''', '''        if provider_info.enable_if is not None:
            yield (VARIANT_INFO_PROVIDER_ENABLE_IF_KEY, provider_info.enable_if)
        elif provider_info.optional:
''')]
DEMO='''
put("work/pyproject.toml", """[variant.default-priorities]
namespace = ["alpha"]
[variant.providers.alpha]
requires = ["alpha-plugin"]
plugin-api = "alpha_plugin:P"
enable-if = "python_version > '3.0'"
optional = true
""")
a = wheel("aaa-1.0-py3-none-any.whl", [("m.py", "x"), ("{di}/METADATA", "Name: aaa\\n")])
rc, o, e = cli("make-variant", "-f", a, "-o", p("out"), "-p", "alpha :: f :: 1", "--skip-plugin-validation", "--variant-label", "v", "--no-isolation")
check(rc == 0, e)
d = json.loads(zipfile.ZipFile(p("out/aaa-1.0-py3-none-any-v.whl")).read("aaa-1.0.dist-info/variant.json"))
check(d["providers"]["alpha"].get("optional") is True, d["providers"])
ok()
'''
