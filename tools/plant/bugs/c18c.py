ID="c18-set-requires"; PROP="C18"
NEEDS="a provider that names a requirement twice, and two runs with different hash seeds"
BREAKS="the order of the requirements in the index changes from run to run"
EDITS=[("variantlib/models/variant_info.py", '''                        validator.list_matches_re(VALIDATION_PROVIDER_REQUIRES_REGEX)
''', '''                        validator.list_matches_re(VALIDATION_PROVIDER_REQUIRES_REGEX)
                        if len(unique := set(provider_requires)) < len(
                            provider_requires
                        ):
                            # Do not install (or merge) the same thing twice
                            provider_requires = list(unique)  # noqa: PLW2901
''')]
DEMO='''
put("work/pyproject.toml", """[variant.default-priorities]
namespace = ["alpha"]
[variant.providers.alpha]
requires = ["alpha-plugin", "b-lib", "c-lib", "d-lib", "e-lib", "b-lib"]
plugin-api = "alpha_plugin:P"
""")
a = wheel("aaa-1.0-py3-none-any.whl", [("m.py", "x"), ("{di}/METADATA", "Name: aaa\\n")])
got = set()
for seed in range(6):
    rc, o, e = cli("make-variant", "-f", a, "-o", p("out"), "-p", "alpha :: f :: 1", "--skip-plugin-validation", "--variant-label", "v", "--no-isolation", PYTHONHASHSEED=str(seed))
    check(rc == 0, e)
    got.add(zipfile.ZipFile(p("out/aaa-1.0-py3-none-any-v.whl")).read("aaa-1.0.dist-info/variant.json"))
check(len(got) == 1, "output depends on the hash seed")
ok()
'''
