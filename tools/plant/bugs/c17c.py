ID="c17-rebuild-priorities"; PROP="C17"
NEEDS="a namespace priority list with comments or its own layout, and a deletion of a namespace"
BREAKS="the comments and layout of the remaining list are lost"
EDITS=[("variantlib/commands/update_pyproject_toml.py", '''            while namespace in namespace_prio_key:
                namespace_prio_key.remove(namespace)
''', '''            if namespace in namespace_prio_key:
                # Drop all of its entries at once
                default_prio_table[VARIANT_INFO_NAMESPACE_KEY] = [
                    x for x in namespace_prio_key if x != namespace
                ]
                namespace_prio_key = default_prio_table[VARIANT_INFO_NAMESPACE_KEY]
''')]
DEMO='''
put("work/pyproject.toml", """[variant.default-priorities]
namespace = [
    "alpha",
    "beta",  # keep beta before gamma
    "gamma",
]
[variant.providers.alpha]
requires = ["alpha-plugin"]
""")
rc, o, e = cli("update-pyproject-toml", "-f", p("work/pyproject.toml"), "-d", "alpha")
check(rc == 0, e)
t = open(p("work/pyproject.toml")).read()
check("# keep beta before gamma" in t and '"beta"' in t and '"gamma"' in t and '"alpha"' not in t, t)
ok()
'''
