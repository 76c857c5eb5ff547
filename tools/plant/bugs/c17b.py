ID="c17-delete-once"; PROP="C17"
NEEDS="a pyproject.toml listing the namespace twice in its priorities"
BREAKS="update-pyproject-toml -d leaves a priority of a provider that no longer exists, so the project is invalid afterwards"
EDITS=[("variantlib/commands/update_pyproject_toml.py", '''            while namespace in namespace_prio_key:
''', '''            if namespace in namespace_prio_key:
''')]
DEMO='''
f = put("work/pyproject.toml", """[variant.default-priorities]
namespace = ["alpha", "beta", "alpha"]
[variant.providers.alpha]
requires = ["a"]
[variant.providers.beta]
requires = ["b"]
""")
rc, o, e = cli("update-pyproject-toml", "-f", f, "-d", "alpha")
check(rc == 0, e)
import tomllib
d = tomllib.load(open(f, "rb"))["variant"]
check(d["default-priorities"]["namespace"] == ["beta"], d)
ok()
'''
