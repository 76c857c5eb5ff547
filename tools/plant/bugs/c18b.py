ID="c18-abi-listing-order"; PROP="C18"
NEEDS="two variants depending on the versions of two different packages, whose metadata directories are listed in another order"
BREAKS="the ranking depends on the order in which the file system lists installed packages"
EDITS=[("variantlib/resolver/lib.py", '''    for pkg_name, pkg_version in sorted(packages.items()):
''', '''    for pkg_name, pkg_version in packages.items():
''')]
DEMO='''
for n in ("aaa", "bbb"):
    os.makedirs(p(f"site/{n}-1.0.dist-info"))
    put(f"site/{n}-1.0.dist-info/METADATA", f"Metadata-Version: 2.1\\nName: {n}\\nVersion: 1.0\\n")
got = set()
for rev in (False, True):
    rc, o, e = py("""
import os, sys
real = os.listdir
os.listdir = lambda *a: sorted(real(*a), reverse=%r)
from variantlib.api import get_variants_by_priority
print(get_variants_by_priority(variants_json={"$schema": "https://variants-schema.wheelnext.dev/v0.0.3.json",
  "default-priorities": {"namespace": []}, "providers": {},
  "variants": {"va": {"abi_dependency": {"aaa": ["1"]}}, "vb": {"abi_dependency": {"bbb": ["1"]}}}}))
""" % rev)
    check(rc == 0, e)
    got.add(o)
check(len(got) == 1, got)
ok()
'''
