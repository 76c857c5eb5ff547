ID="c11-scan-if-needed"; PROP="C11"
NEEDS="a variant with an ABI dependency and a property of a namespace that sorts before abi_dependency"
BREAKS="installed packages are not looked at, so the variant is not offered"
EDITS=[("variantlib/resolver/lib.py", '''    inject_abi_dependency(supported_vprops, namespace_priorities)

    # ======================================================================= #
    #                               NULL VARIANT                              #
''', '''    # Scanning installed packages is slow, do it only if any variant needs that.
    # (Properties of a variant are sorted, and this namespace comes first.)
    if any(
        next(
            (vprop.namespace for vprop in vdesc.properties), None
        ) == VARIANT_ABI_DEPENDENCY_NAMESPACE
        for vdesc in vdescs
    ):
        inject_abi_dependency(supported_vprops, namespace_priorities)

    # ======================================================================= #
    #                               NULL VARIANT                              #
''')]
DEMO='''
os.makedirs(p("site/pkg-1.2.3.dist-info"))
put("site/pkg-1.2.3.dist-info/METADATA", "Metadata-Version: 2.1\\nName: pkg\\nVersion: 1.2.3\\n")
rc, o, e = py("""
from variantlib.api import get_variants_by_priority
print(get_variants_by_priority(variants_json={"$schema": "https://variants-schema.wheelnext.dev/v0.0.3.json",
  "default-priorities": {"namespace": ["aa"]}, "providers": {"aa": {"install-time": False}},
  "static-properties": {"aa": {"f": ["1"]}},
  "variants": {"abi": {"aa": {"f": ["1"]}, "abi_dependency": {"pkg": ["1.2"]}}}}))
""")
check(rc == 0 and o.strip() == "['abi', 'null']", o, e)
ok()
'''
