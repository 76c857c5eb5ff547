ID="c10-property-prio-swap"; PROP="C10"
NEEDS="a user configuration and index metadata with conflicting property priorities for the same feature"
BREAKS="the publisher's property priorities override the user's"
EDITS=[("variantlib/api.py", '''            property_priorities=aggregate_property_priorities(
                config.property_priorities,
                variants_json.property_priorities,
            ),''', '''            property_priorities=aggregate_property_priorities(
                variants_json.property_priorities,
                config.property_priorities,
            ),''')]
DEMO='''
plugin("alpha", [("f", ["a", "b", "c"], True)])
put("work/variants.toml", "[property_priorities.alpha]\\nf = ['c']\\n")
vj = info({"a": {"alpha": {"f": ["a"]}}, "b": {"alpha": {"f": ["b"]}}, "c": {"alpha": {"f": ["c"]}}}, ["alpha"], prop={"alpha": {"f": ["b"]}})
rc, o, e = py("""
import json, sys
from variantlib.api import get_variants_by_priority
print(json.dumps(get_variants_by_priority(variants_json=json.loads(sys.argv[1]))))
""", json.dumps(vj))
check(rc == 0, e)
check(json.loads(o) == ["c", "b", "a", "null"], o)
ok()
'''
