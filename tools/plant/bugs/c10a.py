ID="c10-last-value-wins"; PROP="C10"
NEEDS="a variant with several values of one feature, more than one of them supported"
BREAKS="the variant is ranked by the last supported value instead of its best one"
EDITS=[("variantlib/resolver/sorting.py", '''                    ranking_array[vprop_idx] = min(
                        ranking_array[vprop_idx],
                        property_lookup_table[vprop_key].index(vprop.value),
                    )''', '''                    ranking_array[vprop_idx] = property_lookup_table[
                        vprop_key
                    ].index(vprop.value)''')]
DEMO='''
plugin("alpha", [("f", ["a", "b", "c"], True)])
os.environ["PYTHONPATH"] += os.pathsep + SITE
from variantlib.api import get_variants_by_priority
vj = info({"multi": {"alpha": {"f": ["a", "c"]}}, "one": {"alpha": {"f": ["b"]}}}, ["alpha"])
got = get_variants_by_priority(variants_json=vj)
check(got == ["multi", "one", "null"], got)
ok()
'''
