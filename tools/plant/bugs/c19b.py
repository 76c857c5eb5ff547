ID="c19-one-value-per-feature"; PROP="C19"
NEEDS="a variant wheel with several values of one feature"
BREAKS="analyze-wheel presents a part of the variant's properties as if it were all"
EDITS=[("variantlib/commands/analyze_wheel.py", '''    for vprop in vdesc.properties:
''', '''    features = {vprop.feature_object: vprop for vprop in vdesc.properties}
    for vprop in features.values():
''')]
DEMO='''
w = variant_wheel("demo-1.0-py3-none-any", "aa", info({"aa": {"alpha": {"f": ["1", "2"], "g": ["x"]}}}, ["alpha"]))
rc, o, e = cli("analyze-wheel", "-i", w)
check(rc == 0, e)
check(all(x in o for x in ("alpha :: f :: 1", "alpha :: f :: 2", "alpha :: g :: x")), o)
ok()
'''
