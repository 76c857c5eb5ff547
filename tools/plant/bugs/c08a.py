ID="c08-none-is-nothing"; PROP="C08"
NEEDS="a provider method that returns None (or another empty non-list) instead of a list"
BREAKS="a broken provider is taken for one that supports nothing"
EDITS=[("variantlib/plugins/_subprocess.py", '''    try:
        validate_type(configs, list[VariantFeatureConfigType])
''', '''    if not configs:
        return []
    try:
        validate_type(configs, list[VariantFeatureConfigType])
''')]
DEMO='''
plugin("alpha", [("f", ["1"], False)], extra="""
    @classmethod
    def get_supported_configs(cls):
        return None
""")
rc, o, e = cli("plugins", "get-configs", "-s")
check(rc != 0, "provider returned None, but the command succeeded with", o)
ok()
'''
