ID="c19-prefix-filter"; PROP="C19"
NEEDS="a namespace filter that is a prefix of another installed provider's namespace"
BREAKS="plugins get-configs -n shows providers that were not asked for"
EDITS=[("variantlib/commands/plugins/get_configs.py", '''        if parsed_args.namespace not in (provider_cfg.namespace, None):
            continue
''', '''        if not provider_cfg.namespace.startswith(parsed_args.namespace or ""):
            continue
''')]
DEMO='''
plugin("alpha", [("f", ["a", "b"], False)])
plugin("alpha2", [("f", ["a", "b"], False)])
rc, o, e = cli("plugins", "get-configs", "-a", "-n", "alpha")
check(rc == 0, e)
check(list(json.loads(o)) == ["alpha"], o)
ok()
'''
