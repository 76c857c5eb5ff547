ID="c15-empty-config-skipped"; PROP="C15"
NEEDS="an empty configuration file above a non-empty one of lower precedence"
BREAKS="the empty file (meaning: no preferences) is ignored and the lower-precedence one takes effect"
EDITS=[("variantlib/configuration.py", '''            if (cfg_f := config_files[config_name]).exists():
                return cfg_f
''', '''            if (cfg_f := config_files[config_name]).exists() and cfg_f.stat().st_size:
                return cfg_f
''')]
DEMO='''
put("work/variants.toml", "")
put("home/.config/variantlib/variants.toml", "namespace_priorities = ['alpha']\\n")
rc, o, e = cli("config", "show")
check(rc == 0 and "alpha" not in o, o)
ok()
'''
