ID="c08-slow-provider"; PROP="C08"
NEEDS="a provider that takes longer than 15 seconds to tell what it supports (its namespaces are answered in time)"
BREAKS="a provider that is slow is taken for one that supports nothing"
EDITS=[("variantlib/plugins/loader.py", '''            process = subprocess.run(  # noqa: S603
                [self._python_executable, script, *cmd_args],
                input=commands,
                capture_output=True,
                check=False,
            )
''', '''            try:
                process = subprocess.run(  # noqa: S603
                    [self._python_executable, script, *cmd_args],
                    input=commands,
                    capture_output=True,
                    check=False,
                    timeout=15,
                )
            except subprocess.TimeoutExpired:
                if b"namespaces" in commands:
                    raise PluginError("Plugin invocation timed out") from None
                # do not let one slow machine query hold up an installation
                return {x: dict.fromkeys(plugin_apis, []) for x in json.loads(commands)}
''')]
DEMO='''
plugin("alpha", [("f", ["1"], False)], extra="""
    @classmethod
    def get_supported_configs(cls):
        import time
        time.sleep(20)
        return cls.get_all_configs()
""")
rc, o, e = cli("plugins", "get-configs", "-s")
check(rc != 0 or json.loads(o).get("alpha"), "slow provider taken for one without configurations:", o, e)
ok()
'''
