ID="c08-signal-status"; PROP="C08"
NEEDS="a plugin process that is killed by a signal after it has written its answer"
BREAKS="the failure is ignored (negative return codes are taken for success)"
EDITS=[("variantlib/plugins/loader.py", "            if process.returncode != 0:", "            if process.returncode > 0:")]
DEMO='''
plugin("alpha", [("f", ["1"], False)], extra="""
    @classmethod
    def get_supported_configs(cls):
        import atexit, signal
        atexit.register(os.kill, os.getpid(), signal.SIGKILL)
        return [C("f", ["1"], False)]
""")
rc, o, e = cli("plugins", "get-configs", "-s")
check(rc != 0, "plugin process was killed, but the command succeeded", o)
ok()
'''
