ID="c15-mtime-cache"; PROP="C15"
NEEDS="a configuration file replaced by another one with the same modification time (same clock tick, copied with its times, or the clock set back)"
BREAKS="the next read returns the configuration from before the change"
EDITS=[("variantlib/configuration.py", '''    @classmethod
    def reset(cls) -> None:
''', '''    _parsed: dict[Path, tuple[float, ConfigurationModel]] = {}  # noqa: RUF012

    @classmethod
    def reset(cls) -> None:
'''), ("variantlib/configuration.py", '''            try:
                config = tomllib.load(f)
            except tomllib.TOMLDecodeError as e:
                raise ConfigurationError from e

        try:
            return ConfigurationModel.from_toml_config(**config)
        except Exception as exc:
            raise RuntimeError(
                f"Error reading configuration file {config_file}"
            ) from exc
''', '''            mtime = os.fstat(f.fileno()).st_mtime
            if (parsed := cls._parsed.get(config_file)) and parsed[0] == mtime:
                return deepcopy(parsed[1])
            try:
                config = tomllib.load(f)
            except tomllib.TOMLDecodeError as e:
                raise ConfigurationError from e

        try:
            ret = ConfigurationModel.from_toml_config(**config)
        except Exception as exc:
            raise RuntimeError(
                f"Error reading configuration file {config_file}"
            ) from exc
        cls._parsed[config_file] = (mtime, deepcopy(ret))
        return ret
'''), ("variantlib/configuration.py", '''import logging
import sys
from contextlib import suppress
''', '''import logging
import os
import sys
from contextlib import suppress
from copy import deepcopy
''')]
DEMO='''
code = """
import os, sys
os.chdir(sys.argv[1])
from variantlib.configuration import VariantConfiguration as V
def w(t):
    open("variants.toml", "w").write(t); os.utime("variants.toml", (1000, 1000))
w('namespace_priorities = ["alpha"]\\\\n')
assert V.get_config().namespace_priorities == ["alpha"]
w('namespace_priorities = ["beta"]\\\\n')
assert V.get_config().namespace_priorities == ["beta"], V.get_config()
"""
rc, o, e = py(code, p("work"))
check(rc == 0, e[-500:])
ok()
'''
