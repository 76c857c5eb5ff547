ID="c06-unlink-on-overwrite"; PROP="C06"
NEEDS="--overwrite of an existing index, and a reader, crash or failing write between the removal and the replacement"
BREAKS="the index file is missing for a moment (or for good) instead of being replaced atomically"
EDITS=[("variantlib/commands/add_wheel_to_index_json.py", '''    if output_json_file.exists() and not parsed_args.overwrite:
        raise FileExistsError(
            f"Output JSON file already exists: `{output_json_file}`, use `--overwrite` "
            "to proceed."
        )
''', '''    if output_json_file.exists():
        if not parsed_args.overwrite:
            raise FileExistsError(
                f"Output JSON file already exists: `{output_json_file}`, use "
                "`--overwrite` to proceed."
            )
        output_json_file.unlink()
''')]
DEMO='''
a = variant_wheel("aaa-1.0-py3-none-any", "a", info({"a": {"alpha": {"f": ["1"]}}}, ["alpha"]))
rc, o, e = cli("add-wheel-to-index-json", "-f", a, "-o", p("out"))
check(rc == 0, e)
code = """
import sys, pathlib
def boom(*a, **k): raise OSError(28, "no space left")
pathlib.Path.write_text = boom
from variantlib.commands.main import main
main()
"""
rc, o, e = py(code, "add-wheel-to-index-json", "-f", a, "-o", p("out"), "-w")
check(rc != 0, "failing write not reported")
check(os.path.exists(p("out/aaa-1.0-variants.json")), "the index is gone after a failed update")
ok()
'''
