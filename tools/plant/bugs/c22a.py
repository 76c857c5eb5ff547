ID="c22-clean-stale"; PROP="C22"
NEEDS="another command writing its output into the same directory while a wheel is made"
BREAKS="make-variant removes the unfinished output of other running commands, which then fail"
EDITS=[("variantlib/commands/make_variant.py", '''    # Input Validation - Wheel Filename is valid and non variant already.
    wheel_info = VALIDATION_WHEEL_NAME_REGEX.fullmatch(input_filepath.name)
    if wheel_info is None:
        raise ValueError(f"{input_filepath.name!r} is not a valid wheel filename.")

    if not is_null_variant:
''', '''    # Input Validation - Wheel Filename is valid and non variant already.
    wheel_info = VALIDATION_WHEEL_NAME_REGEX.fullmatch(input_filepath.name)
    if wheel_info is None:
        raise ValueError(f"{input_filepath.name!r} is not a valid wheel filename.")

    # Clean up after builds that were killed.
    for leftover in output_directory.glob(f".{wheel_info.group('base_wheel_name')}*"):
        if leftover.suffix == ".tmp":
            leftover.unlink(missing_ok=True)

    if not is_null_variant:
''')]
DEMO='''
put("work/pyproject.toml", '[variant.default-priorities]\\nnamespace = []\\n')
a = wheel("aaa-1.0-py3-none-any.whl", [("m.py", "x" * 50), ("{di}/METADATA", "Name: aaa\\n")])
code = """
import sys, zipfile, subprocess, os
real = zipfile.ZipFile.writestr
def slow(self, *a, **k):
    if not os.environ.get("INNER"):
        os.environ["INNER"] = "1"
        r = subprocess.run([sys.executable, "-c", "from variantlib.commands.main import main; main()", "make-variant",
                            "-f", sys.argv[3], "-o", sys.argv[5], "-p", "x :: y :: z", "--skip-plugin-validation",
                            "--variant-label", "other", "--no-isolation"])
        assert r.returncode == 0
    return real(self, *a, **k)
zipfile.ZipFile.writestr = slow
from variantlib.commands.main import main
main()
"""
rc, o, e = py(code, "make-variant", "-f", a, "-o", p("out"), "--null-variant", "--no-isolation")
check(rc == 0, "a build fails because another one runs", e[-500:])
check(sorted(os.listdir(p("out"))) == ["aaa-1.0-py3-none-any-null.whl", "aaa-1.0-py3-none-any-other.whl"], os.listdir(p("out")))
ok()
'''
