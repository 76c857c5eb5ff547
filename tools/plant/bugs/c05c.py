ID="c05-existing-base"; PROP="C05"
NEEDS="--overwrite of an existing index without naming an input index"
BREAKS="the new index silently keeps the variants of the file it replaces"
EDITS=[("variantlib/commands/add_wheel_to_index_json.py", '''    if input_json_file is not None:
        with input_json_file.open(mode="r") as f:
''', '''    if input_json_file is None and parsed_args.overwrite:
        # Update the file in place.
        existing = output_directory / f"{wheel_info.group('namever')}-variants.json"
        if existing.is_file():
            input_json_file = existing

    if input_json_file is not None:
        with input_json_file.open(mode="r") as f:
''')]
DEMO='''
a, b = [variant_wheel("aaa-1.0-py3-none-any", l, info({l: {"alpha": {"f": [l]}}}, ["alpha"])) for l in "ab"]
rc, o, e = cli("add-wheel-to-index-json", "-f", a, "-o", p("out")); check(rc == 0, e)
rc, o, e = cli("add-wheel-to-index-json", "-f", b, "-o", p("out"), "-w"); check(rc == 0, e)
d = json.load(open(p("out/aaa-1.0-variants.json")))
check(list(d["variants"]) == ["b"], d["variants"])
ok()
'''
