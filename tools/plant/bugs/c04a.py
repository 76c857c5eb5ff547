ID="c04-stale-dist-info"; PROP="C04"
NEEDS="a directory where a wheel with a variant label but no variant.json sorts after a good one of another package"
BREAKS="generate-index-json attributes the previous wheel's metadata to the wheel without any"
EDITS=[("variantlib/commands/generate_index_json.py", '''                        {"wheel": wheel, "filename": VARIANT_DIST_INFO_FILENAME},
                    )
                    continue
        except''', '''                        {"wheel": wheel, "filename": VARIANT_DIST_INFO_FILENAME},
                    )
                    if not output_files:
                        continue
        except''')]
DEMO='''
variant_wheel("aaa-1.0-py3-none-any", "0123", info({"0123": {"alpha": {"f": ["1"]}}}, ["alpha"]), "dist")
wheel("bbb-1.0-py3-none-any-0123.whl", [("{di}/METADATA", "x")], "dist")
rc, o, e = cli("generate-index-json", "-d", p("dist"))
check(rc == 0, e)
check(sorted(f for f in os.listdir(p("dist")) if f.endswith(".json")) == ["aaa-1.0-variants.json"], os.listdir(p("dist")))
ok()
'''
