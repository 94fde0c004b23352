"""Run one harness on concrete inputs against the unpatched code of /repo.
usage: python -m symx.replay FILE.json   (exit 1 when a check fails)"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import env  # noqa: E402

env.setup()


def main(path):
    import contextlib
    import io
    import traceback
    d = json.load(open(path))
    with contextlib.redirect_stdout(io.StringIO()):
        from symx import registry
        import importlib
        importlib.import_module(d["module"])
    for j in registry.JOBS:
        if j.prop == d["property"] and j.key == d["job"]:
            break
    else:
        print("no such job")
        return 3
    from symx.explore import CH, Skip
    h = CH(d["inputs"])
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            j.fn(h, **j.params)
    except Skip:
        print(json.dumps(dict(skipped=True, failed={})))
        return 2
    except Exception as e:
        h.failed["no-exception:" + type(e).__name__] = f"{type(e).__name__}: {e}"
        if "-v" in sys.argv:
            traceback.print_exc()
    print(json.dumps(dict(skipped=False, failed=h.failed)))
    return 1 if h.failed else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
