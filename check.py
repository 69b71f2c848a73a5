#!/opt/venv/bin/python
"""check.py ID [--tier quick|thorough] [--replay FILE] [--seed N]"""

import argparse
import importlib
import os
import sys
import tempfile
import warnings

ROOT = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
HYPOTHESIS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def reexec() -> None:
    """Run in the project's interpreter, with a fixed environment."""
    want = {
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        "LANG": "C.UTF-8",
    }
    if os.environ.get("VT_CHECK") == "1":
        return
    env = dict(os.environ)
    env.update(want)
    env["VT_CHECK"] = "1"
    env.pop("PYTHONPATH", None)
    os.execve(
        VENV,
        [VENV, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:],
        env,
    )


def main() -> int:
    """Entry."""
    reexec()
    warnings.simplefilter("ignore")
    parser = argparse.ArgumentParser()
    parser.add_argument("ident")
    parser.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    parser.add_argument(
        "--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1")
    )
    parser.add_argument("--replay")
    parser.add_argument("--shards", type=int, default=6)
    parser.add_argument("--only", help="run a single facet")
    parser.add_argument("--scale", type=float, default=1.0)
    args = parser.parse_args()

    sys.path.insert(0, ROOT)
    sys.path.append(HYPOTHESIS)
    sys.path.insert(1, "/repo")
    tmp = tempfile.gettempdir()
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(tmp, "vt_hypothesis")

    from vt import core

    core.quiet()
    # everything vtelem needs, with its bytecode; then never trust bytecode
    # that may lie around next to the code under test
    import cerberus, hypothesis, requests, vcorelib, websockets  # noqa

    sys.pycache_prefix = "/nonexistent/vt"
    import vtelem

    if not os.path.abspath(vtelem.__file__).startswith("/repo/"):
        print(f"vtelem comes from {vtelem.__file__}", file=sys.stderr)
        return core.EXIT_ERROR

    module = importlib.import_module(f"vt.props.{args.ident.lower()}")
    prop = module.PROP
    if args.only:
        prop.facets = [x for x in prop.facets if x.name == args.only]
    for facet in prop.facets:
        facet.quick = int(facet.quick * args.scale)
    if args.replay:
        with tempfile.TemporaryDirectory(prefix="vtreplay_") as work:
            core.SCRATCH = work
            code = core.replay(prop, args.replay)
            sys.stdout.flush()
            import shutil

            shutil.rmtree(work, ignore_errors=True)
            os._exit(code)
    return core.main(prop, args.tier, args.seed, args.shards)


if __name__ == "__main__":
    code_ = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code_)
