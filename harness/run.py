"""Entry point: python -m harness.run C01 quick."""

import importlib
import os
import sys
import traceback


def raised_by_code(exc):
    """Whether the code under test raised, as opposed to the harness."""
    files = [fr.filename for fr in traceback.extract_tb(exc.__traceback__)]
    last = max((i for i, f in enumerate(files) if "/harness/" in f), default=-1)
    stub = type(getattr(exc, "obj", None)).__module__.startswith("harness")
    return not stub and any("/flamingpy/" in f for f in files[last + 1 :])


def main():
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from harness import core

    chk = core.Check(pid, tier, seed)
    try:
        mod = importlib.import_module(f"harness.props.{pid.lower()}")
        mod.run(chk)
        rc = chk.finish()
    except core.MachineryError as exc:
        print(f"check {pid} could not decide: {exc}")
        rc = 1 if chk.violations and chk.finish() else 2
    except Exception as exc:  # pylint: disable=broad-except
        traceback.print_exc()
        if raised_by_code(exc):
            # No behaviour of the specification ends in an exception.
            text = f"{type(exc).__name__}: {str(exc)[:160]}"
            trace = {"id": "uncaught", "error": text, "tb": traceback.format_exc()[-1500:]}
            chk.violations.append((trace, ["NoException"], ["the code raised on a valid input:"], "-"))
        rc = 1 if chk.violations and chk.finish() else 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
