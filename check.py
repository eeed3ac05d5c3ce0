#!/opt/venv/bin/python
"""check.py Cnn : decide one property; see DESIGN.md."""
import os
import sys

ENV = {"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1",
       "PYTHONHASHSEED": "0", "PYTHONPYCACHEPREFIX": "/nonexistent"}
PY = "/opt/venv/bin/python"
if any(os.environ.get(k) != v for k, v in ENV.items()) or os.path.realpath(sys.executable) != os.path.realpath(PY):
    os.environ.update(ENV)
    os.environ.pop("PYTHONPATH", None)
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FINAT_REPO", "/repo")
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks"), REPO]
sys.dont_write_bytecode = True
import importlib  # noqa: E402
import traceback  # noqa: E402
import warnings  # noqa: E402

warnings.simplefilter("ignore")
sys.setrecursionlimit(5000)
import harness  # noqa: E402


def main():
    prop = sys.argv[1]
    ctx = harness.Ctx(prop)
    code = None
    try:
        import finat
        assert os.path.abspath(finat.__file__).startswith(os.path.abspath(REPO)), finat.__file__
        mod = importlib.import_module(prop)
        mod.run(ctx)
        code = ctx.finish(getattr(mod, "BOUNDS", None))
    except harness.MachineryError as e:
        print("machinery error: %s" % e)
        code = 2
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        traceback.print_exc()
        if harness.finat_frame(e.__traceback__):
            ctx.fails.append(("raised:" + type(e).__name__, "code under test raised " + harness.brief(e),
                              {"traceback": traceback.format_exc()[-3000:]}))
            code = ctx.finish()
        else:
            code = 2
    finally:
        import shutil
        shutil.rmtree(ctx.tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


main()
