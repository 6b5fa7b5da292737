"""python run.py <property>: decide one property on /repo's current tree."""
import os
import sys
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ["JAX_ENABLE_X64"] = "1"
if "XLA_FLAGS" not in os.environ:   # cheaper compilation of the float64 replays
    os.environ["XLA_FLAGS"] = "--xla_backend_optimization_level=0"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vc  # noqa
sys.path.insert(1, os.environ.get("SMOLGP_SRC", "/repo/src"))
import warnings
warnings.filterwarnings("ignore")
import jax
jax.config.update("jax_enable_x64", True)


def main(prop):
    import importlib
    from vc.report import Report
    import smolgp
    src = os.path.abspath(os.path.dirname(smolgp.__file__))
    rep = Report(prop)
    from specs import registry
    if "--worker" in sys.argv:
        k, n, out = sys.argv[3:6]
        registry.worker(prop, rep, int(k), int(n), out)
        return 0
    registry.run(prop, rep)
    print(f"{prop}: code under verification: {src}")
    return rep.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
