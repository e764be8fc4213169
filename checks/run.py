"""Entry point of every check: run.py <property id>."""
import importlib
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
T0 = time.time()
COMMON = ["data is interpreted over the reals: results are claimed up to floating-point rounding",
          "constants and index arithmetic of the C program are evaluated with IEEE single/double and 32/64-bit integer semantics",
          "clang -O0 IR (mem2reg) of the generated C, x86-64 layout"]


def main():
    pid = sys.argv[1]
    if pid == "setup":
        import subprocess
        from vlib import smt  # noqa: F401  (finds z3)
        for tool in ("clang-18", "opt-18", "gcc"):
            subprocess.run([tool, "--version"], check=True, stdout=subprocess.DEVNULL)
        print("tools found")
        return
    sys.stdout.reconfigure(line_buffering=True)
    devnull = os.open(os.devnull, os.O_WRONLY)
    saved = os.dup(2)
    os.dup2(devnull, 2)          # TensorFlow's start-up chatter
    import acetone_nnet  # noqa: F401
    os.dup2(saved, 2)
    mod = importlib.import_module(f"checks.{pid.lower()}")
    from vlib import harness as H
    only = os.environ.get("VERIF_ONLY")
    if hasattr(mod, "main"):
        sys.exit(mod.main(T0))
    cases = mod.cases()
    if only:
        cases = [c for c in cases if only in c.name]
    outs = H.run_cases(cases)
    for o in outs:
        if os.environ.get("VERIF_VERBOSE"):
            print(o.name, o.items and [(i["kind"], i["detail"][:150]) for i in o.items], o.errors, {k: v for k, v in o.info.items() if k not in ("functions", "stats")})
    sys.exit(H.report(pid, outs, mod.LEVEL, mod.BOUNDS, COMMON + getattr(mod, "ASSUMPTIONS", []), T0, kinds=getattr(mod, "KINDS", None)))


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:      # noqa: BLE001
        traceback.print_exc(file=sys.stdout)
        sys.exit(2)
