import os, sys
sys.dont_write_bytecode = True
import simcats
assert os.path.abspath(simcats.__file__).startswith("/repo/"), simcats.__file__
from mc import engine
if __name__ == "__main__":
    a = sys.argv[1:]
    if "--replay" in a:
        sys.exit(engine.replay(a[a.index("--replay") + 1]))
    tier = "thorough" if "--thorough" in a else "quick"
    sys.exit(engine.run_check(f"mc.checks.{a[0].lower()}", tier, int(os.environ.get("VERIF_SEED", "1") or 1)))
