"""python3 /verif/sa/run.py <property id>: decide one property from the current source of /repo."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "checks")]
sys.dont_write_bytecode = True
import kit

if __name__ == "__main__":
    pid = sys.argv[1]
    try:
        m = importlib.import_module(pid)
    except Exception as e:
        print(f"{pid}: error: {type(e).__name__}: {e}")
        sys.exit(3)
    kit.main(pid, m.run, m.EXPLANATION)
