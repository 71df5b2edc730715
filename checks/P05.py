"""P05: the LLVM frontend's verification condition demands nothing the function does not do."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, llcheck

if __name__ == "__main__":
    env.main("P05", lambda chk: llcheck.body(chk, "precise"))
