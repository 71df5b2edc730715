"""P04: the LLVM frontend's verification condition covers every execution of the function."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env, llcheck

if __name__ == "__main__":
    env.main("P04", lambda chk: llcheck.body(chk, "sound"))
