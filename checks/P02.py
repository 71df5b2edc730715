"""P02: the Python frontend's verification condition accepts the exact summary of the function."""
import os, sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env
from checks import P01

if __name__ == "__main__":
    env.main("P02", lambda chk: P01.body(chk, "precise"))
