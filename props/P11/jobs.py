import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("register_loop", "register_loop_down_to_zero")
replay = standin.both(fixed.cases('P11'), standin.programs(dict(reg=4, ctl=1, branch=1, size=12)))
STANDIN_ALWAYS = True
