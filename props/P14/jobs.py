import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("find_minus_symbol", "find_plus_symbol", "anonymous_plus_defined", "anonymous_minus_defined", "anonymous_order", "add_minus_symbol", "add_plus_symbol")
replay = standin.both(fixed.cases('P14'), standin.programs(dict(pm=4, branch=1, files=1, size=14)))
STANDIN_ALWAYS = True
