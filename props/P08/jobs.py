import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("fill", "ds", "load", "write_program_counter_pad")
replay = standin.both(fixed.cases('P08'), standin.programs(dict(w_ins=1, files=3, size=14)))
STANDIN_ALWAYS = True
