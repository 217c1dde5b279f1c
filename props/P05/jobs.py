import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("opcode_statement", "opcode_node")
replay = standin.both(fixed.cases('P05'), standin.programs(dict(w_ins=8, vars=2, sections=.3, size=14)))
STANDIN_ALWAYS = True
