import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("opcode_statement", "get_op_code_byte_count", "write_opcode_node")
replay = standin.both(fixed.cases('P03'), standin.programs(dict(branch=4, far=2, local=1, pm=1, size=14)))
STANDIN_ALWAYS = True
