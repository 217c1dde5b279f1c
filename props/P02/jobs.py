import os, sys
VERIF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("write_byte", "write_word", "write_data", "get_op_code_byte_count", "write_opcode_node", "generate_output")
replay = standin.both(fixed.cases('P02'), standin.programs(dict(p_65c02=.4, far=1, branch=1, w_ins=6)))
STANDIN_ALWAYS = True
ASSUMPTIONS = ["the operand value is an arbitrary int with |value| < 2^24 returned by the expression evaluator (a ghost stub of expand_node)",
               "fwrite is a ghost sink recording position and byte; a FILE that accepts the bytes stores them"]
