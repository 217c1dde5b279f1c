import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("opcode_statement", "get_op_code_byte_count", "data_list_str", "data_list_byte", "data_list_word", "fill", "ds", "write_data_node", "write_string_node", "write_opcode_node")
replay = standin.both(fixed.cases('P04'), standin.programs(dict(size=18), want=('bytes', 'symbols')))
STANDIN_ALWAYS = True
