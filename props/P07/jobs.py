import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("data_list_str", "data_list_byte", "data_list_word", "write_data_node", "write_string_node", "write_string", "write_byte", "write_word")
replay = standin.both(fixed.cases('P07'), standin.programs(dict(w_ins=1, vars=1, size=14)))
STANDIN_ALWAYS = True
