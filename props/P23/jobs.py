import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("allocate_node", "operator_node", "tree_leaves", "string_node", "remove_parse_node", "free_parse_tree", "opcode_node")
replay = standin.both(standin.native(os.path.join(HERE, 'nodes.cc'), sanitize=True), standin.programs(dict(size=18, macros=1, ctl=2)))
STANDIN_ALWAYS = True
