import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("macro_parameters", "macro_call", "macro_arguments", "macro_arguments_list", "macro_argument_values", "macro_body", "macro_call_count")
replay = standin.both(fixed.cases('P12'), standin.programs(dict(size=14, macros=5, ctl=1, sections=.2, local=1)))
STANDIN_ALWAYS = True
