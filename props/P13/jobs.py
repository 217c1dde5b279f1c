import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("look_up_symbol", "add_symbol", "set_symbol_value", "local_label", "section", "definition")
replay = standin.both(fixed.cases('P13'), standin.programs(dict(size=16, sections=3, local=2, equmid=1, vars=.3, macros=.3), want=('bytes', 'symbols')))
STANDIN_ALWAYS = True
