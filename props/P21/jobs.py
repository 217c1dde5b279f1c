import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("unresolved_symbol_count", "symbol_compare", "dump_symbols", "assemble")
replay = standin.both(fixed.cases('P21'), standin.programs(dict(size=16, sections=1, local=1, equmid=1), want=('bytes', 'symbols'), errors=100))
STANDIN_ALWAYS = True
