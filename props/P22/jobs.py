import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("open_file_search", "include_and_return", "end_of_source", "parse_pass", "load")
replay = standin.both(fixed.cases('P22'), standin.programs(dict(size=12, files=4, macros=.5, ifdef=1, pm=1), want=('bytes', 'listing')))
STANDIN_ALWAYS = True
