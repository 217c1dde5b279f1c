import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("parse_arguments", "main_status")
replay = standin.both(standin.native(os.path.join(HERE, 'args.cc'), sanitize=True), fixed.cases('P19'), standin.programs(dict(size=10, p_defs=.6, p_c64=.3, p_65c02=.3)))
STANDIN_ALWAYS = True
