import os, sys
VERIF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick, EXPR
jobs = pick(*EXPR)
replay = standin.both(standin.native(os.path.join(os.path.dirname(os.path.abspath(__file__)), "native.cc")),
                      fixed.cases('P06'),
                      standin.programs(dict(flat=1, p_65c02=.1, w_ins=2, size=12)))
STANDIN_ALWAYS = True
