import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("assemble", "main_status", "error_counts", "parse_pass", "reset_lex", "short_writes")
replay = standin.both(fixed.cases('P18'), standin.programs(dict(size=14, branch=1, w_ins=3), errors=400))
STANDIN_ALWAYS = True
