import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("scan_ifdef", "scan_ifdef_blanks", "scan_if", "scan_else", "scan_endif", "scan_skipped", "scan_other_0", "scan_other_75", "scan_other_150")
replay = standin.both(fixed.cases('P24'), standin.programs(dict(ifdef=5, ctl=1, macros=1, size=16)))
STANDIN_ALWAYS = True
