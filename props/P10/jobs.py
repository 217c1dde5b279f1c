import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("while", "repeat", "do", "if", "for", "statement")
replay = standin.both(fixed.cases('P10'), standin.programs(dict(ctl=4, vars=1, size=14)))
STANDIN_ALWAYS = True
