import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin
from alljobs import pick, STACKS
jobs = pick(*STACKS)
replay = standin.native(os.path.join(HERE, "native.cc"), sanitize=True)
STANDIN_ALWAYS = True
