import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("string_decoder_bounds", "string_decoder")
replay = standin.both(fixed.cases('P17'), standin.native(os.path.join(HERE, 'strings.cc'), sanitize=True), standin.programs(dict(w_ins=1, size=12)))
STANDIN_ALWAYS = True
