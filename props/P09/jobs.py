import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("write_header", "write_program_counter_pad", "set_output_origin", "generate_output")
replay = standin.both(fixed.cases('P09'), standin.programs(dict(p_c64=.5, size=12)))
STANDIN_ALWAYS = True
