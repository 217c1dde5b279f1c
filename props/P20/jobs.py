import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick("listing_opcode_A", "listing_opcode_i", "listing_opcode_a", "listing_opcode_ax", "listing_opcode_ay", "listing_opcode_aix", "listing_opcode_ind", "listing_opcode_zp", "listing_opcode_zpi", "listing_opcode_zpx", "listing_opcode_zpy", "listing_opcode_izx", "listing_opcode_izy", "listing_opcode_I", "listing_opcode_r", "listing_data_0", "listing_data_1", "listing_data_2", "listing_string_1", "listing_string_2", "listing_string_3", "listing_string_4", "listing_string_5", "add_list", "generate_list_file", "print_directive", "opcode_statement", "data_list_str", "data_list_byte", "data_list_word", "fill")
replay = standin.both(fixed.cases('P20'), standin.programs(dict(size=14, branch=1, far=1, macros=.5, ctl=.7, files=.5), want=('bytes', 'listing')))
STANDIN_ALWAYS = True
