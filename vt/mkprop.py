"""writes props/<id>/jobs.py from a one line description (kept for convenience; the files are committed)"""
import sys, os
T = '''import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.join(HERE, "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
from alljobs import pick
jobs = pick(%s)
replay = standin.both(%s)
STANDIN_ALWAYS = True
'''
def mk(pid, jobs, replays):
    d = f"/verif/props/{pid}"; os.makedirs(d, exist_ok=True)
    open(d + "/jobs.py", "w").write(T % (", ".join(f'"{j}"' for j in jobs), ", ".join(replays)))
P = {
 "P03": ("opcode_statement get_op_code_byte_count write_opcode_node".split(), ["fixed.cases('P03')", "standin.programs(dict(branch=4, far=2, local=1, pm=1, size=14))"]),
 "P04": ("opcode_statement get_op_code_byte_count data_list_str data_list_byte data_list_word fill ds write_data_node write_string_node write_opcode_node".split(), ["fixed.cases('P04')", "standin.programs(dict(size=18), want=('bytes', 'symbols'))"]),
 "P05": ("opcode_statement opcode_node".split(), ["fixed.cases('P05')", "standin.programs(dict(w_ins=8, vars=2, sections=.3, size=14))"]),
 "P07": ("data_list_str data_list_byte data_list_word write_data_node write_string_node write_string write_byte write_word".split(), ["fixed.cases('P07')", "standin.programs(dict(w_ins=1, vars=1, size=14))"]),
 "P08": ("fill ds load write_program_counter_pad".split(), ["fixed.cases('P08')", "standin.programs(dict(w_ins=1, files=3, size=14))"]),
 "P09": ("write_header write_program_counter_pad set_output_origin generate_output".split(), ["fixed.cases('P09')", "standin.programs(dict(p_c64=.5, size=12))"]),
 "P10": ("while repeat do if for statement".split(), ["fixed.cases('P10')", "standin.programs(dict(ctl=4, vars=1, size=14))"]),
 "P11": ("register_loop register_loop_down_to_zero".split(), ["fixed.cases('P11')", "standin.programs(dict(reg=4, ctl=1, branch=1, size=12))"]),
 "P14": ("find_minus_symbol find_plus_symbol anonymous_plus_defined anonymous_minus_defined anonymous_order add_minus_symbol add_plus_symbol".split(), ["fixed.cases('P14')", "standin.programs(dict(pm=4, branch=1, files=1, size=14))"]),
 "P24": ("scan_ifdef scan_ifdef_blanks scan_if scan_else scan_endif scan_skipped scan_other_0 scan_other_75 scan_other_150".split(), ["fixed.cases('P24')", "standin.programs(dict(ifdef=5, ctl=1, macros=1, size=16))"]),
 "P17": ("string_decoder_bounds string_decoder".split(), ["fixed.cases('P17')", "standin.native(os.path.join(HERE, 'strings.cc'), sanitize=True)", "standin.programs(dict(w_ins=1, size=12))"]),
 "P23": ("allocate_node operator_node tree_leaves string_node remove_parse_node free_parse_tree opcode_node".split(), ["standin.native(os.path.join(HERE, 'nodes.cc'), sanitize=True)", "standin.programs(dict(size=18, macros=1, ctl=2))"]),
 "P18": ("assemble main_status error_counts parse_pass reset_lex short_writes".split(), ["fixed.cases('P18')", "standin.programs(dict(size=14, branch=1, w_ins=3), errors=400)"]),
 "P19": ("parse_arguments main_status".split(), ["standin.native(os.path.join(HERE, 'args.cc'), sanitize=True)", "fixed.cases('P19')", "standin.programs(dict(size=10, p_defs=.6, p_c64=.3, p_65c02=.3))"]),
 "P22": ("open_file_search include_and_return end_of_source parse_pass load".split(), ["fixed.cases('P22')", "standin.programs(dict(size=12, files=4, macros=.5, ifdef=1, pm=1), want=('bytes', 'listing'))"]),
 "P12": ("macro_parameters macro_call macro_arguments macro_arguments_list macro_argument_values macro_body macro_call_count".split(), ["fixed.cases('P12')", "standin.programs(dict(size=14, macros=5, ctl=1, sections=.2, local=1))"]),
 "P13": ("look_up_symbol add_symbol set_symbol_value local_label section definition".split(), ["fixed.cases('P13')", "standin.programs(dict(size=16, sections=3, local=2, equmid=1, vars=.3, macros=.3), want=('bytes', 'symbols'))"]),
 "P20": (["listing_opcode_" + m for m in "A i a ax ay aix ind zp zpi zpx zpy izx izy I r".split()] + "listing_data_0 listing_data_1 listing_data_2 listing_string_1 listing_string_2 listing_string_3 listing_string_4 listing_string_5 add_list generate_list_file print_directive opcode_statement data_list_str data_list_byte data_list_word fill".split(), ["fixed.cases('P20')", "standin.programs(dict(size=14, branch=1, far=1, macros=.5, ctl=.7, files=.5), want=('bytes', 'listing'))"]),
"P21": ("unresolved_symbol_count symbol_compare dump_symbols assemble".split(), ["fixed.cases('P21')", "standin.programs(dict(size=16, sections=1, local=1, equmid=1), want=('bytes', 'symbols'), errors=100)"]),
}
if __name__ == "__main__":
    for k, v in P.items():
        if len(sys.argv) < 2 or k in sys.argv[1:]: mk(k, *v)
