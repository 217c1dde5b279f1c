"""All proof jobs, by unit; the properties select from them by name (`pick`)."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(HERE, "genoutput.c")
GHOST = os.path.join(HERE, "ghost.h")
def job(fn, tag, replace=(), **kw):
    d = dict(name=fn, harness=H, units=["genoutput"], functions=[fn], enforce=fn, replace=list(replace), defines=["H_" + tag], ghost=GHOST)
    d.update(kw)
    return d
_genoutput = [
    job("write_byte", "write_byte"),
    job("write_word", "write_word", ["write_byte"]),
    job("write_data", "write_data", ["write_byte", "write_word"]),
    job("get_op_code_byte_count", "byte_count"),
    job("write_opcode_node", "write_opcode_node", ["write_byte", "write_data", "get_op_code_byte_count"]),
    job("write_data_node", "write_data_node", ["write_byte", "write_word"]),
    job("write_string", "write_string"),
    job("write_string_node", "write_string_node", ["write_byte", "write_string"]),
    job("write_header", "write_header", ["write_word"]),
    job("set_output_origin", "set_origin"),
    job("write_program_counter_pad", "pad", ["write_byte"], loops={"genoutput": {"write_program_counter_pad": {0: (None, """
__CPROVER_assigns(g_n, g_b, g_short, error_count, total_bytes_written)
__CPROVER_loop_invariant(g_n == (unsigned long)total_bytes_written && total_bytes_written >= __CPROVER_loop_entry(total_bytes_written))
__CPROVER_loop_invariant(total_bytes_written == __CPROVER_loop_entry(total_bytes_written) || total_bytes_written <= delta + byte_delta)
__CPROVER_loop_invariant(error_count == __CPROVER_loop_entry(error_count))
__CPROVER_loop_invariant(g_b == ((g_k >= __CPROVER_loop_entry(g_n) && g_k < g_n) ? 0 : __CPROVER_loop_entry(g_b)))
__CPROVER_decreases(delta + byte_delta - total_bytes_written)""")}}}),
    job("generate_output", "generate_output", ["write_header", "write_program_counter_pad", "write_string_node", "write_opcode_node", "write_data_node"]),
    dict(name="short_writes", harness=H, units=["genoutput"], functions=["write_byte", "write_word", "write_string", "write_opcode_node", "write_data_node", "write_string_node", "write_header", "write_program_counter_pad"], defines=["H_short_write"], unwind=6),
]

OPRS = dict(plus="'+'", minus="'-'", times="'*'", divide="'/'", bit_or="BIT_OR", bit_and="BIT_AND", xor="'^'", shift_left="SHIFT_LEFT",
            shift_right="SHIFT_RIGHT", less="'<'", greater="'>'", less_equal="LE", greater_equal="GE", equal="EQ", not_equal="NE", logical_or="OR",
            logical_and="AND", negate="UMINUS", logical_not="NOT", complement="'~'", low_byte="LOBYTE", high_byte="HIBYTE")
HX = os.path.join(HERE, "expr.c")
_expr = [dict(name="operator_" + n, harness=HX, units=["expand"], functions=["expand_operator_node", "init_expander", "create_op_table_dictionary"],
              enforce="expand_operator_node", drop={"expand": ["expand_node"]}, defines=["OPR=" + o], unwind=65,
              flags=["--cvc5"], backend="SMT (cvc5 1.1.2)") for n, o in OPRS.items()]
EXPR = [j["name"] for j in _expr]

HS = os.path.join(HERE, "stacks.c")
def sjob(fn, tag, size, **kw):
    d = dict(name=f"stack_{tag}_{size}", harness=HS, units=["stacks"], functions=[fn], defines=["H_" + tag, f"SIZE={size}"])
    d.update(kw)
    return d
_stacks = []
for _sz in (1, 4, 16, 48):
    _stacks += [sjob("item_at", "item_at", _sz, enforce="item_at"), sjob("top", "top", _sz, enforce="top"), sjob("pop", "pop", _sz, enforce="pop"),
                sjob("push", "push", _sz), sjob("create_stack", "create", _sz),
                sjob("clear_stack", "clear", _sz, enforce="clear_stack", loops={"stacks": {"clear_stack": {0: (None, """
__CPROVER_assigns(stack_instance->index)
__CPROVER_loop_invariant(stack_instance->index >= -1 && stack_instance->index <= __CPROVER_loop_entry(stack_instance->index))
__CPROVER_decreases(stack_instance->index + 1)""")}}})]
STACKS = [j["name"] for j in _stacks]

HD = os.path.join(HERE, "dictionary.c")
DG = os.path.join(HERE, "dict_ghost.h")
_SEARCH = """
__CPROVER_assigns(e, g_A)
__CPROVER_loop_invariant((e == &g_A || e == (g_has ? &g_M : (element*)0)) && LIST)"""
_dict = [
    dict(name="dict_search", harness=HD, units=["dictionary"], functions=["dict_search"], defines=["H_search"], ghost=DG,
         loops={"dictionary": {"dict_search": {0: (None, _SEARCH), 1: (None, _SEARCH)}}}, unwindset=["world.0:9"], keep_static=["g_d", "g_table"]),
    dict(name="dict_delete", harness=HD, units=["dictionary"], functions=["dict_delete"], defines=["H_delete"], unwind=9, bounded="a bucket of up to 3 entries, any hash values"),
    dict(name="dict_insert", harness=HD, units=["dictionary"], functions=["dict_insert"], defines=["H_insert"], drop={"dictionary": ["grow", "dict_search"]}, unwind=10),
    dict(name="dict_create", harness=HD, units=["dictionary"], functions=["dict_create", "internal_dict_create"], defines=["H_create"], unwind=4),
    dict(name="dict_grow", harness=HD, units=["dictionary"], functions=["grow"], defines=["H_grow"], unwind=6, bounded="a table of 2 buckets with up to 3 entries of 3 keys, any hash values"),
    dict(name="dict_text_keys", harness=HD, units=["memory", "hash"], functions=["stricmp", "hash_function"], defines=["H_hash"], unwind=6, timeout=100, bounded="text keys of up to 2 characters"),
]
DICT = [j["name"] for j in _dict]

HC = os.path.join(HERE, "control.c")
LG = os.path.join(HERE, "loop_ghost.h")
_W = """
__CPROVER_assigns(g_state, g_cond, program_counter, g_bodies)
__CPROVER_loop_invariant(g_state == %s && error_count == g_errors_at_entry && g_bodies >= 0 && g_bodies <= 2)"""
def cjob(name, fn, tag, inv=None, **kw):
    d = dict(name=name, harness=HC, units=["expand"], functions=[fn], defines=["H_" + tag], drop={"expand": ["expand_node"]})
    if inv: d.update(ghost=LG, loops={"expand": {fn: {0: (None, inv)}}}, fallback=dict(unwind=4, loops=None))
    d.update(kw)
    return d
_control = [
    cjob("while", "expand_operator_while_node", "while", _W % "EXPECT_COND"),
    cjob("repeat", "expand_operator_repeat_node", "repeat", _W % "EXPECT_BODY"),
    cjob("do", "expand_operator_do_node", "do", _W % "EXPECT_BODY"),
    cjob("if", "expand_operator_if_node", "if"),
    cjob("for", "expand_operator_for_node", "for", keep_static=["unroll_loop"], inv="""
__CPROVER_assigns(g_state, program_counter, g_bodies, sym->value, g_expect)
__CPROVER_loop_invariant(g_state == EXPECT_BODY && sym->value == g_expect && error_count == g_errors_at_entry && g_bodies >= 0 && g_bodies <= 2)"""),
    cjob("statement", "expand_operator_statement_node", "statement", unwind=5),
]
CONTROL = [j["name"] for j in _control]

HR = os.path.join(HERE, "regloop.c")
_reg = [
    dict(name="register_loop", harness=HR, units=["expand"], functions=["expand_operator_for_reg_node"], drop={"expand": ["expand_node"]}, unwind=12),
    dict(name="register_loop_down_to_zero", harness=HR, units=["expand"], functions=["expand_operator_for_reg_node"], drop={"expand": ["expand_node"]}, defines=["DOWN_TO_ZERO"], unwind=12),
]
REGLOOP = [j["name"] for j in _reg]

HO = os.path.join(HERE, "opnode.c")
_opnode = [
    dict(name="opcode_statement", harness=HO, units=["expand"], functions=["expand_op_code_node"], drop={"expand": ["expand_node", "has_uninitialized_symbol"]}, unwindset=["harness.0:16"], unwind=6),
]

HDT = os.path.join(HERE, "data.c")
DTG = os.path.join(HERE, "data_ghost.h")
_data = [dict(name="data_list_" + n, harness=HDT, units=["expand"], functions=["expand_data_node", "expand_operator_expression_list_node"],
         defines=["H_list", f"SIZE={z}"], drop={"expand": ["expand_node", "has_uninitialized_symbol"]}, unwind=5) for z, n in enumerate(("str", "byte", "word"))] + [
    dict(name="fill", harness=HDT, units=["expand"], functions=["expand_operator_fill_node"], defines=["H_fill"], drop={"expand": ["expand_node"]}, ghost=DTG,
         fallback=dict(unwind=8, loops=None, defines=["H_fill", "MAXCOUNT=10"]),
         loops={"expand": {"expand_operator_fill_node": {0: (None, """
__CPROVER_assigns(data_size, generate_fill_node1, generate_fill_node2, program_counter, count, g_emitted, g_listed, g_dn1, g_dn2, g_konst1, g_konst2)
__CPROVER_loop_invariant(count >= 0 && count <= in_count && g_emitted == in_count - count && g_listed == g_emitted && program_counter == in_pc + g_emitted)
__CPROVER_loop_invariant(generate_fill_node1 == (parse_node_ptr)0 || (generate_fill_node1 == &g_dn1 && g_dn1.type == type_data && g_dn1.data.size == 1 && (unsigned long)g_dn1.data.data == (unsigned long)in_byte))
__CPROVER_loop_invariant(generate_fill_node2 == (parse_node_ptr)0 || (generate_fill_node2 == &g_dn2 && g_dn2.type == type_data && g_dn2.data.size == 2 && (unsigned long)g_dn2.data.data == (unsigned long)(in_byte | in_byte << 8)))
__CPROVER_decreases(count)""")}}}),
    dict(name="ds", harness=HDT, units=["expand"], functions=["expand_operator_ds_node"], defines=["H_ds"], drop={"expand": ["expand_node"]}),
    dict(name="load", harness=HDT, units=["expand"], functions=["expand_operator_load_node"], defines=["H_load"], drop={"expand": ["expand_node"]}, ghost=DTG,
         fallback=dict(unwind=8, loops=None, defines=["H_load", "MAXLEN=6"]),
         loops={"expand": {"expand_operator_load_node": {0: (None, """
__CPROVER_assigns(pos, data_size, g_pos, g_eof, g_emitted, g_seen, g_konst, g_dn1)
__CPROVER_loop_invariant(g_pos >= 0 && g_pos <= in_len && g_emitted == (int)g_pos && pos <= (unsigned long)g_pos && !g_eof && len == (unsigned long)in_len)
__CPROVER_loop_invariant(g_pos < in_len ? pos < len : (pos == len || pos + 2 == len))
__CPROVER_loop_invariant(g_seen == (g_k < g_pos ? 1 : 0))
__CPROVER_decreases(2 * (in_len - g_pos) + (pos == len ? 0 : 1))""")}}}),
]

HA = os.path.join(HERE, "anon.c")
AG = os.path.join(HERE, "anon_ghost.h")
_anon = [
    dict(name="find_minus_symbol", harness=HA, units=["sym"], functions=["find_minus_symbol"], defines=["H_find", "NOREACH"], ghost=AG, flags=["--z3"], backend="SMT (z3)",
         fallback=dict(unwind=6, loops=None, defines=["H_find", "BOUNDED", "MAXN=4"], flags=[]), reach=dict(unwind=5, loops=None, defines=["H_find", "BOUNDED", "MAXN=3"], flags=[]),
         loops={"sym": {"find_minus_symbol": {0: (None, """
__CPROVER_assigns(index, found_index)
__CPROVER_loop_invariant(index >= 0 && index <= g_n && found_index == (index <= g_B || g_F < g_B ? -1 : (index - 1 < g_F ? index - 1 : g_F)))
__CPROVER_decreases(g_n - index)""")}}}),
    dict(name="find_plus_symbol", harness=HA, units=["sym"], functions=["find_plus_symbol"], defines=["H_find", "PLUS", "NOREACH"], ghost=AG, flags=["--z3"], backend="SMT (z3)",
         fallback=dict(unwind=6, loops=None, defines=["H_find", "BOUNDED", "MAXN=4", "PLUS"], flags=[]), reach=dict(unwind=5, loops=None, defines=["H_find", "BOUNDED", "MAXN=3", "PLUS"], flags=[]),
         loops={"sym": {"find_plus_symbol": {0: (None, """
__CPROVER_assigns(index, found_index)
__CPROVER_loop_invariant(index >= 0 && index <= g_n && found_index == -1 && (g_F + 1 < g_E ? index <= g_F + 1 : 1))
__CPROVER_decreases(g_n - index)""")}}}),
]

HL = os.path.join(HERE, "lexif.c")
def ljob(name, tag, fns, **kw):
    d = dict(name=name, harness=HL, units=["lexer"], functions=fns, defines=["H_" + tag], unwind=14)
    d.update(kw)
    return d
OTHER = ((0, 75), (75, 150), (150, 1000))
_lex = [
    ljob("scan_ifdef", "ifdef", ["act_INITIAL_IFDEFSYMB", "act_INITIAL_IFNDEFSYMB"]),
    ljob("scan_ifdef_blanks", "ifdef", ["act_INITIAL_IFDEFSYMB", "act_INITIAL_IFNDEFSYMB"], defines=["H_ifdef", "BLANKS=8"], unwind=22, bounded="up to 8 blanks or tabs before the symbol"),
    ljob("scan_if", "if", ["act_INITIAL_IF", "act_IF_DEF_IF"]),
    ljob("scan_else", "else", ["act_INITIAL_ELSE", "act_IF_DEF_ELSE"]),
    ljob("scan_endif", "endif", ["act_INITIAL_ENDIF", "act_IF_DEF_ENDIF"]),
    ljob("scan_skipped", "skip", ["the other rules of the skipping state"]),
] + [ljob(f"scan_other_{a}", "other", ["the other rules of the assembling state"], defines=["H_other", f"LO={a}", f"HI={b}"], object_bits=12, unwind=6, timeout=100) for a, b in OTHER] + [
]

HST = os.path.join(HERE, "str.c")
_SI = """
__CPROVER_assigns(str, tmp_str, esc_char, error_count, __CPROVER_object_whole(g_out))
__CPROVER_loop_invariant(__CPROVER_same_object(str, g_str) && __CPROVER_same_object(tmp_str, g_out) && __CPROVER_POINTER_OFFSET(str) <= (unsigned long)in_len && __CPROVER_POINTER_OFFSET(tmp_str) <= __CPROVER_POINTER_OFFSET(str) && g_str[in_len] == 0 && out_str == g_out)
__CPROVER_decreases((unsigned long)in_len - __CPROVER_POINTER_OFFSET(str))"""
_str = [
    dict(name="string_decoder_bounds", harness=HST, units=["str"], functions=["sanitize_string_length"], defines=["H_safe", "MAXN=1000000"], plain_loops=True, ghost=os.path.join(HERE, "str_ghost.h"), 
         loops={"str": {"sanitize_string_length": {0: (None, _SI), 1: (None, _SI.replace("&& out_str", "&& __CPROVER_POINTER_OFFSET(str) >= __CPROVER_POINTER_OFFSET(__CPROVER_loop_entry(str)) && out_str"))}}}, fallback=dict(unwind=6, loops=None, defines=["H_decode", "MAXLEN=4"], flags=[])),
    dict(name="string_decoder", harness=HST, units=["str"], functions=["sanitize_string_length"], defines=["H_decode", "MAXLEN=5"], unwind=7, bounded="strings of up to 5 characters"),
]

HN = os.path.join(HERE, "node.c")
NG = os.path.join(HERE, "node_ghost.h")
def njob(name, tag, fns, **kw):
    d = dict(name=name, harness=HN, units=["node"], functions=fns, defines=["H_" + tag], ghost=NG)
    d.update(kw)
    return d
_node = [
    njob("allocate_node", "allocate", ["allocate_node"]),
    njob("operator_node", "operator", ["operator_node", "allocate_node"], unwind=10, bounded="up to 8 children (the grammar makes at most 5)"),
    njob("tree_leaves", "leaves", ["constant_node", "id_node", "macro_id_node", "data_node", "print_state_node", "macro_expand_node", "id_node_common"], unwind=6),
    njob("string_node", "string", ["string_node"], unwind=9, bounded="strings of up to 6 characters"),
    njob("remove_parse_node", "remove", ["remove_parse_node", "free_parse_node"], unwind=6),
    njob("free_parse_tree", "free_tree", ["free_parse_tree"], drop={"node": ["remove_parse_node"]}, defines=["H_free_tree", "MAXN=1000000"],
         fallback=dict(unwind=8, loops=None, defines=["H_free_tree", "MAXN=6"]),
         loops={"node": {"free_parse_tree": {0: (None, """
__CPROVER_assigns(p, head_node, g_removed, __CPROVER_object_whole(g_n))
__CPROVER_loop_invariant(g_removed >= 0 && g_removed <= in_total)
__CPROVER_loop_invariant(p == (g_removed < in_total ? &g_n[g_removed & 1] : (parse_node*)0))
__CPROVER_loop_invariant(g_removed < in_total ==> g_n[g_removed & 1].next == (g_removed + 1 < in_total ? &g_n[(g_removed + 1) & 1] : (parse_node*)0))
__CPROVER_loop_invariant(head_node == p)
__CPROVER_decreases(in_total - g_removed)""")}}}),
    njob("opcode_node", "opcode", ["opcode_node"], unwind=26),
]

HP = os.path.join(HERE, "pass.c")
PG = os.path.join(HERE, "pass_ghost.h")
_pass = [
    dict(name="assemble", harness=HP, units=["pass"], functions=["assemble"], defines=["H_assemble"], drop={"pass": ["parse_pass", "reset_lex"]}, unwind=25),
    dict(name="main_status", harness=HP, units=["main"], functions=["main"], defines=["H_main"], unit_defines={"main": ["main=pasm_main"]}),
    dict(name="error_counts", harness=HP, units=["error"], functions=["error", "error2", "yyerror", "yymessage", "warn"], defines=["H_error"], unwind=82, bounded="source lines 0 to 5, parameters of up to 79 characters"),
    dict(name="parse_pass", harness=HP, units=["pass"], functions=["parse_pass"], defines=["H_parse_pass", "MAXN=100000"], drop={"pass": ["reset_lex"]}, ghost=PG,
         fallback=dict(unwind=6, loops=None, defines=["H_parse_pass", "MAXN=4"]),
         loops={"pass": {"parse_pass": {0: (None, """
__CPROVER_assigns(in_file_index, yylineno, current_file_name, yyin, error_count, g_parsed, g_opened, g_closed, g_is_open)
__CPROVER_loop_invariant(in_file_index >= 0 && in_file_index <= in_n && g_parsed == in_file_index && g_opened == in_file_index && !g_is_open && g_closed == 0 && g_freed == 0 && (in_file_index == 0 || yyin == 0))
__CPROVER_decreases(in_n - in_file_index)""")}}}),
    dict(name="reset_lex", harness=HP, units=["pass"], functions=["reset_lex"], defines=["H_reset"], drop={"pass": ["parse_pass", "assemble"]}, unwind=5),
]

HAR = os.path.join(HERE, "args.c")
ARG = os.path.join(HERE, "args_ghost.h")
NARG = 48
_args = [
    dict(name="parse_arguments", object_bits=10, harness=HAR, units=["parseargs"], functions=["parse_arguments"], defines=[f"MAXN={NARG}"], unit_defines={"parseargs": [f"MAXN={NARG}"]}, ghost=ARG, drop={"parseargs": ["usage"]}, unwindset=[f"harness.0:{NARG + 1}"],
         bounded=f"at most {NARG} arguments; the loop itself by invariant",
         fallback=dict(plain_loops=False, unwind=10, loops=None, timeout=200, defines=["MAXN=4", "STEP_ANY"], unit_defines={"parseargs": ["MAXN=4"]}, unwindset=["harness.0:5", "parse_arguments.0:5", "parse_arguments.1:4"]),
         loops={"parseargs": {"parse_arguments": {0: (None, """
__CPROVER_assigns(arg)
__CPROVER_loop_invariant(arg >= 0 && arg <= argc)
__CPROVER_decreases(argc - arg)"""), 1: (None, """
__CPROVER_assigns(arg_index, illegal_specified, cpu_specified, output_file_name, sym_file_name, directories, log_file_name, list_file_name, output_file_format, verbose, cpu_mode, allow_illegal_op_codes, ignore_warnings, input_file_count, __CPROVER_object_whole(input_files), g_next, g_cur, e_out, e_sym, e_dir, e_log, e_list, e_c64, e_v, e_cpuspec, e_cpu, e_illegal, e_nowarn, e_nfiles, e_defs, g_defs, e_track, g_errors, e_name, e_val, e_error, e_help, g_num, g_symbol)
__CPROVER_loop_invariant(arg_index == g_next && arg_index >= 1 && arg_index <= argc && argc == in_argc && g_cur >= 0 && g_cur < g_next)
__CPROVER_loop_invariant(AGREE && !e_error && !e_help && g_errors == 0)
__CPROVER_loop_invariant(!illegal_specified == !e_illegal && !cpu_specified == !e_cpuspec && input_file_count >= 0 && input_file_count < arg_index)
__CPROVER_loop_invariant(e_out >= 0 && e_out < argc && e_sym >= 0 && e_sym < argc && e_dir >= 0 && e_dir < argc && e_log >= 0 && e_log < argc && e_list >= 0 && e_list < argc && e_defs >= 0 && e_defs < arg_index)
__CPROVER_loop_invariant(in_track < e_nfiles ==> (e_track > 0 && e_track < argc && input_files[in_track] == ARG(e_track)))
__CPROVER_loop_invariant(e_defs > 0 ==> (g_symbol.is_initialized && g_symbol.times_accessed >= 1000))
__CPROVER_decreases(argc - arg_index)""")}}}),
]

HFI = os.path.join(HERE, "files.c")
_files = [
    dict(name="open_file_search", harness=HFI, units=["file"], functions=["open_file"], defines=["H_search"], drop={"file": ["open_include_file", "read_file_lines"]}, unwind=13, bounded="directory lists of up to 6 characters, names of up to 2"),
    dict(name="include_and_return", harness=HFI, units=["file", "lexer"], functions=["open_include_file", "act_INITIAL_EOF"], defines=["H_include"], drop={"file": ["read_file_lines"]}, unwind=3),
    dict(name="end_of_source", harness=HFI, units=["lexer"], functions=["act_INITIAL_EOF"], defines=["H_last"], unwind=3),
]

HSY = os.path.join(HERE, "sym.c")
SYG = os.path.join(HERE, "sym_ghost.h")
SYMF = "add_plus_minus_sym is_local_sym add_symbol look_up_macro_param look_up_symbol set_symbol_value find_plus_symbol_definition find_minus_symbol_definition find_minus_symbol find_plus_symbol add_minus_symbol add_plus_symbol push_macro_params pop_macro_params sanitize_symbol format_local_plus_minus_sym format_local_sym print_symbol_element print_symbol dump_symbols dump_changed_symbols dump_unresolved_symbols unresolved_symbol_count compare_plus_minus_sym compare_plus_minus_sym_value plus_minus_sym_cmp_function symbol_compare get_max_macro_parameter".split()
def yjob(name, tag, keep, fns, stub=(), units=("sym",), drop=None, **kw):
    d = dict(name=name, harness=HSY, units=list(units), functions=fns, defines=["H_" + tag], ghost=SYG, drop={"sym": [f for f in stub]}, unit_defines={"sym": ["malloc=vt_malloc"]})
    d["drop"].update(drop or {})
    d.update(kw)
    return d
def ydef(tag, fn):
    inv = """
__CPROVER_assigns(index)
__CPROVER_loop_invariant(index >= 0 && index <= %s_symbol_table_index && (in_match ==> in_track >= index))""" % tag
    d = ["H_definition"] + (["PLUS"] if tag == "plus" else [])
    return yjob(f"anonymous_{tag}_defined", "definition", (), [fn, "compare_plus_minus_sym_value", "compare_plus_minus_sym"], defines=d + ["MAXN=100000"],
                loops={"sym": {fn: {0: (None, inv)}}}, fallback=dict(loops=None, unwind=6, defines=d + ["MAXN=4"]))
_CNT = "__CPROVER_assigns(index, count, elem, g_A, g_B, g_C, g_sA, g_sB, g_sC)"
_sym = [
    yjob("set_symbol_value", "set", (), ["set_symbol_value"]),
    yjob("look_up_symbol", "lookup", (), ["look_up_symbol"]),
    yjob("add_symbol", "add", (), ["add_symbol", "sanitize_symbol", "format_local_sym"], stub=["add_plus_minus_sym", "look_up_symbol"], unwind=21, bounded="names of up to 3 characters, sections and labels of up to 2"),
    yjob("local_label", "local", (), ["label_node", "format_local_sym"], units=["sym", "node"], drop={"node": ["id_node_common"]}, unwind=21, bounded="names of up to 4 characters"),
    yjob("section", "section", (), ["expand_operator_section_node", "expand_operator_end_section_node"], units=["expand"], unit_defines={"expand": ["malloc=vt_malloc"]}, unwind=21, bounded="names of up to 6 characters"),
    yjob("definition", "equ", (), ["expand_operator_equ_node"], units=["expand"], unit_defines={"expand": ["malloc=vt_malloc"]}, drop={"expand": ["expand_node"]}, unwind=21, bounded="names of up to 2 characters"),
    ydef("plus", "find_plus_symbol_definition"), ydef("minus", "find_minus_symbol_definition"),
    yjob("anonymous_order", "order", (), ["plus_minus_sym_cmp_function", "compare_plus_minus_sym"]),
    yjob("add_minus_symbol", "add_anon", (), ["add_minus_symbol"], defines=["H_add_anon"]),
    yjob("add_plus_symbol", "add_anon", (), ["add_plus_symbol"], defines=["H_add_anon", "PLUS"]),
    yjob("unresolved_symbol_count", "unresolved", (), ["unresolved_symbol_count"], defines=["H_unresolved", "MAXN=1000"], unwind=5, unwindset=["harness.0:1001"], plain_loops=True, pre_unwind=["unresolved_symbol_count.0:5"], bounded="dictionaries of up to 1000 buckets of up to 3 symbols", fallback=dict(loops=None, plain_loops=False, pre_unwind=None, bounded="dictionaries of up to 3 buckets of up to 3 symbols", defines=["H_unresolved", "MAXN=3"]),
         loops={"sym": {"unresolved_symbol_count": {0: (None, """
__CPROVER_assigns(index, count, g_sA, g_sB, g_sC, g_sD)
__CPROVER_loop_invariant(index >= 0 && index <= symbol_dictionary->size && count >= 0 && count <= 3 * index && LISTS)
__CPROVER_loop_invariant((g_track && index > g_bucket) ==> count > 0)
__CPROVER_loop_invariant(in_none ==> count == 0)"""), 1: (None, "")}}}),
    yjob("symbol_compare", "compare", (), ["symbol_compare"]),
    yjob("dump_symbols", "dump", (), ["dump_symbols", "symbol_compare"], unwind=5, unwindset=["fprintf.0:17"], bounded="up to 3 symbols in 2 buckets, names of 3 characters"),
    yjob("macro_parameters", "push_pop", (), ["push_macro_params", "pop_macro_params"], stub=["look_up_macro_param", "set_symbol_value"], defines=["H_push_pop", "MAXN=100000"], fallback=dict(loops=None, unwind=9, defines=["H_push_pop", "MAXN=4"]),
         loops={"sym": {"push_macro_params": {0: (None, """
__CPROVER_assigns(index, g_index, __CPROVER_object_whole(macro_stack_param_entry.values))
__CPROVER_loop_invariant(index >= 1 && index <= max_macro + 1 && error_count == 0 && ((in_k < index && in_k <= in_max) ==> macro_stack_param_entry.values[in_k] == in_value))"""), },
                "pop_macro_params": {0: (None, """
__CPROVER_assigns(index, g_index, g_k.value)
__CPROVER_loop_invariant(index >= 1 && error_count == 0 && (index <= in_k || in_k > in_max || g_k.value == in_value))""")}}}),
]

HMC = os.path.join(HERE, "macro.c")
MCG = os.path.join(HERE, "macro_ghost.h")
def mjob(name, tag, fns, stub=(), **kw):
    d = dict(name=name, harness=HMC, units=["expand"], functions=fns, defines=["H_" + tag, "MAXN=100000"], ghost=MCG, drop={"expand": list(stub)}, unit_defines={"expand": ["malloc=vt_malloc"]}, unwind=8)
    d.update(kw)
    return d
_MA = ["expand_node", "create_macro_entry", "set_macro_parameters", "save_macro_parameter_value", "has_uninitialized_symbol"]
_macro = [
    mjob("macro_call", "call", ["expand_macro_expansion_node", "set_macro_parameters"], ["expand_node", "create_macro_entry", "has_uninitialized_symbol"], unit_defines={"expand": ["malloc=vt_malloc", "EXPAND_UNIT"]}, fallback=dict(loops=None, unwind=8, defines=["H_call", "MAXN=5"]),
         loops={"expand": {"set_macro_parameters": {0: (None, """
__CPROVER_assigns(index, g_index, g_is_label, g_k, g_other, __CPROVER_object_whole(sym_name))
__CPROVER_loop_invariant(index >= 1 && index <= macro_parameter_index + 1 && (index > in_k ==> (g_k.value == in_arg && g_k.is_initialized)) && (index <= in_k ==> (g_k.value == __CPROVER_loop_entry(g_k.value) && g_k.is_initialized == __CPROVER_loop_entry(g_k.is_initialized))))""")}}}),
    mjob("macro_arguments", "args", ["expand_macro_expansion_node", "expand_operator_expression_list_node"], _MA, unwind=4, bounded="2 arguments, flat"),
    mjob("macro_arguments_list", "args", ["expand_macro_expansion_node", "expand_operator_expression_list_node"], _MA, unwind=4, defines=["H_args", "NESTED"], bounded="3 arguments as the grammar nests them"),
    mjob("macro_argument_values", "save", ["save_macro_parameter_value"]),
    mjob("macro_body", "id", ["expand_macro_id_node"], ["expand_node", "create_macro_entry", "expand_id_node"]),
    mjob("macro_call_count", "entry", ["create_macro_entry", "reset_macro_dict"], bounded="two macros"),
]

HLS = os.path.join(HERE, "list.c")
def ljob(name, *defs, **kw):
    d = dict(name=name, harness=HLS, units=["node"], functions=["generate_list_node"], defines=list(defs), ghost=os.path.join(HERE, "list_ghost.h"), ghost_always=True, unit_defines={"node": ["malloc=vt_malloc"]}, unwind=66)
    d.update(kw)
    return d
_MODES = "A i a ax ay aix ind zp zpi zpx zpy izx izy I r".split()
_list = [ljob("listing_opcode_" + m, "H_op", "MODE=" + m) for m in _MODES] + [ljob("listing_data_%d" % z, "H_data", "SIZE=%d" % z) for z in (0, 1, 2)] + \
    [ljob("listing_string_%d" % n, "H_str", "LEN=%d" % n, "union=struct", unwind=130, unit_defines={"node": ["malloc=vt_malloc", "union=struct"]}, bounded="strings of %d bytes" % n) for n in (1, 2, 3, 4, 5)]
HGL = os.path.join(HERE, "genlist.c")
_GLK = dict(harness=HGL, ghost=os.path.join(HERE, "genlist_ghost.h"), ghost_always=True)
_list += [
    dict(name="add_list", units=["genlist"], functions=["add_list"], defines=["H_add"], unit_defines={"genlist": ["malloc=vt_malloc"]}, unwind=6, bounded="lists of up to 4 rows", **_GLK),
    dict(name="generate_list_file", units=["genlist"], functions=["generate_list_file", "get_file_line"], defines=["H_file"], unit_defines={"genlist": ["malloc=vt_malloc"]}, unwind=6, bounded="3 rows, two files of up to 3 lines", **_GLK),
    dict(name="print_directive", units=["expand", "node"], functions=["expand_print_state_node", "generate_list_node"], defines=["H_print"], unit_defines={"node": ["malloc=vt_malloc"]}, drop={"expand": ["expand_node"]}, unwind=30, **_GLK),
]

JOBS = {}
for _l in (_list, _macro, _sym, _files, _args, _pass, _node, _str, _lex, _genoutput, _expr, _stacks, _dict, _control, _reg, _opnode, _data, _anon):
    for _j in _l:
        assert _j["name"] not in JOBS, _j["name"]
        JOBS[_j["name"]] = _j
def pick(*names):
    return [JOBS[n] for n in names]
