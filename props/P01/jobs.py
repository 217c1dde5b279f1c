import os, sys
VERIF = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..")
sys.path[:0] = [os.path.join(VERIF, "vt"), os.path.join(VERIF, "contracts")]
import standin, fixed
jobs = [
    dict(name="get_op_code_contract", harness="harness.c", units=["opcodes"], functions=["get_op_code"], enforce="get_op_code", keep_static=["ops6502", "ops65c02"], defines=["H_RANGE"]),
    dict(name="opcode_tables_vs_datasheet", harness="harness.c", units=["opcodes"], functions=["get_op_code"], defines=["H_TABLE"]),
    dict(name="opcode_tables_65c02_zp_indirect", harness="harness.c", units=["opcodes"], functions=["get_op_code"], defines=["H_TABLE", "H_ZPIND"]),
    dict(name="mnemonic_names", harness="harness.c", units=["opcodes"], functions=["instruction_to_string"], defines=["H_NAMES"], unwind=8),
]
LEVEL = "proof"

replay = standin.both(fixed.cases('P01'), standin.programs(dict(p_65c02=.5, branch=1, w_ins=8, p_ctl=.05, sections=0, size=30), n=1500))
STANDIN_ALWAYS = True
