#include "opcodes.h"
#include "opcode_oracle.h"
bool log_file_is_open;
int nondet_int(void);

/* Contract of get_op_code, discharged on the real function for every integer argument and every value of the
   two mode switches. */
int get_op_code(int instruction, int addressing_mode)
__CPROVER_requires(cpu_mode == cpu_6502 || cpu_mode == cpu_65C02)
__CPROVER_assigns()
__CPROVER_ensures((instruction < 0 || instruction >= _maxOpcode || addressing_mode < 0 || addressing_mode >= max_addressing_mode)
                  ==> __CPROVER_return_value == -1)
__CPROVER_ensures(__CPROVER_return_value >= -1 && __CPROVER_return_value <= 0xFF)
;

#ifdef H_RANGE
void harness(void)
{
    int in_instruction = nondet_int(), in_mode = nondet_int(), in_cpu = nondet_int(), in_illegal = nondet_int();
    cpu_mode = in_cpu ? cpu_65C02 : cpu_6502;
    allow_illegal_op_codes = in_illegal;
    get_op_code(in_instruction, in_mode);
    __CPROVER_assert(0, "vt_reach");
}
#endif
#ifdef H_TABLE
void harness(void)
{
    int in_instruction = nondet_int(), in_mode = nondet_int(), in_cpu = nondet_int(), in_illegal = nondet_int();
    __CPROVER_assume(in_instruction >= 0 && in_instruction < _maxOpcode);
    __CPROVER_assume(in_mode >= 0 && in_mode < max_addressing_mode);
    cpu_mode = in_cpu ? cpu_65C02 : cpu_6502;
    allow_illegal_op_codes = in_illegal;
    int code = get_op_code(in_instruction, in_mode);
    int undoc = orc_is_undoc(in_instruction);
    if (cpu_mode == cpu_6502)
    {
        if (undoc)
            __CPROVER_assert(code == (in_illegal ? orc_undoc[in_instruction][in_mode] - 1 : -1),
                             "6502 undocumented instruction: documented byte only when enabled");
        else
            __CPROVER_assert(code == orc_nmos[in_instruction][in_mode] - 1, "6502 opcode byte");
        if (in_cpu == 0 && code >= 0) __CPROVER_assert(0, "vt_reach 6502");
    }
    else if (!undoc)
    {
#ifdef H_ZPIND
        if (orc_is_zpind(in_instruction) && (in_mode == zpi || in_mode == ind))
#else
        if (!(orc_is_zpind(in_instruction) && (in_mode == zpi || in_mode == ind)))
#endif
        {
            __CPROVER_assert(code == orc_cmos[in_instruction][in_mode] - 1, "65C02 opcode byte");
            if (code >= 0) __CPROVER_assert(0, "vt_reach 65C02");
        }
    }
}
#endif
#ifdef H_NAMES
void harness(void)
{
    int in_instruction = nondet_int();
    __CPROVER_assume(in_instruction >= 0 && in_instruction < _maxOpcode);
    const char* n = instruction_to_string(in_instruction);
    const char* e = orc_name[in_instruction];
    __CPROVER_assert(e != NULL, "every mnemonic is known to the oracle");
    for (int k = 0; k < 6; k++)
    {
        __CPROVER_assert((n[k] | 0x20) == (e[k] | 0x20), "listing name of the mnemonic");
        if (!e[k]) break;
    }
    __CPROVER_assert(0, "vt_reach");
}
#endif
