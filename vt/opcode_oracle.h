/* generated by opcode_oracle.py */
/* opcode byte + 1, 0 = instruction has no such addressing mode */
static const short orc_nmos[_maxOpcode][max_addressing_mode] = {
    [_adc] = { [I] = 0x69 + 1, [a] = 0x6D + 1, [ax] = 0x7D + 1, [ay] = 0x79 + 1, [izx] = 0x61 + 1, [izy] = 0x71 + 1, [zp] = 0x65 + 1, [zpx] = 0x75 + 1 },
    [_and] = { [I] = 0x29 + 1, [a] = 0x2D + 1, [ax] = 0x3D + 1, [ay] = 0x39 + 1, [izx] = 0x21 + 1, [izy] = 0x31 + 1, [zp] = 0x25 + 1, [zpx] = 0x35 + 1 },
    [_asl] = { [A] = 0x0A + 1, [a] = 0x0E + 1, [ax] = 0x1E + 1, [i] = 0x0A + 1, [zp] = 0x06 + 1, [zpx] = 0x16 + 1 },
    [_bcc] = { [r] = 0x90 + 1 },
    [_bcs] = { [r] = 0xB0 + 1 },
    [_beq] = { [r] = 0xF0 + 1 },
    [_bit] = { [a] = 0x2C + 1, [zp] = 0x24 + 1 },
    [_bmi] = { [r] = 0x30 + 1 },
    [_bne] = { [r] = 0xD0 + 1 },
    [_bpl] = { [r] = 0x10 + 1 },
    [_brk] = { [i] = 0x00 + 1 },
    [_bvc] = { [r] = 0x50 + 1 },
    [_bvs] = { [r] = 0x70 + 1 },
    [_clc] = { [i] = 0x18 + 1 },
    [_cld] = { [i] = 0xD8 + 1 },
    [_cli] = { [i] = 0x58 + 1 },
    [_clv] = { [i] = 0xB8 + 1 },
    [_cmp] = { [I] = 0xC9 + 1, [a] = 0xCD + 1, [ax] = 0xDD + 1, [ay] = 0xD9 + 1, [izx] = 0xC1 + 1, [izy] = 0xD1 + 1, [zp] = 0xC5 + 1, [zpx] = 0xD5 + 1 },
    [_cpx] = { [I] = 0xE0 + 1, [a] = 0xEC + 1, [zp] = 0xE4 + 1 },
    [_cpy] = { [I] = 0xC0 + 1, [a] = 0xCC + 1, [zp] = 0xC4 + 1 },
    [_dec] = { [a] = 0xCE + 1, [ax] = 0xDE + 1, [zp] = 0xC6 + 1, [zpx] = 0xD6 + 1 },
    [_dex] = { [i] = 0xCA + 1 },
    [_dey] = { [i] = 0x88 + 1 },
    [_eor] = { [I] = 0x49 + 1, [a] = 0x4D + 1, [ax] = 0x5D + 1, [ay] = 0x59 + 1, [izx] = 0x41 + 1, [izy] = 0x51 + 1, [zp] = 0x45 + 1, [zpx] = 0x55 + 1 },
    [_inc] = { [a] = 0xEE + 1, [ax] = 0xFE + 1, [zp] = 0xE6 + 1, [zpx] = 0xF6 + 1 },
    [_inx] = { [i] = 0xE8 + 1 },
    [_iny] = { [i] = 0xC8 + 1 },
    [_jmp] = { [a] = 0x4C + 1, [ind] = 0x6C + 1 },
    [_jsr] = { [a] = 0x20 + 1 },
    [_lda] = { [I] = 0xA9 + 1, [a] = 0xAD + 1, [ax] = 0xBD + 1, [ay] = 0xB9 + 1, [izx] = 0xA1 + 1, [izy] = 0xB1 + 1, [zp] = 0xA5 + 1, [zpx] = 0xB5 + 1 },
    [_ldx] = { [I] = 0xA2 + 1, [a] = 0xAE + 1, [ay] = 0xBE + 1, [zp] = 0xA6 + 1, [zpy] = 0xB6 + 1 },
    [_ldy] = { [I] = 0xA0 + 1, [a] = 0xAC + 1, [ax] = 0xBC + 1, [zp] = 0xA4 + 1, [zpx] = 0xB4 + 1 },
    [_lsr] = { [A] = 0x4A + 1, [a] = 0x4E + 1, [ax] = 0x5E + 1, [i] = 0x4A + 1, [zp] = 0x46 + 1, [zpx] = 0x56 + 1 },
    [_nop] = { [i] = 0xEA + 1 },
    [_ora] = { [I] = 0x09 + 1, [a] = 0x0D + 1, [ax] = 0x1D + 1, [ay] = 0x19 + 1, [izx] = 0x01 + 1, [izy] = 0x11 + 1, [zp] = 0x05 + 1, [zpx] = 0x15 + 1 },
    [_pha] = { [i] = 0x48 + 1 },
    [_php] = { [i] = 0x08 + 1 },
    [_pla] = { [i] = 0x68 + 1 },
    [_plp] = { [i] = 0x28 + 1 },
    [_rol] = { [A] = 0x2A + 1, [a] = 0x2E + 1, [ax] = 0x3E + 1, [i] = 0x2A + 1, [zp] = 0x26 + 1, [zpx] = 0x36 + 1 },
    [_ror] = { [A] = 0x6A + 1, [a] = 0x6E + 1, [ax] = 0x7E + 1, [i] = 0x6A + 1, [zp] = 0x66 + 1, [zpx] = 0x76 + 1 },
    [_rti] = { [i] = 0x40 + 1 },
    [_rts] = { [i] = 0x60 + 1 },
    [_sbc] = { [I] = 0xE9 + 1, [a] = 0xED + 1, [ax] = 0xFD + 1, [ay] = 0xF9 + 1, [izx] = 0xE1 + 1, [izy] = 0xF1 + 1, [zp] = 0xE5 + 1, [zpx] = 0xF5 + 1 },
    [_sec] = { [i] = 0x38 + 1 },
    [_sed] = { [i] = 0xF8 + 1 },
    [_sei] = { [i] = 0x78 + 1 },
    [_sta] = { [a] = 0x8D + 1, [ax] = 0x9D + 1, [ay] = 0x99 + 1, [izx] = 0x81 + 1, [izy] = 0x91 + 1, [zp] = 0x85 + 1, [zpx] = 0x95 + 1 },
    [_stx] = { [a] = 0x8E + 1, [zp] = 0x86 + 1, [zpy] = 0x96 + 1 },
    [_sty] = { [a] = 0x8C + 1, [zp] = 0x84 + 1, [zpx] = 0x94 + 1 },
    [_tax] = { [i] = 0xAA + 1 },
    [_tay] = { [i] = 0xA8 + 1 },
    [_tsx] = { [i] = 0xBA + 1 },
    [_txa] = { [i] = 0x8A + 1 },
    [_txs] = { [i] = 0x9A + 1 },
    [_tya] = { [i] = 0x98 + 1 },
};
/* opcode byte + 1, 0 = instruction has no such addressing mode */
static const short orc_undoc[_maxOpcode][max_addressing_mode] = {
    [_ahx] = { [ay] = 0x9F + 1, [izy] = 0x93 + 1 },
    [_alr] = { [I] = 0x4B + 1 },
    [_anc] = { [I] = 0x0B + 1 },
    [_anc2] = { [I] = 0x2B + 1 },
    [_arr] = { [I] = 0x6B + 1 },
    [_axs] = { [I] = 0xCB + 1 },
    [_dcp] = { [a] = 0xCF + 1, [ax] = 0xDF + 1, [ay] = 0xDB + 1, [izx] = 0xC3 + 1, [izy] = 0xD3 + 1, [zp] = 0xC7 + 1, [zpx] = 0xD7 + 1 },
    [_isc] = { [a] = 0xEF + 1, [ax] = 0xFF + 1, [ay] = 0xFB + 1, [izx] = 0xE3 + 1, [izy] = 0xF3 + 1, [zp] = 0xE7 + 1, [zpx] = 0xF7 + 1 },
    [_las] = { [ay] = 0xBB + 1 },
    [_lax] = { [I] = 0xAB + 1, [a] = 0xAF + 1, [ay] = 0xBF + 1, [izx] = 0xA3 + 1, [izy] = 0xB3 + 1, [zp] = 0xA7 + 1, [zpy] = 0xB7 + 1 },
    [_rla] = { [a] = 0x2F + 1, [ax] = 0x3F + 1, [ay] = 0x3B + 1, [izx] = 0x23 + 1, [izy] = 0x33 + 1, [zp] = 0x27 + 1, [zpx] = 0x37 + 1 },
    [_rra] = { [a] = 0x6F + 1, [ax] = 0x7F + 1, [ay] = 0x7B + 1, [izx] = 0x63 + 1, [izy] = 0x73 + 1, [zp] = 0x67 + 1, [zpx] = 0x77 + 1 },
    [_sax] = { [a] = 0x8F + 1, [izx] = 0x83 + 1, [zp] = 0x87 + 1, [zpy] = 0x97 + 1 },
    [_shx] = { [ay] = 0x9E + 1 },
    [_shy] = { [ax] = 0x9C + 1 },
    [_slo] = { [a] = 0x0F + 1, [ax] = 0x1F + 1, [ay] = 0x1B + 1, [izx] = 0x03 + 1, [izy] = 0x13 + 1, [zp] = 0x07 + 1, [zpx] = 0x17 + 1 },
    [_sre] = { [a] = 0x4F + 1, [ax] = 0x5F + 1, [ay] = 0x5B + 1, [izx] = 0x43 + 1, [izy] = 0x53 + 1, [zp] = 0x47 + 1, [zpx] = 0x57 + 1 },
    [_tas] = { [ay] = 0x9B + 1 },
    [_usbc] = { [I] = 0xEB + 1 },
    [_xaa] = { [I] = 0x8B + 1 },
};
/* opcode byte + 1, 0 = instruction has no such addressing mode */
static const short orc_cmos[_maxOpcode][max_addressing_mode] = {
    [_adc] = { [I] = 0x69 + 1, [a] = 0x6D + 1, [ax] = 0x7D + 1, [ay] = 0x79 + 1, [izx] = 0x61 + 1, [izy] = 0x71 + 1, [zp] = 0x65 + 1, [zpi] = 0x72 + 1, [zpx] = 0x75 + 1 },
    [_and] = { [I] = 0x29 + 1, [a] = 0x2D + 1, [ax] = 0x3D + 1, [ay] = 0x39 + 1, [izx] = 0x21 + 1, [izy] = 0x31 + 1, [zp] = 0x25 + 1, [zpi] = 0x32 + 1, [zpx] = 0x35 + 1 },
    [_asl] = { [A] = 0x0A + 1, [a] = 0x0E + 1, [ax] = 0x1E + 1, [i] = 0x0A + 1, [zp] = 0x06 + 1, [zpx] = 0x16 + 1 },
    [_bbr0] = { [r] = 0x0F + 1 },
    [_bbr1] = { [r] = 0x1F + 1 },
    [_bbr2] = { [r] = 0x2F + 1 },
    [_bbr3] = { [r] = 0x3F + 1 },
    [_bbr4] = { [r] = 0x4F + 1 },
    [_bbr5] = { [r] = 0x5F + 1 },
    [_bbr6] = { [r] = 0x6F + 1 },
    [_bbr7] = { [r] = 0x7F + 1 },
    [_bbs0] = { [r] = 0x8F + 1 },
    [_bbs1] = { [r] = 0x9F + 1 },
    [_bbs2] = { [r] = 0xAF + 1 },
    [_bbs3] = { [r] = 0xBF + 1 },
    [_bbs4] = { [r] = 0xCF + 1 },
    [_bbs5] = { [r] = 0xDF + 1 },
    [_bbs6] = { [r] = 0xEF + 1 },
    [_bbs7] = { [r] = 0xFF + 1 },
    [_bcc] = { [r] = 0x90 + 1 },
    [_bcs] = { [r] = 0xB0 + 1 },
    [_beq] = { [r] = 0xF0 + 1 },
    [_bit] = { [I] = 0x89 + 1, [a] = 0x2C + 1, [ax] = 0x3C + 1, [zp] = 0x24 + 1, [zpx] = 0x34 + 1 },
    [_bmi] = { [r] = 0x30 + 1 },
    [_bne] = { [r] = 0xD0 + 1 },
    [_bpl] = { [r] = 0x10 + 1 },
    [_bra] = { [r] = 0x80 + 1 },
    [_brk] = { [i] = 0x00 + 1 },
    [_bvc] = { [r] = 0x50 + 1 },
    [_bvs] = { [r] = 0x70 + 1 },
    [_clc] = { [i] = 0x18 + 1 },
    [_cld] = { [i] = 0xD8 + 1 },
    [_cli] = { [i] = 0x58 + 1 },
    [_clv] = { [i] = 0xB8 + 1 },
    [_cmp] = { [I] = 0xC9 + 1, [a] = 0xCD + 1, [ax] = 0xDD + 1, [ay] = 0xD9 + 1, [izx] = 0xC1 + 1, [izy] = 0xD1 + 1, [zp] = 0xC5 + 1, [zpi] = 0xD2 + 1, [zpx] = 0xD5 + 1 },
    [_cpx] = { [I] = 0xE0 + 1, [a] = 0xEC + 1, [zp] = 0xE4 + 1 },
    [_cpy] = { [I] = 0xC0 + 1, [a] = 0xCC + 1, [zp] = 0xC4 + 1 },
    [_dec] = { [A] = 0x3A + 1, [a] = 0xCE + 1, [ax] = 0xDE + 1, [i] = 0x3A + 1, [zp] = 0xC6 + 1, [zpx] = 0xD6 + 1 },
    [_dex] = { [i] = 0xCA + 1 },
    [_dey] = { [i] = 0x88 + 1 },
    [_eor] = { [I] = 0x49 + 1, [a] = 0x4D + 1, [ax] = 0x5D + 1, [ay] = 0x59 + 1, [izx] = 0x41 + 1, [izy] = 0x51 + 1, [zp] = 0x45 + 1, [zpi] = 0x52 + 1, [zpx] = 0x55 + 1 },
    [_inc] = { [A] = 0x1A + 1, [a] = 0xEE + 1, [ax] = 0xFE + 1, [i] = 0x1A + 1, [zp] = 0xE6 + 1, [zpx] = 0xF6 + 1 },
    [_inx] = { [i] = 0xE8 + 1 },
    [_iny] = { [i] = 0xC8 + 1 },
    [_jmp] = { [a] = 0x4C + 1, [aix] = 0x7C + 1, [ind] = 0x6C + 1 },
    [_jsr] = { [a] = 0x20 + 1 },
    [_lda] = { [I] = 0xA9 + 1, [a] = 0xAD + 1, [ax] = 0xBD + 1, [ay] = 0xB9 + 1, [izx] = 0xA1 + 1, [izy] = 0xB1 + 1, [zp] = 0xA5 + 1, [zpi] = 0xB2 + 1, [zpx] = 0xB5 + 1 },
    [_ldx] = { [I] = 0xA2 + 1, [a] = 0xAE + 1, [ay] = 0xBE + 1, [zp] = 0xA6 + 1, [zpy] = 0xB6 + 1 },
    [_ldy] = { [I] = 0xA0 + 1, [a] = 0xAC + 1, [ax] = 0xBC + 1, [zp] = 0xA4 + 1, [zpx] = 0xB4 + 1 },
    [_lsr] = { [A] = 0x4A + 1, [a] = 0x4E + 1, [ax] = 0x5E + 1, [i] = 0x4A + 1, [zp] = 0x46 + 1, [zpx] = 0x56 + 1 },
    [_nop] = { [i] = 0xEA + 1 },
    [_ora] = { [I] = 0x09 + 1, [a] = 0x0D + 1, [ax] = 0x1D + 1, [ay] = 0x19 + 1, [izx] = 0x01 + 1, [izy] = 0x11 + 1, [zp] = 0x05 + 1, [zpi] = 0x12 + 1, [zpx] = 0x15 + 1 },
    [_pha] = { [i] = 0x48 + 1 },
    [_php] = { [i] = 0x08 + 1 },
    [_phx] = { [i] = 0xDA + 1 },
    [_phy] = { [i] = 0x5A + 1 },
    [_pla] = { [i] = 0x68 + 1 },
    [_plp] = { [i] = 0x28 + 1 },
    [_plx] = { [i] = 0xFA + 1 },
    [_ply] = { [i] = 0x7A + 1 },
    [_rmb0] = { [zp] = 0x07 + 1 },
    [_rmb1] = { [zp] = 0x17 + 1 },
    [_rmb2] = { [zp] = 0x27 + 1 },
    [_rmb3] = { [zp] = 0x37 + 1 },
    [_rmb4] = { [zp] = 0x47 + 1 },
    [_rmb5] = { [zp] = 0x57 + 1 },
    [_rmb6] = { [zp] = 0x67 + 1 },
    [_rmb7] = { [zp] = 0x77 + 1 },
    [_rol] = { [A] = 0x2A + 1, [a] = 0x2E + 1, [ax] = 0x3E + 1, [i] = 0x2A + 1, [zp] = 0x26 + 1, [zpx] = 0x36 + 1 },
    [_ror] = { [A] = 0x6A + 1, [a] = 0x6E + 1, [ax] = 0x7E + 1, [i] = 0x6A + 1, [zp] = 0x66 + 1, [zpx] = 0x76 + 1 },
    [_rti] = { [i] = 0x40 + 1 },
    [_rts] = { [i] = 0x60 + 1 },
    [_sbc] = { [I] = 0xE9 + 1, [a] = 0xED + 1, [ax] = 0xFD + 1, [ay] = 0xF9 + 1, [izx] = 0xE1 + 1, [izy] = 0xF1 + 1, [zp] = 0xE5 + 1, [zpi] = 0xF2 + 1, [zpx] = 0xF5 + 1 },
    [_sec] = { [i] = 0x38 + 1 },
    [_sed] = { [i] = 0xF8 + 1 },
    [_sei] = { [i] = 0x78 + 1 },
    [_smb0] = { [zp] = 0x87 + 1 },
    [_smb1] = { [zp] = 0x97 + 1 },
    [_smb2] = { [zp] = 0xA7 + 1 },
    [_smb3] = { [zp] = 0xB7 + 1 },
    [_smb4] = { [zp] = 0xC7 + 1 },
    [_smb5] = { [zp] = 0xD7 + 1 },
    [_smb6] = { [zp] = 0xE7 + 1 },
    [_smb7] = { [zp] = 0xF7 + 1 },
    [_sta] = { [a] = 0x8D + 1, [ax] = 0x9D + 1, [ay] = 0x99 + 1, [izx] = 0x81 + 1, [izy] = 0x91 + 1, [zp] = 0x85 + 1, [zpi] = 0x92 + 1, [zpx] = 0x95 + 1 },
    [_stp] = { [i] = 0xDB + 1 },
    [_stx] = { [a] = 0x8E + 1, [zp] = 0x86 + 1, [zpy] = 0x96 + 1 },
    [_sty] = { [a] = 0x8C + 1, [zp] = 0x84 + 1, [zpx] = 0x94 + 1 },
    [_stz] = { [a] = 0x9C + 1, [ax] = 0x9E + 1, [zp] = 0x64 + 1, [zpx] = 0x74 + 1 },
    [_tax] = { [i] = 0xAA + 1 },
    [_tay] = { [i] = 0xA8 + 1 },
    [_trb] = { [a] = 0x1C + 1, [zp] = 0x14 + 1 },
    [_tsb] = { [a] = 0x0C + 1, [zp] = 0x04 + 1 },
    [_tsx] = { [i] = 0xBA + 1 },
    [_txa] = { [i] = 0x8A + 1 },
    [_txs] = { [i] = 0x9A + 1 },
    [_tya] = { [i] = 0x98 + 1 },
    [_wai] = { [i] = 0xCB + 1 },
};
static const char* const orc_name[_maxOpcode] = {
    [_adc] = "adc",
    [_ahx] = "ahx",
    [_alr] = "alr",
    [_anc] = "anc",
    [_anc2] = "anc2",
    [_and] = "and",
    [_arr] = "arr",
    [_asl] = "asl",
    [_axs] = "axs",
    [_bbr0] = "bbr0",
    [_bbr1] = "bbr1",
    [_bbr2] = "bbr2",
    [_bbr3] = "bbr3",
    [_bbr4] = "bbr4",
    [_bbr5] = "bbr5",
    [_bbr6] = "bbr6",
    [_bbr7] = "bbr7",
    [_bbs0] = "bbs0",
    [_bbs1] = "bbs1",
    [_bbs2] = "bbs2",
    [_bbs3] = "bbs3",
    [_bbs4] = "bbs4",
    [_bbs5] = "bbs5",
    [_bbs6] = "bbs6",
    [_bbs7] = "bbs7",
    [_bcc] = "bcc",
    [_bcs] = "bcs",
    [_beq] = "beq",
    [_bit] = "bit",
    [_bmi] = "bmi",
    [_bne] = "bne",
    [_bpl] = "bpl",
    [_bra] = "bra",
    [_brk] = "brk",
    [_bvc] = "bvc",
    [_bvs] = "bvs",
    [_clc] = "clc",
    [_cld] = "cld",
    [_cli] = "cli",
    [_clv] = "clv",
    [_cmp] = "cmp",
    [_cpx] = "cpx",
    [_cpy] = "cpy",
    [_dcp] = "dcp",
    [_dec] = "dec",
    [_dex] = "dex",
    [_dey] = "dey",
    [_eor] = "eor",
    [_inc] = "inc",
    [_inx] = "inx",
    [_iny] = "iny",
    [_isc] = "isc",
    [_jmp] = "jmp",
    [_jsr] = "jsr",
    [_las] = "las",
    [_lax] = "lax",
    [_lda] = "lda",
    [_ldx] = "ldx",
    [_ldy] = "ldy",
    [_lsr] = "lsr",
    [_nop] = "nop",
    [_ora] = "ora",
    [_pha] = "pha",
    [_php] = "php",
    [_phx] = "phx",
    [_phy] = "phy",
    [_pla] = "pla",
    [_plp] = "plp",
    [_plx] = "plx",
    [_ply] = "ply",
    [_rla] = "rla",
    [_rmb0] = "rmb0",
    [_rmb1] = "rmb1",
    [_rmb2] = "rmb2",
    [_rmb3] = "rmb3",
    [_rmb4] = "rmb4",
    [_rmb5] = "rmb5",
    [_rmb6] = "rmb6",
    [_rmb7] = "rmb7",
    [_rol] = "rol",
    [_ror] = "ror",
    [_rra] = "rra",
    [_rti] = "rti",
    [_rts] = "rts",
    [_sax] = "sax",
    [_sbc] = "sbc",
    [_sec] = "sec",
    [_sed] = "sed",
    [_sei] = "sei",
    [_shx] = "shx",
    [_shy] = "shy",
    [_slo] = "slo",
    [_smb0] = "smb0",
    [_smb1] = "smb1",
    [_smb2] = "smb2",
    [_smb3] = "smb3",
    [_smb4] = "smb4",
    [_smb5] = "smb5",
    [_smb6] = "smb6",
    [_smb7] = "smb7",
    [_sre] = "sre",
    [_sta] = "sta",
    [_stp] = "stp",
    [_stx] = "stx",
    [_sty] = "sty",
    [_stz] = "stz",
    [_tas] = "tas",
    [_tax] = "tax",
    [_tay] = "tay",
    [_trb] = "trb",
    [_tsb] = "tsb",
    [_tsx] = "tsx",
    [_txa] = "txa",
    [_txs] = "txs",
    [_tya] = "tya",
    [_usbc] = "usbc",
    [_wai] = "wai",
    [_xaa] = "xaa",
};
static bool orc_is_undoc(int op) { return op == _ahx || op == _alr || op == _anc || op == _anc2 || op == _arr || op == _axs || op == _dcp || op == _isc || op == _las || op == _lax || op == _rla || op == _rra || op == _sax || op == _shx || op == _shy || op == _slo || op == _sre || op == _tas || op == _usbc || op == _xaa; }
static bool orc_is_zpind(int op) { return op == _ora || op == _and || op == _eor || op == _adc || op == _sta || op == _lda || op == _cmp || op == _sbc; }
static int orc_bytes(int mode) { switch (mode) {
    case i: return 0;
    case A: return 0;
    case I: return 1;
    case r: return 1;
    case zp: return 1;
    case zpi: return 1;
    case zpx: return 1;
    case zpy: return 1;
    case izx: return 1;
    case izy: return 1;
    case a: return 2;
    case ax: return 2;
    case ay: return 2;
    case aix: return 2;
    case ind: return 2;
    default: return -1; } }
