/* V07: which instrument a program change selects */
//@ file unwind=66 fs=70 nlink= mode=plain timeout=300 solver=cadical
//@ assume program tables of the library and of the collection hold at most 64 single programs in the quick tier, 256 in the thorough tier (bounded units)
#include "vmworld.h"
#include "vmstubs.h"
#include "eas_voicemgt.c"

#ifndef DLSK
#define DLSK 0
#endif
#ifndef NP
#define NP 64
#endif
static S_PROGRAM TAB[NP]; static EAS_U16 NUM; static S_BANK BANKS[4]; static EAS_U16 NBK;
static EAS_U32 LOC; static EAS_U8 A_prog, A_ch; static EAS_U32 A_bank; static EAS_U16 R_reg, O_reg; static int NONE;
#ifdef VK_NATIVE
static void rnd_tab(void)
{
    unsigned i;
    static const EAS_U16 b[] = {0x7900, 0x7800, 0, 0x7901, 0x0001, 0x7902, 0x7805, 5};
    if (!vk_random_mode()) return;
    NUM = vk_rand() % (NP + 1); NBK = vk_rand() % 5; A_prog = vk_rand() % 3; A_bank = b[vk_rand() & 7] | (DLSK && vk_rand() & 1 ? 0x10000 : 0);
    for (i = 0; i < NP; i++) TAB[i].locale = (EAS_U32) (b[vk_rand() & 7] | (DLSK && vk_rand() & 1 ? 0x10000 : 0)) << 8 | vk_rand() % 3;
    for (i = 0; i < 4; i++) { BANKS[i].locale = b[vk_rand() & 7]; if (vk_rand() & 1) BANKS[i].regionIndex[A_prog] = INVALID_REGION_INDEX; }
}
#else
#define rnd_tab() do { } while (0)
#endif
SPEC_BEGIN
static int bank_hit(unsigned *reg)
{
    unsigned i;
    for (i = 0; i < 4; i++) if (i < NBK && BANKS[i].locale == A_bank) { *reg = BANKS[i].regionIndex[A_prog]; return *reg != INVALID_REGION_INDEX; }
    return 0;
}
/* region of the first program with that locale */
static int first_hit(EAS_U32 loc, EAS_U16 *reg)
{
    int i, hit = 0;
    for (i = NP - 1; i >= 0; i--) if (i < NUM && TAB[i].locale == loc) { hit = 1; *reg = TAB[i].regionIndex; }
    return hit;
}
SPEC_END
#ifndef DLSK
#define DLSK 0
#endif
//@ unit v07_find prop=V07 harness=h_find enforce=VMFindProgram kind=bounded bound=64_single_programs,4_banks
//@ unit v07_find_big prop=V07 harness=h_find enforce=VMFindProgram kind=bounded bound=256_single_programs,4_banks defs=-DNP=256 unwind=258 fs=300 tier=thorough timeout=900
void h_find(void)
{
    unsigned breg = 0; EAS_RESULT r; EAS_U16 preg = 0; int hit;
    INPUT(TAB); INPUT(NUM); INPUT(BANKS); INPUT(NBK); INPUT(A_prog); INPUT(A_bank); INPUT(R_reg); INPUT(NONE); rnd_tab();
    O_reg = R_reg;
    PRE(NUM <= NP && NBK <= 4 && A_prog < 128 && A_bank <= 0xffff);
    hit = first_hit((A_bank << 8) | A_prog, &preg);
    const S_EAS lib = { .pPrograms = TAB, .numPrograms = NUM, .pBanks = BANKS, .numBanks = NBK };
    r = VMFindProgram(NONE ? NULL : &lib, A_bank, A_prog, &R_reg);
    if (!NONE && bank_hit(&breg)) POST(r == EAS_SUCCESS && R_reg == breg, "the bank table decides");
    else if (!NONE && hit) POST(r == EAS_SUCCESS && R_reg == preg, "the first matching program decides");
    else POST(r != EAS_SUCCESS && R_reg == O_reg, "nothing found, nothing changed");
    REACH();
}
//@ unit v07_dls prop=V07 harness=h_dls enforce=VMFindDLSProgram kind=bounded bound=20_programs_in_the_collection defs=-DDLSK=1,-DNP=20 unwind=22 timeout=400
//@ unit v07_dls_big prop=V07 harness=h_dls enforce=VMFindDLSProgram kind=bounded bound=64_programs_in_the_collection defs=-DDLSK=1 tier=thorough timeout=1500
void h_dls(void)
{
    EAS_RESULT r; EAS_U16 w = 0; int hit; S_DLS d; EAS_U32 drum;
    INPUT(TAB); INPUT(NUM); INPUT(A_prog); INPUT(A_bank); INPUT(R_reg); INPUT(NONE); rnd_tab();
    O_reg = R_reg;
    PRE(NUM <= NP && A_prog < 128 && A_bank <= 0x1ffff);
    drum = A_bank & 0x10000;
    /* the documented order */
    hit = first_hit(A_bank << 8 | A_prog, &w);
    if (!hit && ((A_bank & 0xff00) == 0x7900 || (A_bank & 0xff00) == 0x7800)) hit = first_hit((A_bank & 0x100ff) << 8 | A_prog, &w);
    if (!hit) hit = first_hit((drum | (drum ? 0x7800 : 0x7900)) << 8 | A_prog, &w);
    if (!hit && A_bank != 0x7900 && A_bank != 0x17800) hit = first_hit(drum << 8 | A_prog, &w);
    if (!hit && drum && A_prog) { hit = first_hit((EAS_U32) 0x17800 << 8, &w); if (!hit) hit = first_hit((EAS_U32) 0x10000 << 8, &w); }
    d.pDLSPrograms = TAB; d.numDLSPrograms = NUM;
    r = VMFindDLSProgram(NONE ? NULL : &d, A_bank, A_prog, &R_reg);
    if (!NONE && hit) POST(r == EAS_SUCCESS && R_reg == w, "the first program in the documented order decides");
    else POST(r != EAS_SUCCESS && R_reg == O_reg, "nothing found, nothing changed");
    REACH();
}
/* --- program change on top of the two searches (any outcome of either) --- */
static EAS_U8 D_ok, F_ok[3]; static EAS_U16 D_reg, F_reg[3]; static EAS_U32 Q_bank, Q_def; static EAS_U8 CC_bad; static EAS_U32 Q_dls;
EAS_RESULT c_dls(const S_DLS *d, EAS_U32 bank, EAS_U8 prog, EAS_U16 *reg)
{
    if (bank != Q_dls || prog != A_prog || d != S0.pDLS) CC_bad = 1;
    if (!D_ok) return EAS_FAILURE;
    *reg = D_reg; return EAS_SUCCESS;
}
EAS_RESULT c_find(const S_EAS *e, EAS_U32 bank, EAS_U8 prog, EAS_U16 *reg)
{
    unsigned k;
    if (e != S0.pEAS) CC_bad = 1;
    if (bank == Q_bank && prog == A_prog) k = 0;
    else if (bank == Q_def && prog == A_prog) k = 1;
    else if (bank == Q_def && prog == 0) k = 2;
    else { CC_bad = 1; return EAS_FAILURE; }
    if (!F_ok[k]) return EAS_FAILURE;
    *reg = F_reg[k]; return EAS_SUCCESS;
}
//@ unit v07_change prop=V07 cases=CHN:0:1:2:3:4:5:6:7:8:9:10:11:12:13:14:15 harness=h_change enforce=VMProgramChange replace=VMFindDLSProgram:c_dls,VMFindProgram:c_find solver=cadical unwind=17
static S_DLS DD; 
void h_change(void)
{
    S_SYNTH_CHANNEL *e; EAS_U16 want; EAS_U8 rhythm; unsigned c;
    INPUT(S0); INPUT(VM); INPUT(A_ch); INPUT(A_prog); INPUT(D_ok); INPUT(D_reg); INPUT(F_ok); INPUT(F_reg);
    INPUT(TAB); INPUT(NUM); INPUT(BANKS); INPUT(NBK); INPUT(NONE); rnd_tab();
#ifdef CHN
    A_ch = CHN;       /* exhaustive split over the 16 channels */
#endif
    A_ch &= 15; A_prog &= 127; CC_bad = 0; if (NUM > NP) NUM = NP; NBK &= 3;
    const S_EAS lib = { .pPrograms = TAB, .numPrograms = NUM, .pBanks = BANKS, .numBanks = NBK };
    DD.pDLSPrograms = TAB; DD.numDLSPrograms = NUM;
    S0.pEAS = (S_EAS *) &lib; S0.pDLS = NONE ? NULL : &DD;
    for (c = 0; c < 16; c++) PRE(S0.channels[c].pool < 16);
    e = &O0.channels[A_ch];
#ifdef VK_NATIVE
    if (vk_random_mode()) { static const EAS_U16 b[] = {0x7900, 0x7800, 0, 0x7901, 0x0001, 0x7902, 0x7805, 5}; S0.channels[A_ch].bankNum = b[vk_rand() & 7]; }
#endif
    O0 = S0;
    Q_bank = e->bankNum;
    if ((Q_bank & 0xff00) == 0x7800) e->channelFlags |= CHANNEL_FLAG_RHYTHM_CHANNEL;
    else if ((Q_bank & 0xff00) == 0x7900) e->channelFlags &= ~CHANNEL_FLAG_RHYTHM_CHANNEL;
    rhythm = (e->channelFlags & CHANNEL_FLAG_RHYTHM_CHANNEL) != 0;
    Q_def = rhythm ? 0x7800 : 0x7900; Q_dls = Q_bank | (rhythm ? 0x10000 : 0);
    if (Q_bank == Q_def) { F_ok[1] = F_ok[0]; F_reg[1] = F_reg[0]; }
    if (A_prog == 0) { F_ok[2] = F_ok[1]; F_reg[2] = F_reg[1]; }
#if defined(VK_NATIVE) || defined(VK_INLINED)
    { unsigned k; EAS_U16 r = 0;
      D_ok = VMFindDLSProgram(S0.pDLS, Q_dls, A_prog, &r) == EAS_SUCCESS; D_reg = r;
      for (k = 0; k < 3; k++) { F_ok[k] = VMFindProgram(S0.pEAS, k ? Q_def : Q_bank, k < 2 ? A_prog : 0, &r) == EAS_SUCCESS; F_reg[k] = r; } }
#endif
    VMProgramChange(&VM, &S0, A_ch, A_prog);
    want = D_ok ? D_reg : F_ok[0] ? F_reg[0] : F_ok[1] ? F_reg[1] : F_ok[2] ? F_reg[2] : DEFAULT_REGION_INDEX;
    e->regionIndex = want; e->programNum = A_prog;
    POST((S0.channels[A_ch].channelFlags & CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS) != 0, "the voices of the channel are updated");
    e->channelFlags |= CHANNEL_FLAG_UPDATE_CHANNEL_PARAMETERS;
    POST(syn_eq(&S0, &O0), "the channel plays the first instrument found in the documented order; nothing else changes");
    POST(!CC_bad, "only the documented alternatives are searched");
    REACH();
}
