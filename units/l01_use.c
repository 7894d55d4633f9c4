/* L01: the real look-up functions over the real built-in library */
//@ file prop=L01 mode=plain nlink= unwind=4 timeout=300 solver=cadical fs=20 inline=0
#include "vmworld.h"
#include "vmstubs.h"
#include "eas_voicemgt.c"
#include "wt_200k_G.c"
#define N(a) (sizeof(a) / sizeof((a)[0]))
static EAS_U8 A_ch, A_p; static EAS_U16 A_bank, R_reg; static S_EAS LIBX; static EAS_U8 B_id, B_rate, B_fmt;
#define STARTS(r) ((r) < N(eas_regions) && ((r) == 0 || (eas_regions[(r) - 1].region.keyGroupAndFlags & REGION_FLAG_LAST_REGION)))
//@ unit l01_find prop=L01 harness=h_find enforce=VMFindProgram
void h_find(void)
{
    EAS_RESULT r;
    INPUT(A_bank); INPUT(A_p); PRE(A_p < 128);
    R_reg = 0xffff;
    r = VMFindProgram(&easSoundLib, A_bank, A_p, &R_reg);
    if (A_bank == DEFAULT_MELODY_BANK_NUMBER) POST(r == EAS_SUCCESS, "every program of the default melody bank exists");
    if (A_bank == DEFAULT_RHYTHM_BANK_NUMBER && A_p == 0) POST(r == EAS_SUCCESS, "the default rhythm program exists");
    if (r == EAS_SUCCESS) POST(STARTS(R_reg), "a program leads to the start of a region list of the library");
    else POST(R_reg == 0xffff, "a program that does not exist selects nothing");
    REACH();
}
//@ unit l01_change prop=L01,V07 harness=h_change enforce=VMProgramChange covers=VMFindProgram,VMFindDLSProgram
void h_change(void)
{
    INPUT(S0); INPUT(A_ch); INPUT(A_p); A_ch &= 15; A_p &= 127;
    S0.vSynthNum = 0; S0.pEAS = (S_EAS *) &easSoundLib; S0.pDLS = NULL;
    VMProgramChange(&VM, &S0, A_ch, A_p);
    POST(STARTS(S0.channels[A_ch].regionIndex), "whatever bank and program is selected, the channel plays an instrument of the library");
    POST(S0.channels[A_ch].programNum == A_p, "the program number is stored");
    REACH();
}
//@ unit l01_valid prop=L01 harness=h_valid enforce=VMSetGlobalEASLib covers=VMValidateEASLib,VMSetEASLib
void h_valid(void)
{
    EAS_RESULT r, q; int ok; EAS_SNDLIB_HANDLE o1, o2;
    INPUT(LIBX); INPUT(B_id); INPUT(B_rate); INPUT(B_fmt);
    if (!B_id) *(EAS_U32 *) &LIBX.identifier = _EAS_LIBRARY_VERSION;
    if (!B_rate) *(EAS_U32 *) &LIBX.libAttr = (LIBX.libAttr & ~(EAS_U32) LIBFORMAT_SAMPLE_RATE_MASK) | 44100;
    if (!B_fmt) *(EAS_U32 *) &LIBX.libAttr |= LIB_FORMAT_16_BIT_SAMPLES;
    ok = LIBX.identifier == _EAS_LIBRARY_VERSION && (LIBX.libAttr & LIBFORMAT_SAMPLE_RATE_MASK) == 44100 && (LIBX.libAttr & LIB_FORMAT_16_BIT_SAMPLES);
    o1 = VM.pGlobalEAS = (EAS_SNDLIB_HANDLE) &easSoundLib; o2 = S0.pEAS = (EAS_SNDLIB_HANDLE) &easSoundLib;
    r = VMSetGlobalEASLib(&VM, &LIBX); q = VMSetEASLib(&S0, &LIBX);
    POST((r == EAS_SUCCESS) == ok && (q == EAS_SUCCESS) == ok, "a library of another version, sample rate or sample format is refused");
    POST(VM.pGlobalEAS == (ok ? &LIBX : o1) && S0.pEAS == (ok ? &LIBX : o2), "and then the library in use stays");
    REACH();
}
