/* S01: times of MIDI files */
//@ file unwind=6 fs=20 nlink= mode=plain timeout=150 solver=cadical
#include "kit.h"
#include "eas_data.h"
#include "eas_miditypes.h"
#include "eas_parser.h"
#include "eas_vm_protos.h"
#include "eas_midi.h"
#include "eas_host.h"
#include "eas_config.h"
/* the file: a periodic byte sequence of any content, ending after NB bytes; or a reader that fails in the middle */
static EAS_U8 B[16], LAST; static unsigned long P, NB, VAL; static EAS_RESULT R_err, R_res; static unsigned X_bad, N_seek, N_pos, N_rd, N_cb, X_shift;
static EAS_I32 A_pos, SEEKPOS, RD_n, R_got; static EAS_U8 A_gen; static void *RD_buf;
static S_EAS_DATA ED; static S_SMF_DATA SD, OD; static S_SMF_STREAM ST[4], OS[4]; static S_SYNTH SY0; static char HWI, FH0, FH1, FH2, FH3; static EAS_U32 R_val; static char MB[8], OMB[8]; static EAS_U8 A_bufsz;
static int cb_type, cb_ok;
EAS_RESULT EAS_HWGetByte(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, void *p)
{
    if (h != (void *) &HWI || f != (void *) &FH0) X_bad = 1;
    if (P >= NB) return R_err;
    LAST = B[P & 15]; *(EAS_U8 *) p = LAST; P++;
    if (X_shift) VAL = VAL << X_shift | (X_shift == 7 ? LAST & 0x7f : LAST);
    return EAS_SUCCESS;
}
EAS_RESULT EAS_HWFilePos(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, EAS_I32 *p) { if (h != (void *) &HWI || f != (void *) &FH0) X_bad = 1; N_pos++; *p = A_pos + (EAS_I32) P; return EAS_SUCCESS; }
EAS_RESULT EAS_HWFileSeek(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, EAS_I32 p) { if (h != (void *) &HWI || f != (void *) &FH0) X_bad = 1; N_seek++; SEEKPOS = p; return EAS_SUCCESS; }
EAS_RESULT EAS_HWReadFile(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, void *b, EAS_I32 n, EAS_I32 *got) { if (h != (void *) &HWI || f != (void *) &FH0) X_bad = 1; N_rd++; RD_n = n; RD_buf = b; *got = R_got; return R_got < n ? EAS_EOF : EAS_SUCCESS; }
void *EAS_HWMemSet(void *s, int c, EAS_I32 n) { return s; }
void *EAS_HWMemCpy(void *s, const void *c, EAS_I32 n) { return s; }
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE h, EAS_I32 n) { return NULL; }
void EAS_HWFree(EAS_HW_DATA_HANDLE h, void *p) { }
EAS_RESULT EAS_HWCloseFile(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f) { return EAS_SUCCESS; }
EAS_RESULT EAS_HWDupHandle(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, EAS_FILE_HANDLE *d) { return EAS_FAILURE; }
EAS_RESULT EAS_HWGetWord(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, void *p, EAS_BOOL m) { return EAS_FAILURE; }
EAS_RESULT EAS_HWGetDWord(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, void *p, EAS_BOOL m) { return EAS_FAILURE; }
EAS_VOID_PTR EAS_CMEnumData(EAS_INT m) { return NULL; }
EAS_RESULT EAS_SearchFile(S_EAS_DATA *e, EAS_FILE_HANDLE f, const EAS_U8 *s, EAS_I32 n, EAS_I32 *o) { return EAS_FAILURE; }
EAS_RESULT VMInitMIDI(S_EAS_DATA *e, S_SYNTH **s) { return EAS_FAILURE; }
void VMMIDIShutdown(S_EAS_DATA *e, S_SYNTH *s) { }
void VMReset(S_VOICE_MGR *m, S_SYNTH *s, EAS_BOOL f) { }
void VMReleaseAllVoices(S_VOICE_MGR *m, S_SYNTH *s) { }
void VMMuteAllVoices(S_VOICE_MGR *m, S_SYNTH *s) { }
EAS_I32 VMActiveVoices(S_SYNTH *s) { return 0; }
void EAS_InitMIDIStream(S_MIDI_STREAM *m) { }
EAS_RESULT EAS_ParseMIDIStream(S_EAS_DATA *e, S_SYNTH *s, S_MIDI_STREAM *m, EAS_U8 c, EAS_INT mode) { return EAS_SUCCESS; }
static EAS_U32 V_len; static EAS_RESULT V_res; static unsigned V_k;
SPEC_BEGIN
/* the number at B[at]: its value, whether it is there, and its size */
static void spec_varlen(unsigned at)
{
    V_len = 0; V_k = 0;
    do { V_res = at + V_k < NB ? EAS_SUCCESS : R_err; if (V_res != EAS_SUCCESS) return; V_len = V_len << 7 | (B[at + V_k] & 0x7f); } while (B[at + V_k++] & 0x80);
}
SPEC_END
static void md(E_EAS_METADATA_TYPE t, char *buf, EAS_VOID_PTR u) { N_cb++; cb_type = t; cb_ok = buf == MB && u == (void *) &SD && MB[RD_n < 0 ? 0 : RD_n & 7] == 0; }
#include "eas_smf.c"
static void world(void)
{
    INPUT(B); INPUT(NB); INPUT(R_err); INPUT(A_pos); P = VAL = LAST = 0; X_bad = N_seek = N_pos = N_rd = N_cb = X_shift = 0; SEEKPOS = -1;
    if (R_err == EAS_SUCCESS) R_err = EAS_EOF;
    ED.hwInstData = (void *) &HWI;
    INPUT(SD); INPUT(ST); SD.streams = ST; ST[0].fileHandle = (void *) &FH0; SD.pSynth = &SY0;
}
//@ unit s01_varlen prop=S01 harness=h_varlen enforce=SMF_GetVarLenData unwind=13 kind=bounded bound=numbers_of_at_most_12_bytes_(legal:4)
void h_varlen(void)
{
    world(); X_shift = 7; R_val = 12345;
#ifdef VK_NATIVE
    if (vk_random_mode()) { NB = vk_rand() % 8; for (unsigned k = 0; k < 16; k++) if (vk_rand() % 3) B[k] |= 0x80; B[9] &= 0x7f; }
#endif
    PRE(NB <= 12 || !(B[0] & 0x80) || !(B[1] & 0x80) || !(B[2] & 0x80) || !(B[3] & 0x80) || !(B[4] & 0x80) || !(B[5] & 0x80) || !(B[6] & 0x80) || !(B[7] & 0x80) || !(B[8] & 0x80) || !(B[9] & 0x80) || !(B[10] & 0x80));
    R_res = SMF_GetVarLenData((void *) &HWI, (void *) &FH0, &R_val);
    POST(!X_bad, "only this file is read");
    if (R_res == EAS_SUCCESS) POST(P > 0 && LAST < 0x80 && R_val == VAL, "the number is the base-128 value of the bytes up to the first without bit 7");
    else POST(R_res == R_err && P == NB && R_val == 12345 && (P == 0 || (LAST & 0x80)), "a read error is passed on");
    REACH();
}
//@ unit s01_delta prop=S01 harness=h_delta enforce=SMF_GetDeltaTime kind=bounded bound=numbers_of_at_most_5_bytes_(legal:4)
void h_delta(void)
{
    world(); PRE(!(B[0] & B[1] & B[2] & B[3] & B[4] & 0x80)); if (NB > 5) NB = 5 + NB % 2; spec_varlen(0); PRE(ST[0].ticks <= 0xffffffff); OS[0] = ST[0];
    R_res = SMF_GetDeltaTime((void *) &HWI, &ST[0]);
    POST(!X_bad, "only this file is read");
    if (V_res != EAS_SUCCESS) POST(R_res == V_res && ST[0].ticks == OS[0].ticks, "a read error is passed on");
    else if (V_len > 0xffffffff - OS[0].ticks) POST(R_res == EAS_ERROR_FILE_FORMAT && ST[0].ticks == OS[0].ticks, "a time beyond 32 bits is refused");
    else POST(R_res == EAS_SUCCESS && ST[0].ticks == OS[0].ticks + V_len, "the time is the exact sum");
    REACH();
}
static EAS_U32 A_ticks;
#ifndef TC
#define TC 0
#endif
//@ unit s01_update prop=S01 harness=h_update enforce=SMF_UpdateTime defs=-DGENERAL
//@ unit s01_update_k prop=S01 harness=h_update enforce=SMF_UpdateTime cases=TC:1:533 kind=bounded bound=tick_lengths_1_and_533
void h_update(void)
{
    world(); INPUT(A_ticks); PRE(A_ticks <= 0xffffffff && SD.time >= 0 && SD.time <= 0x3fffffffffffffff); 
    if (TC) SD.tickConv = TC;
    OD = SD;
    SMF_UpdateTime(&SD, A_ticks);
    if (SD.flags & SMF_FLAGS_CHASE_MODE) POST(SD.time == OD.time, "time stands still while skipping to the first note");
#ifdef GENERAL   /* the same number, taken apart at bit 10: (1024 h + l) t / 4 = 256 h t + l t / 4 */
    else POST(SD.time == OD.time + (EAS_I32) (((A_ticks >> 10) * OD.tickConv << 8) + ((A_ticks & 0x3ff) * OD.tickConv >> 2)), "ticks times tick length (1/1024 ms) in 1/256 ms");
#else
    else POST(SD.time == OD.time + (EAS_I32) ((A_ticks * (EAS_U32) OD.tickConv) >> 2), "ticks times tick length (1/1024 ms) in 1/256 ms");
#endif
    POST(SD.tickConv == OD.tickConv && SD.ppqn == OD.ppqn && SD.flags == OD.flags, "nothing else changes");
    REACH();
}
SPEC_BEGIN
static int tick_ok(unsigned long tempo, unsigned long q, unsigned long t)   /* t is tempo/q microseconds in 1/1024 ms, rounded, limited to 65535 */
{
    if (t == 65535) return tempo * 1024 >= q * (65535000ul - 500);
    return tempo * 1024 < q * (1000 * t + 500) && (t == 0 || tempo * 1024 >= q * (1000 * t - 500));
}
SPEC_END
#ifndef PPQN
#define PPQN 96
#endif
//@ unit s01_tempo prop=S01 harness=h_tempo enforce=SMF_ParseMetaEvent cases=PPQN:1:96:192:480:960:32767 kind=bounded bound=divisions_1_96_192_480_960_32767
void h_tempo(void)
{
    world(); NB = 5; B[0] = SMF_META_TEMPO; B[1] = 3; PRE(A_pos >= 0 && A_pos < 0x7fff0000); SD.ppqn = PPQN; OD = SD; OS[0] = ST[0];
    R_res = SMF_ParseMetaEvent(&ED, &SD, &ST[0]);
    POST(R_res == EAS_SUCCESS && !X_bad && P == 5 && N_seek == 1 && SEEKPOS == A_pos + 5, "a tempo event is read and the file is left behind it");
    POST(tick_ok((unsigned long) B[2] << 16 | B[3] << 8 | B[4], PPQN, SD.tickConv), "the tick length follows tempo and division");
    POST(SD.flags == (OD.flags | SMF_FLAGS_HAS_TEMPO) && SD.time == OD.time && SD.ppqn == OD.ppqn && ST[0].ticks == OS[0].ticks, "nothing else changes");
    REACH();
}
//@ unit s01_meta kind=bounded bound=tempo_events_of_at_most_4_bytes prop=S01 harness=h_meta enforce=SMF_ParseMetaEvent
void h_meta(void)
{
    EAS_U8 t; int text;
    world(); INPUT(MB); INPUT(A_bufsz); INPUT(R_got); INPUT(A_gen);
    NB %= 12; PRE(A_pos >= 0 && A_pos < 0x7ffffff0); PRE(!(B[1] & B[2] & B[3] & B[4] & B[5] & 0x80));
#ifdef VK_NATIVE
    if (vk_random_mode()) { static const EAS_U8 ty[] = {1,2,3,5,0x2f,0x51,0x58,4,0x20}; B[0] = ty[vk_rand() % 9]; if (vk_rand() & 1) B[1] &= 15; if (B[0] == 0x51) B[1] = 3; SD.tickConv = 100; R_got = 1; NB += 4; NB %= 12; A_pos &= 0xffff; R_got = vk_rand() % 8; if (R_got > (A_bufsz & 7)) R_got = 0; }
#endif
    t = B[0]; spec_varlen(1);
    SD.metadata.callback = A_gen & 1 ? md : NULL; SD.metadata.buffer = MB; SD.metadata.bufferSize = 1 + (A_bufsz & 7); SD.metadata.pUserData = &SD;
    PRE(R_got >= 0 && R_got <= SD.metadata.bufferSize - 1 && R_got <= V_len);
    PRE(t != SMF_META_TEMPO || V_len <= 4); SD.ppqn = 96;
    OD = SD; OS[0] = ST[0];
    R_res = SMF_ParseMetaEvent(&ED, &SD, &ST[0]);
    text = SD.metadata.callback && (t == SMF_META_TEXT || t == SMF_META_COPYRIGHT || t == SMF_META_SEQTRK_NAME || t == SMF_META_LYRIC);
    POST(!X_bad && SD.time == OD.time && SD.ppqn == OD.ppqn && SD.streams == OD.streams && SD.state == OD.state && SD.numStreams == OD.numStreams, "nothing else changes");
    if (NB == 0) POST(R_res == R_err, "a read error is passed on");
    else if (V_res != EAS_SUCCESS) POST(R_res == V_res, "a read error is passed on");
    else if (V_len > 0x7fffffff - (EAS_U32) (A_pos + 1 + V_k)) POST(R_res == EAS_ERROR_FILE_FORMAT && N_seek == 0, "a length beyond any file is refused");
    else if (R_res == EAS_SUCCESS) POST(N_seek == 1 && SEEKPOS == A_pos + 1 + V_k + (EAS_I32) V_len, "the declared length is skipped");
    if (R_res == EAS_SUCCESS) {
        POST((ST[0].ticks == SMF_END_OF_TRACK) == (t == SMF_META_END_OF_TRACK || OS[0].ticks == SMF_END_OF_TRACK) && (t == SMF_META_END_OF_TRACK || ST[0].ticks == OS[0].ticks), "only an end-of-track event ends the track");
        POST(SD.flags == (OD.flags | (t == SMF_META_TEMPO ? SMF_FLAGS_HAS_TEMPO : t == SMF_META_TIME_SIGNATURE ? SMF_FLAGS_HAS_TIME_SIG : 0)), "setup bar");
        POST(t == SMF_META_TEMPO || SD.tickConv == OD.tickConv, "only a tempo event changes the tempo");
        POST(N_cb == (text != 0) && N_rd == (text != 0), "text is reported once");
        if (text) POST(RD_buf == MB && RD_n == (V_len < SD.metadata.bufferSize - 1 ? (EAS_I32) V_len : SD.metadata.bufferSize - 1) && cb_ok && cb_type == (t == SMF_META_TEXT ? EAS_METADATA_TEXT : t == SMF_META_COPYRIGHT ? EAS_METADATA_COPYRIGHT : t == SMF_META_LYRIC ? EAS_METADATA_LYRIC : EAS_METADATA_TITLE), "cut to the caller's buffer and terminated");
    } else POST(N_cb == 0, "no report on failure");
    REACH();
}
//@ unit s01_default prop=S01 harness=h_default enforce=SMF_SetDefaultTempo
void h_default(void)
{
    world(); PRE(SD.ppqn >= 1 && SD.ppqn <= 0x7fff); OD = SD;
    SMF_SetDefaultTempo(&SD);
    POST(tick_ok(500000, SD.ppqn, SD.tickConv), "120 beats per minute");
    POST(SD.ppqn == OD.ppqn && SD.time == OD.time && SD.flags == OD.flags, "nothing else changes");
    REACH();
}
