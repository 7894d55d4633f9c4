/* S02 / S03: tracks and the song player */
//@ file unwind=8 fs=20 nlink= mode=plain timeout=150 solver=cadical
#include "kit.h"
#include "eas_data.h"
#include "eas_miditypes.h"
#include "eas_parser.h"
#include "eas_vm_protos.h"
#include "eas_midi.h"
#include "eas_host.h"
#include "eas_config.h"
#ifndef NS
#define NS 4            /* size of the track table */
#endif
static S_EAS_DATA ED; static S_SMF_DATA SD, OD, ND; static S_SMF_STREAM ST[NS], OS[NS]; static S_SYNTH SY0; static S_VOICE_MGR VM; static char HWI;
/* file handles: what is open, and where it stands; each handle sees the same file */
static char FHD[NS + 1]; static EAS_U8 OPEN[NS + 1]; static EAS_I32 POS[NS + 1]; static unsigned N_open;
static unsigned X_bad, N_dup, N_close, N_free, N_freeS, N_shut, N_reset, N_relall, N_mute, N_alloc, N_init, SEQ, T_free, T_shut; static EAS_RESULT R_res, R_err; static EAS_U8 M_ok, D_ok, V_ok, C_ok, A_static;
/* file contents */
static EAS_I32 OFS, FLEN, C[6]; static EAS_U32 CT[6], CS[6]; static EAS_U16 NTRK, DIV; static EAS_U8 DB[6][2]; 
static EAS_U8 B[8], NB, P; static int B_mode, RD_mode;
static EAS_U8 FED[8], N_fed, A_need; static S_MIDI_STREAM *FED_ms; static EAS_INT FED_mode; static EAS_RESULT R_pm; static EAS_I32 A_act; static S_SMF_STREAM *R_st;
static EAS_U8 N_io, A_fail;
static int hd(EAS_FILE_HANDLE f) { unsigned k; for (k = 0; k <= NS; k++) if ((char *) f == &FHD[k] && OPEN[k]) return k; X_bad = 1; return 0; }
static void hw(EAS_HW_DATA_HANDLE h) { if (h != (void *) &HWI) X_bad = 1; }
EAS_RESULT EAS_HWFileSeek(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, EAS_I32 p) { int k = hd(f); hw(h); if (++N_io == A_fail) return R_err; if (p < 0 || p > FLEN) return EAS_ERROR_FILE_SEEK; POS[k] = p; return EAS_SUCCESS; }
EAS_RESULT EAS_HWFilePos(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, EAS_I32 *p) { int k = hd(f); hw(h); *p = POS[k]; return EAS_SUCCESS; }
static EAS_RESULT adv(int k, int n) { if (++N_io == A_fail) return R_err; if (POS[k] > FLEN - n) { POS[k] = FLEN; return EAS_EOF; } POS[k] += n; return EAS_SUCCESS; }
EAS_RESULT EAS_HWGetWord(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, void *p, EAS_BOOL m)
{
    int k = hd(f); EAS_I32 at = POS[k]; EAS_RESULT r = adv(k, 2); hw(h);
    if (!m) X_bad = 1;
    if (r == EAS_SUCCESS) { if (at == OFS + 10) *(EAS_U16 *) p = NTRK; else if (at == OFS + 12) *(EAS_U16 *) p = DIV; else X_bad = 1; }
    return r;
}
EAS_RESULT EAS_HWGetDWord(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, void *p, EAS_BOOL m)
{
    int k = hd(f), j, hit = 0; EAS_I32 at = POS[k]; EAS_RESULT r = adv(k, 4); hw(h);
    if (!m) X_bad = 1;
    if (r == EAS_SUCCESS) for (j = 0; j < 6 && !hit; j++) { if (at == C[j]) { *(EAS_U32 *) p = CT[j]; hit = 1; } else if (at == C[j] + 4) { *(EAS_U32 *) p = CS[j]; hit = 1; } }
    if (r == EAS_SUCCESS && !hit) X_bad = 1;
    return r;
}
EAS_RESULT EAS_HWGetByte(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, void *p)
{
    int k = hd(f), j; EAS_I32 at = POS[k]; EAS_RESULT r; hw(h);
    if (B_mode) { if (R_st->fileHandle != f) X_bad = 1; if (P >= NB || P >= 8) return EAS_EOF; *(EAS_U8 *) p = B[P++]; return EAS_SUCCESS; }
    r = adv(k, 1);
    if (r == EAS_SUCCESS) { EAS_U8 hit = 0; for (j = 0; j < 6 && !hit; j++) { if (at == C[j] + 8) { *(EAS_U8 *) p = DB[j][0]; hit = 1; } else if (at == C[j] + 9) { *(EAS_U8 *) p = DB[j][1]; hit = 1; } } if (!hit) X_bad = 1; }
    return r;
}
EAS_RESULT EAS_HWReadFile(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, void *b, EAS_I32 n, EAS_I32 *got)
{
    hw(h); hd(f); if (!RD_mode || n != 4 || POS[hd(f)] != OFS) { X_bad = 1; return EAS_FAILURE; }
    if (R_err != EAS_SUCCESS) return R_err;
    ((EAS_U8 *) b)[0] = B[0]; ((EAS_U8 *) b)[1] = B[1]; ((EAS_U8 *) b)[2] = B[2]; ((EAS_U8 *) b)[3] = B[3]; *got = 4; return EAS_SUCCESS;
}
EAS_RESULT EAS_HWDupHandle(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f, EAS_FILE_HANDLE *d)
{
    int k = hd(f); unsigned j; hw(h); N_dup++;
    if (D_ok >> (N_dup & 7) & 1) for (j = 0; j <= NS; j++) if (!OPEN[j]) { OPEN[j] = 1; POS[j] = POS[k]; *d = (EAS_FILE_HANDLE) &FHD[j]; N_open++; return EAS_SUCCESS; }
    return EAS_ERROR_MAX_FILES_OPEN;
}
EAS_RESULT EAS_HWCloseFile(EAS_HW_DATA_HANDLE h, EAS_FILE_HANDLE f) { int k = hd(f); hw(h); N_close++; OPEN[k] = 0; N_open--; return EAS_SUCCESS; }
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE h, EAS_I32 n)
{
    hw(h); N_alloc++; if (!M_ok) return NULL;
    if (RD_mode) { if (n != sizeof(S_SMF_DATA)) X_bad = 1; return &ND; }
    if (n != (EAS_I32) (NTRK * sizeof(S_SMF_STREAM))) X_bad = 1; return ST;
}
static const S_SMF_STREAM Z_st; static const S_SMF_DATA Z_sd;
void *EAS_HWMemSet(void *s, int c, EAS_I32 n) { unsigned k; if (c) X_bad = 1; if (s == (void *) ST && n == (EAS_I32) (NTRK * sizeof(S_SMF_STREAM))) for (k = 0; k < NS && k < NTRK; k++) ST[k] = Z_st; else if (s == (void *) &ND && n == sizeof(ND)) ND = Z_sd; else X_bad = 1; return s; }
void *EAS_HWMemCpy(void *s, const void *c, EAS_I32 n) { X_bad = 1; return s; }
void EAS_HWFree(EAS_HW_DATA_HANDLE h, void *p) { hw(h); if (p == (void *) ST && !N_free) N_freeS++; else if (p == (void *) &SD && !N_free) N_free++; else X_bad = 1; T_free = ++SEQ; }
EAS_VOID_PTR EAS_CMEnumData(EAS_INT m) { if (m != EAS_CM_SMF_DATA) X_bad = 1; return M_ok ? &ND : NULL; }
EAS_RESULT EAS_SearchFile(S_EAS_DATA *e, EAS_FILE_HANDLE f, const EAS_U8 *s, EAS_I32 n, EAS_I32 *o) { X_bad = 1; return EAS_FAILURE; }
EAS_RESULT VMInitMIDI(S_EAS_DATA *e, S_SYNTH **s) { if (e != &ED || s != &SD.pSynth || N_init) X_bad = 1; N_init++; if (!V_ok) { *s = NULL; return EAS_ERROR_NO_VIRTUAL_SYNTHESIZER; } *s = &SY0; return EAS_SUCCESS; }
void VMMIDIShutdown(S_EAS_DATA *e, S_SYNTH *s) { if (e != &ED || s != &SY0) X_bad = 1; N_shut++; T_shut = ++SEQ; }
void VMReset(S_VOICE_MGR *m, S_SYNTH *s, EAS_BOOL f) { if (m != &VM || s != &SY0 || !f) X_bad = 1; N_reset++; }
void VMReleaseAllVoices(S_VOICE_MGR *m, S_SYNTH *s) { if (m != &VM || s != &SY0) X_bad = 1; N_relall++; }
void VMMuteAllVoices(S_VOICE_MGR *m, S_SYNTH *s) { if (m != &VM || s != &SY0) X_bad = 1; N_mute++; }
EAS_I32 VMActiveVoices(S_SYNTH *s) { if (s != &SY0) X_bad = 1; return A_act; }
void EAS_InitMIDIStream(S_MIDI_STREAM *m) { m->byte3 = m->pending = 0; m->runningStatus = 0; m->status = 0; m->sysExState = 0xee; }
EAS_RESULT EAS_ParseMIDIStream(S_EAS_DATA *e, S_SYNTH *s, S_MIDI_STREAM *m, EAS_U8 c, EAS_INT mode)
{
    if (e != &ED || s != &SY0 || m != &R_st->midiStream || mode != FED_mode || N_fed >= 8) { X_bad = 1; return EAS_FAILURE; }
    FED[N_fed++] = c; if (A_need) A_need--; m->pending = A_need != 0;
    return N_fed == 1 ? R_pm : EAS_SUCCESS;
}
#include "eas_smf.c"
#include "s_spec.h"
#ifndef NT
#define NT 2
#endif
static void zero(void) { unsigned k; N_io = A_fail = 0; X_bad = N_dup = N_close = N_free = N_freeS = N_shut = N_reset = N_relall = N_mute = N_alloc = N_init = SEQ = T_free = T_shut = N_open = 0; N_fed = P = 0; B_mode = RD_mode = 0; for (k = 0; k <= NS; k++) OPEN[k] = 0; ED.hwInstData = (void *) &HWI; ED.pVoiceMgr = &VM; R_st = ST; }
SPEC_BEGIN
static int same_other(unsigned cur) { unsigned k; for (k = 0; k < NS; k++) if (k != cur && (ST[k].ticks != OS[k].ticks || ST[k].fileHandle != OS[k].fileHandle || ST[k].startFilePos != OS[k].startFilePos || ST[k].midiStream.status != OS[k].midiStream.status)) return 0; return 1; }
static int first_min(unsigned n) { unsigned k, best = NS; for (k = 0; k < n; k++) if (ST[k].ticks < SMF_END_OF_TRACK && (best == NS || ST[k].ticks < ST[best].ticks)) best = k; return best; }
SPEC_END
/* ---- one event ---- */
#ifndef CK
#define CK 0
#endif
static EAS_U8 A_kind, A_cur, A_len, X_err; static EAS_U32 A_d, OT;
/* every kind of event (CK % 10) of every track (CK / 10) */
//@ unit s02_event prop=S02 harness=h_event enforce=SMF_Event cases=CK:0:1:2:3:4:5:10:11:12:13:14:15:20:21:22:23:24:25 kind=bounded bound=songs_of_at_most_3_tracks,_tick_length_1_ms defs=-DNS=3
void h_event(void)
{
    unsigned k, n, best, x = 0; EAS_U8 exp[8]; EAS_RESULT want = EAS_SUCCESS; int eot = 0;
    zero(); INPUT(SD); INPUT(ST); INPUT(A_kind); INPUT(A_cur); INPUT(A_d); INPUT(A_need); INPUT(R_pm); INPUT(B); INPUT(A_len); INPUT(FED_mode);
    A_d &= 0x3fff; SD.metadata.callback = NULL; SD.pSynth = &SY0; SD.streams = ST;
    SD.numStreams = 1 + (SD.numStreams & 127) % NS; A_kind = CK % 10; A_cur = CK / 10; SD.tickConv = 1024;      /* the general conversion: s01_update */
    if (A_cur >= SD.numStreams) SD.numStreams = A_cur + 1;
#ifdef VK_NATIVE
    if (vk_random_mode()) { SD.state = vk_rand() & 1; SD.time &= 0xffffffff; if (vk_rand() & 1) SD.flags = 0; R_pm = 0; for (k = 0; k < NS; k++) { ST[k].ticks = vk_rand() % 3 ? 1000 + vk_rand() % 8 : SMF_END_OF_TRACK; } ST[A_cur].ticks = 999 + vk_rand() % 2; for (k = 0; k < A_cur; k++) if (ST[k].ticks < 1003) ST[k].ticks += 5; A_d %= 6; B[0] |= 0x80; B[0] &= 0xef; if (vk_rand() & 1) SD.time = 0; }
#endif
    R_st = &ST[A_cur]; n = SD.numStreams; SD.nextStream = R_st;
    PRE(SD.state <= EAS_STATE_PLAY && SD.time >= 0 && SD.time <= 0xffffffffffff);
    for (k = 0; k < NS; k++) { PRE(ST[k].ticks <= SMF_END_OF_TRACK); ST[k].fileHandle = (EAS_FILE_HANDLE) &FHD[k]; OPEN[k] = 1; ST[k].midiStream.pending = 0; }
    PRE((unsigned) first_min(n) == A_cur);       /* established by SMF_ParseHeader and SMF_Reset, kept by this function */
    /* the bytes of the event and of the next delta time */
    B_mode = 1; FLEN = 1000; POS[A_cur] = 500; NB = 0;
    switch (A_kind) {
    case 0: case 1: /* a channel message of 1..4 bytes */
        PRE(B[0] != 0xff && B[0] != 0xf0 && B[0] != 0xf7 && A_need >= 1 && A_need <= 4); NB = A_need; for (k = 0; k < A_need; k++) exp[x++] = B[k]; break;
    case 2: B[0] = 0xff; B[1] = 0x2f; B[2] = 0; NB = 3; A_need = 0; eot = 1; break;
    case 3: case 4: B[0] = A_kind == 3 ? 0xf0 : 0xf7; A_len &= 3; B[1] = A_len; NB = 2 + A_len; A_need = 0; if (A_kind == 3) exp[x++] = 0xf0; for (k = 0; k < A_len; k++) exp[x++] = B[2 + k]; break;
    case 5: NB = 0; A_need = 0; break;           /* the file runs out */
    }
    if (x && R_pm != EAS_SUCCESS) want = R_pm; else R_pm = EAS_SUCCESS;
    if (A_kind < 5 && !eot) { B[NB++] = 0x80 | A_d >> 7; B[NB++] = A_d & 0x7f; }
    if (A_kind == 1 && A_d & 1) { NB -= 2; eot = 1; }     /* the file runs out behind the message */
    if (A_kind == 5) eot = 1;
    OD = SD; OT = ST[A_cur].ticks; for (k = 0; k < NS; k++) OS[k] = ST[k];
    R_res = SMF_Event(&ED, &SD, FED_mode);
    POST(!X_bad, "only this track, this synthesizer and this file are touched");
    POST(same_other(A_cur), "the other tracks are untouched");
    POST(SD.numStreams == n && SD.streams == ST && SD.ppqn == OD.ppqn && SD.tickConv == OD.tickConv, "song data");
    if (want != EAS_SUCCESS && want != EAS_EOF) { POST(R_res == want && SD.state == EAS_STATE_ERROR, "an error ends the song"); }
    else {
        if (want == EAS_EOF) eot = 1;
        if (want == EAS_SUCCESS) { POST(N_fed == x, "every byte of the event is handed over once"); for (k = 0; k < x && k < 8; k++) POST(FED[k] == exp[k], "in file order"); }
        if (!eot && A_d > 0xffffffff - OT) POST(R_res == EAS_ERROR_FILE_FORMAT && SD.state == EAS_STATE_ERROR && ST[A_cur].ticks == OT, "a time beyond 32 bits is refused");
        else {
            POST(R_res == EAS_SUCCESS, "handled");
            POST(ST[A_cur].ticks == (eot ? SMF_END_OF_TRACK : OT + A_d), "the track moves on by its delta time, or ends");
            best = first_min(n);
            if (best == NS) POST(SD.nextStream == NULL && SD.state == EAS_STATE_STOPPING && N_relall == 1, "the song ends when every track has ended");
            else {
                POST(SD.nextStream == &ST[best], "the earliest event comes next, the first track on ties");
                POST(SD.state == EAS_STATE_PLAY && N_relall == 0, "the song goes on");
            }
            if (best < NS) POST(SD.time == OD.time + (SD.flags & SMF_FLAGS_CHASE_MODE ? 0 : upd(ST[best].ticks - OT, SD.tickConv)), "its time is the exact sum");
        }
    }
    REACH();
}
/* ---- the header ---- */
static S_SMF_STREAM *R_streams; static EAS_U8 A_nul;
//@ unit s02_header prop=S02 harness=h_header enforce=SMF_ParseHeader cases=NT:0:1:2:3 defs=-DNS=3 kind=bounded bound=files_of_at_most_3_tracks_and_5_chunks_of_fixed_sizes timeout=300
void h_header(void)
{
    unsigned k, j, nt; EAS_U32 t[3]; unsigned ct[3];
    static const EAS_U32 sizes[6] = { 9, 20, 6, 33, 8, 7 };
    zero(); INPUT(SD); INPUT(ST); INPUT(CT); INPUT(DIV); INPUT(DB); INPUT(M_ok); INPUT(D_ok); INPUT(A_fail); INPUT(R_err);
    NTRK = NT; OFS = 3; FLEN = 0x7fffffff; if (R_err == EAS_SUCCESS) R_err = EAS_EOF;
#ifdef VK_NATIVE
    if (vk_random_mode()) { for (k = 0; k < 6; k++) { if (vk_rand() % 4) CT[k] = SMF_CHUNK_TYPE_TRACK; if (vk_rand() & 1) DB[k][0] &= 1; } M_ok = vk_rand() % 8; D_ok = vk_rand() % 4 ? 255 : vk_rand(); A_fail = vk_rand() & 1 ? 0 : 1 + vk_rand() % 30; }
#endif
    C[0] = OFS; nt = 0;
    for (k = 0; k < 6; k++) { CS[k] = sizes[k]; CT[k] &= 0xffffffff; if (k) C[k] = C[k - 1] + 8 + (EAS_I32) CS[k - 1]; DB[k][1] &= 0x7f; }
    for (k = 1; k < 6 && nt < NT; k++) if (CT[k] == SMF_CHUNK_TYPE_TRACK) { t[nt] = DB[k][0] & 0x80 ? (EAS_U32) (DB[k][0] & 0x7f) << 7 | DB[k][1] : DB[k][0]; ct[nt++] = k; }
    PRE(nt == NT);
    SD.fileHandle = (EAS_FILE_HANDLE) &FHD[0]; OPEN[0] = 1; N_open = 1; SD.fileOffset = OFS; SD.streams = NULL; SD.flags = 0; SD.time = 0; POS[0] = 0; OD = SD;
    R_res = SMF_ParseHeader((void *) &HWI, &SD);
    POST(!X_bad, "only the header fields and chunk headers are read, each at its place");
    POST(SD.pSynth == OD.pSynth && SD.state == OD.state, "song data");
    if (R_res == EAS_SUCCESS) {
        POST(NT > 0 && SD.numStreams == NT && nt == NT && SD.streams == ST && SD.fileHandle == NULL && N_open == NT, "every track of the header is there, with a file handle of its own");
        POST(SD.ppqn == (DIV == 0 || DIV & 0x8000 ? 192 : DIV), "the division of the header");
        for (k = 0; k < NT; k++) {
            POST(ST[k].startFilePos == C[ct[k]] + 8 && ST[k].ticks == t[k], "a track starts at its chunk with its first delta time");
            POST(OPEN[hd(ST[k].fileHandle)] && POS[hd(ST[k].fileHandle)] == C[ct[k]] + 8 + (DB[ct[k]][0] & 0x80 ? 2 : 1) && ST[k].midiStream.runningStatus == 0 && !ST[k].midiStream.pending && ST[k].midiStream.sysExState == 0xee, "and a fresh parser behind it");
            for (j = 0; j < k; j++) POST(ST[j].fileHandle != ST[k].fileHandle, "no handle is shared");
        }
        k = first_min(NT); POST(SD.nextStream == &ST[k], "the earliest event comes first, the first track on ties");
    } else {
        POST(R_res != EAS_EOF || (A_fail && R_err != EAS_EOF), "an incomplete file is a format error");
        /* whatever is open can be closed: every open handle has exactly one owner */
        j = SD.fileHandle != NULL; for (k = 0; k < NT && k < SD.numStreams; k++) j += ST[k].fileHandle != NULL;
        POST(j == N_open, "every open file handle has an owner");
        POST(SD.streams == NULL || SD.streams == ST, "memory has an owner");
        POST(NT == 0 || !M_ok || (D_ok & 6) != 6 || (A_fail && N_io >= A_fail), "only when something was wrong");
    }
    REACH();
}
//@ unit s01_header prop=S01 harness=h_header1 enforce=SMF_ParseHeader cases=NT:1 defs=-DNS=3 kind=bounded bound=files_of_1_track timeout=300
void h_header1(void)
{
    zero(); INPUT(SD); INPUT(ST); INPUT(OFS); INPUT(CS); INPUT(DIV); INPUT(DB); NTRK = 1; M_ok = 1; D_ok = 255;
    PRE(OFS >= 0 && OFS <= 0x7fff); FLEN = 0x7fffffff; PRE(CS[0] >= 6 && CS[0] <= 0x7fff0000 && CS[1] >= 6);
    C[0] = OFS; C[1] = OFS + 8 + (EAS_I32) CS[0]; C[2] = C[3] = C[4] = C[5] = -1000; CT[1] = SMF_CHUNK_TYPE_TRACK; DB[1][0] &= 0x7f;
    SD.fileHandle = (EAS_FILE_HANDLE) &FHD[0]; OPEN[0] = 1; N_open = 1; SD.fileOffset = OFS; SD.streams = NULL; SD.flags = 0; SD.time = 0;
    R_res = SMF_ParseHeader((void *) &HWI, &SD);
    POST(!X_bad && R_res == EAS_SUCCESS, "the header is read");
    POST(SD.ppqn == (DIV == 0 || DIV & 0x8000 ? 192 : DIV), "the division of the header, 192 for frame-based times");
    POST(ST[0].startFilePos == C[1] + 8, "the length of the header is honoured");
    POST(SD.time == upd(DB[1][0], SD.tickConv), "the first event has its time");
    REACH();
}
/* ---- the player ---- */
//@ unit s03_state prop=S03 harness=h_state enforce=SMF_State
static EAS_I32 R_state;
void h_state(void)
{
    zero(); INPUT(SD); INPUT(A_act); SD.pSynth = &SY0; OD = SD;
    R_res = SMF_State(&ED, &SD, &R_state);
    POST(!X_bad && R_res == EAS_SUCCESS && R_state == SD.state, "the state is reported");
    POST(SD.state == (OD.state == EAS_STATE_STOPPING && A_act == 0 ? EAS_STATE_STOPPED : OD.state == EAS_STATE_PAUSING && A_act == 0 ? EAS_STATE_PAUSED : OD.state), "stopping and pausing end when the last voice has ended, other states stay");
    OD.state = SD.state; POST(SD.time == OD.time && SD.nextStream == OD.nextStream && SD.flags == OD.flags, "nothing else changes");
    REACH();
}
//@ unit s03_pause prop=S03 harness=h_pause enforce=SMF_Pause
void h_pause(void)
{
    zero(); INPUT(SD); SD.pSynth = &SY0; OD = SD;
    R_res = SMF_Pause(&ED, &SD);
    if (OD.state == EAS_STATE_STOPPED) POST(R_res == EAS_ERROR_ALREADY_STOPPED && SD.state == OD.state && N_mute == 0, "a stopped song cannot be paused");
    else POST(R_res == EAS_SUCCESS && SD.state == EAS_STATE_PAUSING && N_mute == 1 && !X_bad, "its voices fade and it is pausing");
    POST(SD.time == OD.time && SD.nextStream == OD.nextStream && SD.flags == OD.flags && SD.pSynth == OD.pSynth, "the song stays where it is");
    REACH();
}
//@ unit s03_resume prop=S03 harness=h_resume enforce=SMF_Resume
void h_resume(void)
{
    zero(); INPUT(SD); OD = SD;
    R_res = SMF_Resume(&ED, &SD);
    if (OD.state == EAS_STATE_STOPPED) POST(R_res == EAS_ERROR_ALREADY_STOPPED && SD.state == OD.state, "a stopped song cannot be resumed");
    else POST(R_res == EAS_SUCCESS && SD.state == EAS_STATE_PLAY, "it plays");
    POST(SD.time == OD.time && SD.nextStream == OD.nextStream && SD.flags == OD.flags && SD.pSynth == OD.pSynth, "from where it was");
    REACH();
}
//@ unit s03_prepare prop=S03 harness=h_prepare enforce=SMF_Prepare defs=-DNS=3
void h_prepare(void)
{
    zero(); INPUT(SD); INPUT(V_ok); INPUT(NTRK); INPUT(FLEN); INPUT(DB); INPUT(DIV); INPUT(M_ok); OFS = 0; C[0] = 0; CS[0] = 6; C[1] = 14; CT[1] = SMF_CHUNK_TYPE_TRACK; CS[1] = 6; C[2] = 28; C[3] = C[4] = C[5] = -1000; CT[2] = 0; CS[2] = 0x7fffffff;
    NTRK &= 1; DB[1][0] &= 0x7f; FLEN &= 0xffff; DB[1][1] &= 0x7f; D_ok = 255;
    SD.state &= 15; SD.fileHandle = (EAS_FILE_HANDLE) &FHD[0]; OPEN[0] = 1; N_open = 1; SD.fileOffset = 0; SD.streams = NULL; SD.pSynth = NULL; SD.time = 0; SD.flags = 0; OD = SD;
#ifdef VK_NATIVE
    if (vk_random_mode() && vk_rand() & 1) { SD.state = EAS_STATE_OPEN; OD = SD; }
#endif
    R_res = SMF_Prepare(&ED, &SD);
    POST(!X_bad, "only this song is worked on");
    if (OD.state != EAS_STATE_OPEN) POST(R_res == EAS_ERROR_NOT_VALID_IN_THIS_STATE && N_init == 0 && SD.state == OD.state && SD.pSynth == NULL && SD.fileHandle == OD.fileHandle, "a song is prepared once");
    else if (!V_ok) POST(R_res != EAS_SUCCESS && SD.pSynth == NULL && SD.state == EAS_STATE_OPEN && SD.fileHandle == OD.fileHandle && SD.streams == NULL, "without a synthesizer nothing happens");
    else if (R_res == EAS_SUCCESS) POST(SD.state == EAS_STATE_READY && SD.pSynth == &SY0 && N_init == 1 && SD.numStreams == 1, "ready");
    else POST(SD.state == EAS_STATE_ERROR && SD.pSynth == &SY0 && N_init == 1, "a refused header leaves a song that can only be closed, its synthesizer still owned");
    if (V_ok && OD.state == EAS_STATE_OPEN && M_ok && NTRK && FLEN > 100) POST(R_res == EAS_SUCCESS, "a good file is accepted");
    REACH();
}
//@ unit s03_close prop=S03 harness=h_close enforce=SMF_Close cases=NT:0:1:2:3 defs=-DNS=3 kind=bounded bound=songs_of_at_most_3_tracks
void h_close(void)
{
    unsigned k, own = 0;
    zero(); INPUT(SD); INPUT(ST); INPUT(A_static); INPUT(A_nul);
    SD.numStreams = NT; ED.staticMemoryModel = A_static & 1; SD.pSynth = A_nul & 1 ? &SY0 : NULL; SD.streams = NT || A_nul & 2 ? &ST[0] : NULL;
    if (A_nul & 4) { SD.fileHandle = (EAS_FILE_HANDLE) &FHD[NS]; OPEN[NS] = 1; own++; } else SD.fileHandle = NULL;
    for (k = 0; k < NT; k++) if (A_nul >> (3 + k) & 1) { ST[k].fileHandle = (EAS_FILE_HANDLE) &FHD[k]; OPEN[k] = 1; own++; } else ST[k].fileHandle = NULL;
    N_open = own; OD = SD;
    R_res = SMF_Close(&ED, &SD);
    POST(R_res == EAS_SUCCESS && !X_bad, "closing works in every state of preparation");
    POST(N_close == own && N_open == 0, "every file handle is closed once");
    POST(N_shut == (OD.pSynth != NULL), "the synthesizer is given back once");
    if (A_static & 1) POST(N_free == 0 && N_freeS == 0, "static memory is not freed");
    else POST(N_free == 1 && N_freeS == (OD.streams != NULL) && T_free > T_shut, "all memory is given back once, the song itself last");
    REACH();
}
//@ unit s03_reset prop=S03 harness=h_rewind enforce=SMF_Reset cases=NT:1:2:3 defs=-DNS=3 kind=bounded bound=songs_of_at_most_3_tracks
void h_rewind(void)
{
    unsigned k; EAS_U32 t[3];
    zero(); INPUT(SD); INPUT(ST); INPUT(DB); INPUT(POS); INPUT(C); SD.numStreams = NT; SD.streams = ST; SD.pSynth = &SY0; FLEN = 0x7fffffff;
#ifdef VK_NATIVE
    if (vk_random_mode()) { C[0] = 14; C[1] = 50; C[2] = 80; C[3] = C[4] = C[5] = -1000; SD.ppqn = 96 + vk_rand() % 100; }
#endif
    for (k = 0; k < 6; k++) { if (k >= NT) C[k] = -1000; else { PRE(C[k] >= 0 && C[k] < 0x7fff0000); if (k) PRE(C[k] >= C[k - 1] + 16); t[k] = DB[k][0] & 0x80 ? (EAS_U32) (DB[k][0] & 0x7f) << 7 | (DB[k][1] &= 0x7f) : DB[k][0]; ST[k].startFilePos = C[k] + 8; ST[k].fileHandle = (EAS_FILE_HANDLE) &FHD[k]; OPEN[k] = 1; } }
    PRE(SD.ppqn >= 1 && SD.ppqn <= 0x7fff); SD.ppqn = 500; OD = SD;
    R_res = SMF_Reset(&ED, &SD);
    POST(!X_bad && R_res == EAS_SUCCESS && SD.state == EAS_STATE_READY, "ready again");
    POST(N_reset == 1, "no note sounds");
    for (k = 0; k < NT; k++) POST(ST[k].ticks == t[k] && ST[k].fileHandle == (EAS_FILE_HANDLE) &FHD[k] && POS[k] == C[k] + 8 + (DB[k][0] & 0x80 ? 2 : 1) && ST[k].midiStream.runningStatus == 0 && !ST[k].midiStream.pending && !ST[k].midiStream.byte3 && ST[k].midiStream.flags == 0 && ST[k].midiStream.sysExState == 0xee, "every track is at its first event with a fresh parser");
    k = first_min(NT); POST(SD.nextStream == &ST[k], "the earliest event comes first, the first track on ties");
    POST(SD.tickConv == 1024 && SD.time == (EAS_I32) (t[k] << 8) && !(SD.flags & (SMF_FLAGS_CHASE_MODE | SMF_FLAGS_SETUP_BAR)) && SD.ppqn == OD.ppqn, "tempo and time are those of a song just prepared");
    REACH();
}
//@ unit s03_open prop=S03 harness=h_open enforce=SMF_CheckFileType
void h_open(void)
{
    EAS_VOID_PTR h = &HWI; int hit;
    zero(); INPUT(ND); INPUT(B); INPUT(M_ok); INPUT(A_static); INPUT(OFS); INPUT(FLEN); INPUT(R_err); RD_mode = 1; OPEN[0] = 1; ED.staticMemoryModel = A_static & 1; ED.searchHeaderFlag = 0;
    PRE(OFS >= 0 && OFS <= 0x7fffffff);
#ifdef VK_NATIVE
    if (vk_random_mode()) { if (vk_rand() % 4) { B[0] = 'M'; B[1] = 'T'; B[2] = 'h'; B[3] = 'd'; R_err = 0; } OFS = 0; M_ok &= 1; FLEN &= 0xff; }
#endif
    if (A_static & 1) ND = Z_sd;     /* static memory is zero at start */
    R_res = SMF_CheckFileType(&ED, (EAS_FILE_HANDLE) &FHD[0], &h, OFS);
    hit = B[0] == 'M' && B[1] == 'T' && B[2] == 'h' && B[3] == 'd';
    POST(!X_bad && OPEN[0], "only this file is looked at");
    if (OFS > FLEN) POST(R_res == EAS_ERROR_FILE_SEEK && h == NULL, "a seek error is passed on");
    else if (R_err != EAS_SUCCESS) POST(R_res == R_err && h == NULL, "a read error is passed on");
    else if (!hit) POST(R_res == EAS_SUCCESS && h == NULL && N_alloc == 0, "not a song: nothing is allocated");
    else if (!M_ok) POST(R_res == EAS_ERROR_MALLOC_FAILED && h == NULL, "no memory: refused");
    else POST(R_res == EAS_SUCCESS && h == &ND && ND.state == EAS_STATE_OPEN && ND.fileHandle == (EAS_FILE_HANDLE) &FHD[0] && ND.fileOffset == OFS && ND.pSynth == NULL && ND.time == 0 && ND.numStreams == 0 && ND.streams == NULL && ND.nextStream == NULL && ND.metadata.callback == NULL && ND.flags == 0, "an open song without anything of its own");
    REACH();
}
