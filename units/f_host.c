/* F01, F02: files and file handles */
//@ file mode=plain timeout=200 solver=cadical unwind=102 fs=104 nlink=
#include "kit.h"
#include "eas_report.h"
#include "eas_hostmm.c"
void EAS_ReportEx(int s, unsigned long h, int r, ...) { }
static EAS_HW_INST_DATA HW, OHW; static EAS_FILE LOC; static EAS_FILE_HANDLE FH; static EAS_U8 OCC[EAS_MAX_FILE_HANDLES];
static int F_size, R_ret, R_off, R_n, R_calls, R_bad; static void *R_buf; static EAS_U8 DEV[16], BUF[16], OBUF[16]; static EAS_U8 K;
static EAS_I32 A_n, A_pos, R_got; static EAS_BOOL A_msb; static EAS_U16 W16; static EAS_U32 W32;
#define THE (&HW.files[3])
static int f_size(void *h) { if (h != (void *) DEV) R_bad = 1; return F_size; }
static int f_read(void *h, void *b, int off, int n) { R_calls++; R_off = off; R_n = n; R_buf = b; if (h != (void *) DEV || off < 0 || n < 0 || off > F_size || n > F_size - off) R_bad = 1; return R_ret; }
static int P0;
static int f_bytes(void *h, void *b, int off, int n)
{   /* one byte at a time */
    R_calls++; if (h != (void *) DEV || off < P0 || off - P0 > 3 || n != 1 || off >= F_size) { R_bad = 1; return 0; }
    *(EAS_U8 *) b = DEV[off - P0]; return 1;
}
static void file(int (*rd)(void *, void *, int, int))
{
    INPUT(F_size); INPUT(HW); R_calls = R_bad = R_off = R_n = 0; R_buf = NULL;
    PRE(F_size >= 0); THE->handle = DEV; THE->size = f_size; THE->readAt = rd; PRE(THE->filePos >= 0 && THE->filePos <= F_size); P0 = THE->filePos;
    OHW.files[3] = *THE;
}
static int moved(int by) { return THE->handle == DEV && THE->filePos == P0 + by && THE->size == f_size && THE->readAt == OHW.files[3].readAt; }

//@ unit f01_read prop=F01 harness=h_read enforce=EAS_HWReadFile
void h_read(void)
{
    EAS_I32 avail, want; EAS_RESULT r;
    file(f_read); INPUT(A_n); INPUT(R_ret); INPUT(R_got); EAS_I32 got0 = R_got;
    avail = F_size - P0; want = A_n < avail ? A_n : avail;
    PRE(R_ret <= want);                                   /* the callback delivers no more than it was asked for */
    r = EAS_HWReadFile(&HW, THE, BUF, A_n, &R_got);
    POST(!R_bad, "the callback is only asked for bytes inside the file");
    if (A_n < 0) POST(r != EAS_SUCCESS && R_calls == 0 && moved(0), "a negative count is refused");
    else {
        EAS_I32 d = want == 0 ? 0 : R_ret < 0 ? 0 : R_ret;
        POST(R_calls == (want > 0) && (!R_calls || (R_off == P0 && R_n == want && R_buf == BUF)), "the bytes at the current position are read");
        POST(R_got == d && moved(d), "the position advances by the bytes delivered");
        POST(r == (d == A_n ? EAS_SUCCESS : EAS_EOF), "a short read reports end of file");
    }
    REACH();
}
//@ unit f01_closed prop=F01,F02 harness=h_closed covers=EAS_HWReadFile,EAS_HWFilePos,EAS_HWFileSeek,EAS_HWFileSeekOfs,EAS_HWDupHandle,EAS_HWCloseFile
void h_closed(void)
{
    file(f_read); INPUT(A_n); INPUT(A_pos); THE->handle = NULL;
    POST(EAS_HWReadFile(&HW, THE, BUF, A_n, &R_got) == EAS_ERROR_INVALID_HANDLE && EAS_HWFileSeek(&HW, THE, A_pos) == EAS_ERROR_INVALID_HANDLE && EAS_HWFileSeekOfs(&HW, THE, A_pos) == EAS_ERROR_INVALID_HANDLE
         && EAS_HWFilePos(&HW, THE, &R_got) == EAS_ERROR_INVALID_HANDLE && EAS_HWDupHandle(&HW, THE, &FH) == EAS_ERROR_INVALID_HANDLE && EAS_HWCloseFile(&HW, THE) == EAS_ERROR_INVALID_HANDLE, "a closed handle is refused everywhere");
    POST(R_calls == 0 && THE->filePos == P0 && THE->handle == NULL, "and nothing changes");
    REACH();
}
//@ unit f01_seek prop=F01 harness=h_seek enforce=EAS_HWFileSeek
void h_seek(void)
{
    file(f_read); INPUT(A_pos);
    EAS_RESULT r = EAS_HWFileSeek(&HW, THE, A_pos);
    if (A_pos >= 0 && A_pos <= F_size) POST(r == EAS_SUCCESS && THE->filePos == A_pos, "the position is the one asked for");
    else POST(r == EAS_ERROR_FILE_SEEK && moved(0), "a position outside the file is refused without moving");
    POST(R_calls == 0 && THE->handle == DEV, "nothing else happens");
    REACH();
}
//@ unit f01_seekofs prop=F01 harness=h_seekofs enforce=EAS_HWFileSeekOfs
void h_seekofs(void)
{
    file(f_read); INPUT(A_pos); PRE(A_pos <= 0x7fffffff00000000L);      /* a file position plus the offset is a number */
    EAS_RESULT r = EAS_HWFileSeekOfs(&HW, THE, A_pos);
    if (A_pos >= -(EAS_I32) P0 && A_pos <= F_size - P0) POST(r == EAS_SUCCESS && moved(A_pos), "the position moves by the offset");
    else POST(r == EAS_ERROR_FILE_SEEK && moved(0), "a position outside the file is refused without moving");
    REACH();
}
//@ unit f01_pos prop=F01 harness=h_pos enforce=EAS_HWFilePos
void h_pos(void)
{
    file(f_read); EAS_RESULT r = EAS_HWFilePos(&HW, THE, &R_got);
    POST(r == EAS_SUCCESS && R_got == P0 && moved(0), "the position is reported");
    REACH();
}
//@ unit f01_byte prop=F01 harness=h_byte enforce=EAS_HWGetByte
void h_byte(void)
{
    file(f_bytes); INPUT(DEV); INPUT(BUF); EAS_U8 b1 = BUF[1], b0 = BUF[0];
    EAS_RESULT r = EAS_HWGetByte(&HW, THE, BUF);
    POST(!R_bad && BUF[1] == b1, "one byte");
    if (P0 < F_size) POST(r == EAS_SUCCESS && BUF[0] == DEV[0] && moved(1), "the next byte of the file"); else POST(r == EAS_EOF && BUF[0] == b0 && moved(0), "end of file");
    REACH();
}
//@ unit f01_word prop=F01 harness=h_word enforce=EAS_HWGetWord
void h_word(void)
{
    file(f_bytes); INPUT(DEV); INPUT(W16); INPUT(A_msb); EAS_U16 o = W16;
    EAS_RESULT r = EAS_HWGetWord(&HW, THE, &W16, A_msb);
    EAS_I32 left = F_size - P0;
    POST(!R_bad && moved(left < 2 ? left : 2), "two bytes are consumed, or those that are left");
    if (left >= 2) POST(r == EAS_SUCCESS && W16 == (A_msb ? DEV[0] * 256 + DEV[1] : DEV[1] * 256 + DEV[0]), "the bytes in the requested order"); else POST(r == EAS_EOF && W16 == o, "end of file");
    REACH();
}
//@ unit f01_dword prop=F01 harness=h_dword enforce=EAS_HWGetDWord
void h_dword(void)
{
    file(f_bytes); INPUT(DEV); INPUT(W32); INPUT(A_msb); EAS_U32 o = W32, w = 0; unsigned i;
    EAS_RESULT r = EAS_HWGetDWord(&HW, THE, &W32, A_msb);
    EAS_I32 left = F_size - P0;
    for (i = 0; i < 4; i++) w = w * 256 + DEV[A_msb ? i : 3 - i];
    POST(!R_bad && moved(left < 4 ? left : 4), "four bytes are consumed, or those that are left");
    if (left >= 4) POST(r == EAS_SUCCESS && W32 == w, "the bytes in the requested order"); else POST(r == EAS_EOF && W32 == o, "end of file");
    REACH();
}
/* the handle table */
static void table(void)
{
    unsigned i;
    INPUT(OCC); INPUT(LOC); INPUT(K); INPUT(HW); R_bad = 0; FH = NULL; K %= EAS_MAX_FILE_HANDLES;
    for (i = 0; i < EAS_MAX_FILE_HANDLES; i++) { HW.files[i].handle = OCC[i] & 1 ? (void *) DEV : NULL; HW.files[i].size = f_size; HW.files[i].readAt = OCC[i] & 2 ? f_read : f_bytes; }
    for (i = 0; i < EAS_MAX_FILE_HANDLES; i++) OHW.files[i] = HW.files[i];
    LOC.handle = BUF; LOC.size = f_size; LOC.readAt = f_bytes;
}
static int all_used(void) { unsigned i; for (i = 0; i < EAS_MAX_FILE_HANDLES; i++) if (!(OCC[i] & 1)) return 0; return 1; }
static int f_eq(unsigned i) { EAS_HW_FILE *a = &HW.files[i], *b = &OHW.files[i]; return a->handle == b->handle && a->filePos == b->filePos && a->size == b->size && a->readAt == b->readAt; }
//@ unit f02_open prop=F02 harness=h_open enforce=EAS_HWOpenFile
static EAS_FILE_MODE A_mode;
void h_open(void)
{
    unsigned i, n = 0; EAS_RESULT r;
    table(); INPUT(A_mode); FH = &HW.files[0];
    r = EAS_HWOpenFile(&HW, &LOC, &FH, A_mode);
    for (i = 0; i < EAS_MAX_FILE_HANDLES; i++) {
        if (r == EAS_SUCCESS && FH == &HW.files[i]) { n++; POST(!(OCC[i] & 1) && HW.files[i].handle == BUF && HW.files[i].size == f_size && HW.files[i].readAt == f_bytes && HW.files[i].filePos == 0, "a free handle at the start of the file"); }
        else POST(f_eq(i), "other files are untouched");
    }
    POST(r == (A_mode != EAS_FILE_READ ? EAS_ERROR_INVALID_FILE_MODE : all_used() ? EAS_ERROR_MAX_FILES_OPEN : EAS_SUCCESS), "refused only when writing or when all handles are taken"); POST(r == EAS_SUCCESS ? n == 1 : FH == NULL, "exactly one handle");
    REACH();
}
//@ unit f02_dup prop=F02 harness=h_dup enforce=EAS_HWDupHandle
void h_dup(void)
{
    unsigned i, n = 0; EAS_RESULT r;
    table(); OCC[3] |= 1; HW.files[3].handle = OHW.files[3].handle = DEV;
    r = EAS_HWDupHandle(&HW, THE, &FH);
    for (i = 0; i < EAS_MAX_FILE_HANDLES; i++) {
        if (r == EAS_SUCCESS && FH == &HW.files[i]) { n++; POST(!(OCC[i] & 1) && HW.files[i].handle == DEV && HW.files[i].size == OHW.files[3].size && HW.files[i].readAt == OHW.files[3].readAt && HW.files[i].filePos == OHW.files[3].filePos, "a free handle at the same position of the same file"); }
        else POST(f_eq(i), "other files are untouched");
    }
    POST(r == (all_used() ? EAS_ERROR_MAX_FILES_OPEN : EAS_SUCCESS) && (r != EAS_SUCCESS || n == 1), "refused only when all handles are taken");
    REACH();
}
//@ unit f02_close prop=F02 harness=h_close enforce=EAS_HWCloseFile
void h_close(void)
{
    unsigned i; EAS_RESULT r;
    table(); OCC[3] |= 1; HW.files[3].handle = OHW.files[3].handle = DEV;
    r = EAS_HWCloseFile(&HW, THE);
    POST(r == EAS_SUCCESS && THE->handle == NULL, "the handle is free again");
    for (i = 0; i < EAS_MAX_FILE_HANDLES; i++) if (i != 3) POST(f_eq(i), "other files are untouched");
    REACH();
}
//@ unit f02_init prop=F02 harness=h_init enforce=EAS_HWInit covers=EAS_HWMemSet native=0
static EAS_U8 M_ok;
#ifndef VK_NATIVE
static EAS_U8 M_n; void *malloc(__CPROVER_size_t n) { M_n++; if (n != sizeof HW) R_bad = 1; return M_ok ? &HW : NULL; }
#endif
void h_init(void)
{
    unsigned i; EAS_HW_DATA_HANDLE h;
    INPUT(HW); INPUT(M_ok); R_bad = 0;
    EAS_RESULT r = EAS_HWInit(&h);
    POST(r == (M_ok ? EAS_SUCCESS : EAS_ERROR_MALLOC_FAILED) && !R_bad, "memory for the table, or an error");
    if (M_ok) for (i = 0; i < EAS_MAX_FILE_HANDLES; i++) POST(HW.files[i].handle == NULL, "no handle is in use");
    REACH();
}
