/* environment of eas_voicemgt.c that the unit does not exercise */
#ifndef VMSTUBS_H
#define VMSTUBS_H
void *EAS_HWMalloc(EAS_HW_DATA_HANDLE h, EAS_I32 size) { return 0; }
void EAS_HWFree(EAS_HW_DATA_HANDLE h, void *p) { }
void *EAS_HWMemSet(void *s, int c, EAS_I32 n) { return s; }
void *EAS_HWMemCpy(void *s, const void *c, EAS_I32 n) { return s; }
EAS_VOID_PTR EAS_CMEnumData(EAS_INT m) { return 0; }
EAS_RESULT DLSCleanup(EAS_HW_DATA_HANDLE h, S_DLS *d) { return 0; }
void DLSAddRef(S_DLS *d) { }
#endif
