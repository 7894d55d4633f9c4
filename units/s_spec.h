/* shared vocabulary of the MIDI-file contracts */
SPEC_BEGIN
/* ticks times tick length (1/1024 ms) in 1/256 ms, taken apart at bit 10 (unit s01_update) */
static EAS_I32 upd(EAS_U32 ticks, EAS_U32 conv) { return (EAS_I32) (((ticks >> 10) * conv << 8) + ((ticks & 0x3ff) * conv >> 2)); }
SPEC_END
