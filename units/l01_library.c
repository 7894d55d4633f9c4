/* L01: the built-in sound library. The tables are the real ones (wt_200k_G.c and what it includes); every index is
   symbolic over the whole table, so each unit covers every entry. */
//@ file prop=L01 mode=plain nlink= unwind=3 timeout=300
#include "kit.h"
#include "eas_data.h"
#include "wt_200k_G.c"
#define N(a) (sizeof(a) / sizeof((a)[0]))
#define R_FLAGS(r) (eas_regions[r].region.keyGroupAndFlags)
static EAS_U16 A_i, A_j; static EAS_U8 A_p;

//@ assume the libAttr word of the library (sample rate and format bits) is computed from the constant sampleRate, which CBMC does not evaluate in initialisers
//@ unit l01_counts harness=h_counts enforce=easSoundLib
void h_counts(void)
{
    POST(easSoundLib.identifier == _EAS_LIBRARY_VERSION && sampleRate == 44100, "the library identifies itself for this build");
    POST(easSoundLib.pBanks == eas_banks && easSoundLib.numBanks == N(eas_banks), "every bank is counted");
    POST(easSoundLib.pPrograms == eas_programs && easSoundLib.numPrograms == N(eas_programs), "every program is counted");
    POST(easSoundLib.pWTRegions == eas_regions && easSoundLib.numWTRegions == N(eas_regions), "every region is counted");
    POST(easSoundLib.pArticulations == eas_articulations && easSoundLib.numArticulations == N(eas_articulations), "every articulation is counted");
    POST(easSoundLib.pSampleLen == eas_sampleLengths && easSoundLib.pSampleOffsets == eas_sampleOffsets && easSoundLib.numSamples == N(eas_sampleLengths) && N(eas_sampleLengths) == N(eas_sampleOffsets), "every waveform has a length and an offset");
    POST(easSoundLib.pSamples == eas_samples && easSoundLib.numFMRegions == 0, "the sample pool is the one of the library");
    POST(N(eas_regions) > 0 && (R_FLAGS(N(eas_regions) - 1) & REGION_FLAG_LAST_REGION), "the last region ends the last list, so every list ends inside the table");
    POST(N(eas_regions) <= REGION_INDEX_MASK, "every region index fits its field");
    REACH();
}

//@ unit l01_region harness=h_region enforce=eas_regions
void h_region(void)
{
    const S_WT_REGION *r; EAS_U32 len;
    INPUT(A_i); PRE(A_i < N(eas_regions)); r = &eas_regions[A_i];
    POST(r->region.rangeLow <= r->region.rangeHigh && r->region.rangeHigh <= 127, "the key range is ordered");
    POST(r->artIndex < N(eas_articulations), "the articulation exists");
    if (!(r->region.keyGroupAndFlags & REGION_FLAG_USE_WAVE_GENERATOR)) {
        POST(r->waveIndex < N(eas_sampleLengths), "the waveform exists");
        len = eas_sampleLengths[r->waveIndex] / sizeof(EAS_SAMPLE);
        if (r->region.keyGroupAndFlags & REGION_FLAG_IS_LOOPED) POST(r->loopStart < r->loopEnd && r->loopEnd - r->loopStart >= 2 && r->loopEnd <= len, "the loop lies inside its waveform");
        else POST(len >= 2, "a one-shot has two samples at least");
    }
    REACH();
}

//@ unit l01_wave harness=h_wave enforce=eas_samples
void h_wave(void)
{
    INPUT(A_i); PRE(A_i < N(eas_sampleOffsets));
    POST(eas_sampleOffsets[A_i] % sizeof(EAS_SAMPLE) == 0 && eas_sampleLengths[A_i] % sizeof(EAS_SAMPLE) == 0, "waveforms consist of whole samples");
    POST(eas_sampleLengths[A_i] >= 2 * sizeof(EAS_SAMPLE), "of two at least");
    POST(eas_sampleOffsets[A_i] <= sizeof eas_samples && eas_sampleLengths[A_i] <= sizeof eas_samples - eas_sampleOffsets[A_i], "a waveform lies inside the sample pool");
    INPUT(A_j); PRE(A_j < N(eas_sampleOffsets) && A_i < A_j);
    POST(eas_sampleOffsets[A_i] + eas_sampleLengths[A_i] <= eas_sampleOffsets[A_j], "waveforms do not overlap");
    REACH();
}

//@ unit l01_art harness=h_art enforce=eas_articulations
void h_art(void)
{
    const S_ARTICULATION *a;
    INPUT(A_i); PRE(A_i < N(eas_articulations)); a = &eas_articulations[A_i];
    POST(a->eg1.attackTime >= 0 && a->eg1.decayTime >= 0 && a->eg1.sustainLevel >= 0 && a->eg1.releaseTime >= 0, "the volume envelope stays in range");
    POST(a->eg2.attackTime >= 0 && a->eg2.decayTime >= 0 && a->eg2.sustainLevel >= 0 && a->eg2.releaseTime >= 0, "the modulation envelope stays in range");
    POST(a->lfoDelay >= 0 && a->lfoFreq >= 0, "the LFO starts at the end of its delay");
    POST(a->filterQ <= 30 && a->pan >= -63 && a->pan <= 63, "resonance and pan are in range");
    REACH();
}

/* first region of a list: the table begins with one and one begins behind every last region */
#define STARTS(r) ((r) < N(eas_regions) && ((r) == 0 || (R_FLAGS((r) - 1) & REGION_FLAG_LAST_REGION)))
//@ unit l01_prog harness=h_prog enforce=eas_banks
void h_prog(void)
{
    INPUT(A_i); INPUT(A_p); PRE(A_i < N(eas_banks) && A_p < NUM_PROGRAMS_IN_BANK);
    POST(STARTS(eas_banks[A_i].regionIndex[A_p]), "every program of a bank leads to the start of a region list");
    INPUT(A_j); PRE(A_j < N(eas_programs));
    POST(STARTS(eas_programs[A_j].regionIndex), "every single program leads to the start of a region list");
    REACH();
}

/* two regions of one list never claim the same key: between them no list ends */
//@ unit l01_keys harness=h_keys enforce=eas_regions
void h_keys(void)
{
    INPUT(A_i); PRE(A_i + 1 < N(eas_regions) && !(R_FLAGS(A_i) & REGION_FLAG_LAST_REGION));
    POST(eas_regions[A_i].region.rangeHigh < eas_regions[A_i + 1].region.rangeLow || eas_regions[A_i + 1].region.rangeHigh < eas_regions[A_i].region.rangeLow, "neighbouring regions of an instrument have disjoint keys");
    REACH();
}
