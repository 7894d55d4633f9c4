/* E01: pitch, gain, volume and pan conversions agree with their mathematical definition */
//@ file link=eas_math.c,eas_pan.c
#include "kit.h"
#include "eas_types.h"
#include "eas_math.h"
#include "eas_pan.h"
#include "reftables.h"

SPEC_BEGIN
/* |got - ideal| <= 1 + 0.03 % where ideal = 32768 * 2^(c/1200) */
static int ok_2tox(EAS_I32 c, EAS_I32 got)
{
    if (c < -18000) return got == 0;
    if (c > 19200) c = 19200;
    unsigned u = (unsigned) (c + 18000);            /* 0 .. 37200 */
    unsigned oct = u / 1200, k = u % 1200;           /* ideal = REF[k] * 2^(oct-15) * 2^15 / 2^20 */
    unsigned long long ideal20 = (unsigned long long) REF_CENT[k] << oct;   /* ideal * 2^20 */
    unsigned long long g20 = (unsigned long long) got << 20;
    unsigned long long d = ideal20 > g20 ? ideal20 - g20 : g20 - ideal20;
    /* 1 LSB plus 0.03 % (3/10000) */
    return got >= 0 && got <= 0x80100000L && d <= (1ull << 20) + (ideal20 >> 12) + (ideal20 >> 14);
}
/* ideal = 32768 * 2^(g/1024), linear interpolation inside an octave: within 6.3 % + 1 */
static int ok_log2lin(EAS_I32 g, EAS_U16 got)
{
    if (g < -32767) return got == 0;
    if (g > 0) return got == 0x7fff;
    unsigned u = (unsigned) (g + 32768);               /* 1 .. 32768 */
    unsigned oct = u >> 10, k = u & 1023;              /* 32768 * 2^(oct-32) */
    unsigned long long ideal37 = (unsigned long long) REF_LOG[k] << oct;    /* ideal * 2^37 */
    unsigned long long g37 = (unsigned long long) got << 37;
    unsigned long long d = ideal37 > g37 ? ideal37 - g37 : g37 - ideal37;
    return got <= 0x7fff && d <= (1ull << 37) + (ideal37 >> 4);
}
static int ok_vol(int v, EAS_I16 got)
{
    if (v <= 0) return got == 0;
    if (v >= 100) return got == 0x7fff;
    int d = REF_VOL[v] - (got << 8);
    if (d < 0) d = -d;
    return got >= 0 && d <= 512 + (REF_VOL[v] >> 9);
}
#define CLAMP63(p) ((p) < -63 ? -63 : (p) > 63 ? 63 : (p))
static int ok_pan(int pan, EAS_I16 l, EAS_I16 r)
{
    int p = CLAMP63(pan);
    long pw = (long) l * l + (long) r * r;
    if (l < 0 || r < 0) return 0;
    if (p == 0 && (l != r || l < 23169 || l > 23171)) return 0;
    if (p > 0 && !(r > l)) return 0;
    if (p < 0 && !(l > r)) return 0;
    if (p == 63 && l > 512) return 0;
    if (p == -63 && r > 512) return 0;
    /* constant power within 2.5 % of full scale */
    return pw <= 1075052544L && pw >= 1046898278L;
}
SPEC_END

static EAS_I32 c1, c2; static EAS_INT v1, v2; static EAS_U32 n1, n2; static EAS_I32 g1, g2;
static EAS_I16 PL, PR;

//@ unit e01_2tox prop=E01 enforce=EAS_Calculate2toX
EAS_I32 EAS_Calculate2toX(EAS_I32 nCents)
REQUIRES(1) ASSIGNS() ENSURES(ok_2tox(nCents, __CPROVER_return_value));
void h_e01_2tox(void) { INPUT(c1); EAS_I32 r = EAS_Calculate2toX(c1); POST(ok_2tox(c1, r), "2^x accuracy"); REACH(); }

//@ unit e01_2tox_mono prop=E01 covers=EAS_Calculate2toX
void h_e01_2tox_mono(void) { INPUT(c1); INPUT(c2); PRE(c1 < 0x7fffffff && c2 == c1 + 1);
    PROVE(EAS_Calculate2toX(c1) <= EAS_Calculate2toX(c2), "2^x is monotone"); REACH(); }

//@ unit e01_2tox_oct prop=E01 covers=EAS_Calculate2toX
void h_e01_2tox_oct(void) { INPUT(c1); INPUT(c2);
    PRE(c1 >= -16800 && c1 <= 18000 && c2 == c1 + 1200);
    EAS_I32 a = EAS_Calculate2toX(c1), b = EAS_Calculate2toX(c2);
    PROVE(b - 2 * a >= -2 - (a >> 10) && b - 2 * a <= 2 + (a >> 10), "an octave doubles the ratio"); REACH(); }

//@ unit e01_log2lin prop=E01 enforce=EAS_LogToLinear16
EAS_U16 EAS_LogToLinear16(EAS_I32 nGain)
REQUIRES(nGain <= 0x7fffffff) ASSIGNS() ENSURES(ok_log2lin(nGain, __CPROVER_return_value));
void h_e01_log2lin(void) { INPUT(g1); PRE(g1 <= 0x7fffffff); EAS_U16 r = EAS_LogToLinear16(g1); POST(ok_log2lin(g1, r), "log gain accuracy"); REACH(); }

//@ unit e01_log2lin_mono prop=E01 covers=EAS_LogToLinear16
void h_e01_log2lin_mono(void) { INPUT(g1); INPUT(g2); PRE(g1 <= g2 && g2 <= 0x7fffffff);
    PROVE(EAS_LogToLinear16(g1) <= EAS_LogToLinear16(g2), "log gain is monotone"); REACH(); }

//@ unit e01_vol prop=E01 enforce=EAS_VolumeToGain
EAS_I16 EAS_VolumeToGain(EAS_INT volume)
REQUIRES(1) ASSIGNS() ENSURES(ok_vol(volume, __CPROVER_return_value));
void h_e01_vol(void) { INPUT(v1); EAS_I16 r = EAS_VolumeToGain(v1); POST(ok_vol(v1, r), "volume in 1 dB steps"); REACH(); }

//@ unit e01_vol_mono prop=E01 covers=EAS_VolumeToGain
void h_e01_vol_mono(void) { INPUT(v1); INPUT(v2); PRE(v1 <= v2);
    PROVE(EAS_VolumeToGain(v1) <= EAS_VolumeToGain(v2), "volume gain is monotone"); REACH(); }

//@ unit e01_pan prop=E01 enforce=EAS_CalcPanControl nochecks=undefined-shift
void EAS_CalcPanControl(EAS_INT pan, EAS_I16 *pGainLeft, EAS_I16 *pGainRight)
REQUIRES(pGainLeft == &PL && pGainRight == &PR) ASSIGNS(PL, PR) ENSURES(ok_pan(pan, PL, PR));
void h_e01_pan(void) { INPUT(v1); EAS_CalcPanControl(v1, &PL, &PR); POST(ok_pan(v1, PL, PR), "constant power pan"); REACH(); }

//@ unit e01_pan_sym prop=E01 nochecks=undefined-shift covers=EAS_CalcPanControl
void h_e01_pan_sym(void) { EAS_I16 l1, r1, l2, r2; INPUT(v1); INPUT(v2); 
    PRE(v1 > -0x7fffffff); 
    EAS_CalcPanControl(v1, &l1, &r1); EAS_CalcPanControl(-v1, &l2, &r2);
    PROVE(l1 - r2 <= 1 && r2 - l1 <= 1 && r1 - l2 <= 1 && l2 - r1 <= 1, "pan is mirror symmetric");
    PRE(v1 <= v2); EAS_CalcPanControl(v2, &l2, &r2);
    PROVE(l2 <= l1 && r2 >= r1, "pan is monotone"); REACH(); }
