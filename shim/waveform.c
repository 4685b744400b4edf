// Waveforms, windows and ramps
#include <RadarKit.h>
#include <RadarKit/RKRamp.h>
#include "vt.h"

void vt_wave_info(RKWaveform *w, double *o) {
    o[0] = w->type; o[1] = w->count; o[2] = w->depth; o[3] = w->fc; o[4] = w->fs;
    for (int k = 0; k < RKMaximumWaveformCount; k++) o[5 + k] = w->filterCounts[k];
}

void vt_wave_get(RKWaveform *w, char *name, RKFilterAnchor *anchors, RKComplex *x, RKInt16C *i) {
    memcpy(name, w->name, RKNameLength);
    memcpy(anchors, w->filterAnchors, sizeof(w->filterAnchors));
    for (int k = 0; k < w->count; k++) {
        memcpy(x + (size_t)k * w->depth, w->samples[k], w->depth * sizeof(RKComplex));
        memcpy(i + (size_t)k * w->depth, w->iSamples[k], w->depth * sizeof(RKInt16C));
    }
}

void vt_wave_retype(RKWaveform *w, uint32_t type, double fs, double fc) { w->type = type; w->fs = fs; w->fc = fc; }
void vt_wave_rename(RKWaveform *w, const char *name) { snprintf(w->name, RKNameLength, "%s", name); }
void vt_wave_normalize(RKWaveform *w) { RKWaveformNormalizeNoiseGain(w); }

// A second filter in the same samples
void vt_wave_split(RKWaveform *w, uint32_t at) {
    for (int k = 0; k < w->count; k++) {
        w->filterCounts[k] = 2;
        w->filterAnchors[k][1] = w->filterAnchors[k][0];
        w->filterAnchors[k][0].length = at;
        w->filterAnchors[k][1].name = 1;
        w->filterAnchors[k][1].origin = at;
        w->filterAnchors[k][1].length = w->depth - at;
        w->filterAnchors[k][1].inputOrigin = at;
        w->filterAnchors[k][1].maxDataLength = at;
    }
}

RKResult vt_wave_window(RKWaveform *w, int type, double param) {
    return type == RKWindowTypeBoxCar || type == RKWindowTypeHann || type == RKWindowTypeHamming ? RKWaveformApplyWindow(w, type, 0.0) : RKWaveformApplyWindow(w, type, param);
}

void vt_window(RKFloat *b, int type, int n, double param, double blend) {
    if (type == RKWindowTypeKaiser || type == RKWindowTypeTukey || type == RKWindowTypeTrapezoid) RKWindowMake(b, type, n, param, blend);
    else RKWindowMake(b, type, n, blend);
}

void vt_ramp(RKFloat *b, int type, int n, double param) {
    if (type == RKRampTypeStep) RKRampMake(b, type, n, param);
    else RKRampMake(b, type, n);
}

// Through a file that cannot take all of the bytes
int vt_wave_write_full(RKWaveform *w) {
    FILE *f = fopen("/dev/full", "w");
    if (f == NULL) return -1;
    fclose(f);
    return RKWaveformWriteFile(w, "/dev/full");
}

int vt_half(uint16_t h, float *o) { RKWordFloat16 s = {.word = h}; *o = RKHalf2Single(s).value; return 0; }
double vt_double(float v) { RKWordFloat32 s = {.value = v}; return RKSingle2Double(s).value; }

int vt_fft_module(uint32_t capacity, int plan, int backward, int inplace, float *in, float *out, uint32_t *sizes) {
    RKFFTModule *m = RKFFTModuleInit(capacity, 0);
    const int count = m->count;
    for (int k = 0; k < count; k++) sizes[k] = m->plans[k].size;
    if (plan >= 0 && plan < count) {
        const uint32_t n = m->plans[plan].size;
        fftwf_complex *a = fftwf_malloc(n * sizeof(fftwf_complex)), *b = fftwf_malloc(n * sizeof(fftwf_complex));
        memcpy(a, in, n * sizeof(fftwf_complex));
        if (inplace) fftwf_execute_dft(backward ? m->plans[plan].backwardInPlace : m->plans[plan].forwardInPlace, a, a);
        else fftwf_execute_dft(backward ? m->plans[plan].backwardOutPlace : m->plans[plan].forwardOutPlace, a, b);
        memcpy(out, inplace ? a : b, n * sizeof(fftwf_complex));
        fftwf_free(a);
        fftwf_free(b);
    }
    RKFFTModuleFree(m);
    return count;
}

int vt_filter(int type, float *b, float *a, int *n) {
    RKIIRFilter f;
    memset(&f, 0xff, sizeof(f));
    RKGetFilterCoefficients(&f, type);
    n[0] = f.bLength; n[1] = f.aLength;
    memcpy(b, f.B, sizeof(f.B));
    memcpy(a, f.A, sizeof(f.A));
    return f.type;
}

// Windows with whatever was in the registers and on the stack before
static volatile double sink;
__attribute__((noinline)) static void stir(double a, double b, double c, double d) { volatile double x[64]; for (int k = 0; k < 64; k++) x[k] = a + b * k + c + d; sink = x[5]; }

void vt_window_plain(RKFloat *b, int type, int n, double param) {
    stir(0.7, 0.6, 0.5, 0.4);
    switch (type) {
        case RKWindowTypeBoxCar: RKWindowMake(b, RKWindowTypeBoxCar, n); break;
        case RKWindowTypeHann: RKWindowMake(b, RKWindowTypeHann, n); break;
        case RKWindowTypeHamming: RKWindowMake(b, RKWindowTypeHamming, n); break;
        default: RKWindowMake(b, type, n, param); break;
    }
}

// Noise of a pulse of two channels
int vt_pulse_noise(uint32_t cap, uint32_t gates, int origin, int status, const RKComplex *x, float *noise) {
    RKBuffer buffer;
    RKPulseBufferAlloc(&buffer, (cap + 15) / 16 * 16, 2);
    RKPulse *p = RKGetPulseFromBuffer(buffer, 0);
    p->header.gateCount = gates;
    p->header.s = status;
    for (int c = 0; c < 2; c++) memcpy(RKGetComplexDataFromPulse(p, c), x + (size_t)c * gates, gates * sizeof(RKComplex));
    const int r = RKMeasureNoiseFromPulse(noise, p, origin);
    RKPulseBufferFree(buffer);
    return r;
}
