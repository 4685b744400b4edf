// Pulse compression: the built-in compressor on its own, and the whole multi-core engine
#include <RadarKit.h>

static RKFFTModule *fft[32];

RKFFTModule *vt_fft(uint32_t capacity) {
    int k = (int)ceilf(log2f((float)capacity));
    if (fft[k] == NULL) {
        static char root[64];
        snprintf(root, sizeof(root), "/tmp/vt-wisdom-%d", (int)getpid());
        RKSetRootFolder(root);
        fft[k] = RKFFTModuleInit(1 << k, 0);
        char f[256];
        snprintf(f, sizeof(f), "%s/%s", root, RKFFTWisdomFile);
        unlink(f);
        rmdir(root);
    }
    return fft[k];
}

// a: name, origin, length, inputOrigin, outputOrigin, maxDataLength
static RKFilterAnchor anchor(const uint32_t *a) {
    RKFilterAnchor r;
    memset(&r, 0, sizeof(r));
    r.name = a[0];
    r.origin = a[1];
    r.length = a[2];
    r.inputOrigin = a[3];
    r.outputOrigin = a[4];
    r.maxDataLength = a[5];
    return r;
}

// Returns 0 when memory of the neighbouring pulse is intact
int vt_compress(uint32_t cap, uint32_t gateCount, int option, const uint32_t *a, const RKComplex *filter, uint32_t planIndex,
                const void *x, RKComplex *y, RKFloat *z) {
    RKBuffer buffer;
    RKPulseBufferAlloc(&buffer, cap, 2);
    RKPulse *p = RKGetPulseFromBuffer(buffer, 0);
    RKPulse *g = RKGetPulseFromBuffer(buffer, 1);
    RKCompressionScratch *s;
    RKCompressionScratchAlloc(&s, cap, 0, "x");
    size_t nfft = 1 << (int)ceilf(log2f((float)cap));
    RKComplex *f;
    if (posix_memalign((void **)&f, 64, nfft * sizeof(RKComplex))) return -1;
    memset(f, 0, nfft * sizeof(RKComplex));
    memcpy(f, filter, a[2] * sizeof(RKComplex));
    RKFilterAnchor fa = anchor(a);
    int c, k, r = 0;
    p->header.gateCount = gateCount;
    p->header.compressorDataType = option;
    for (c = 0; c < 2; c++) {
        RKComplex *Y = RKGetComplexDataFromPulse(p, c);
        RKIQZ Z = RKGetSplitComplexDataFromPulse(p, c);
        for (k = 0; k < cap; k++) {
            Y[k].i = Z.i[k] = -777.0f;
            Y[k].q = Z.q[k] = -888.0f;
        }
        if (option & RKCompressorOptionRKComplex) {
            memcpy(Y, (RKComplex *)x + c * cap, cap * sizeof(RKComplex));
        } else {
            memcpy(RKGetInt16CDataFromPulse(p, c), (RKInt16C *)x + c * cap, cap * sizeof(RKInt16C));
        }
    }
    size_t slot = (char *)g - (char *)p;
    memset(&g->header, 0x5a, slot);
    s->pulse = p;
    s->filter = f;
    s->filterAnchor = &fa;
    s->fftModule = vt_fft(cap);
    s->planIndex = planIndex;
    RKBuiltInCompressor(NULL, s);
    for (c = 0; c < 2; c++) {
        memcpy(y + c * cap, RKGetComplexDataFromPulse(p, c), cap * sizeof(RKComplex));
        RKIQZ Z = RKGetSplitComplexDataFromPulse(p, c);
        memcpy(z + (2 * c) * cap, Z.i, cap * sizeof(RKFloat));
        memcpy(z + (2 * c + 1) * cap, Z.q, cap * sizeof(RKFloat));
        if (!(option & RKCompressorOptionRKComplex) && memcmp(RKGetInt16CDataFromPulse(p, c), (RKInt16C *)x + c * cap, cap * sizeof(RKInt16C))) r |= 2;
    }
    for (k = 0; k < slot; k++) {
        if (((unsigned char *)g)[k] != 0x5a) r |= 1;
    }
    free(f);
    RKCompressionScratchFree(s);
    RKPulseBufferFree(buffer);
    return r;
}

static RKWaveform *makeWaveform(uint32_t depth, int groups, const uint32_t *counts, const uint32_t *anchors, const RKComplex *samples) {
    RKWaveform *w = RKWaveformInitWithCountAndDepth(groups, depth);
    int g, j;
    for (g = 0; g < groups; g++) {
        w->filterCounts[g] = counts[g];
        for (j = 0; j < counts[g]; j++) {
            w->filterAnchors[g][j] = anchor(anchors + (g * RKMaximumFilterCount + j) * 6);
        }
        memcpy(w->samples[g], samples + g * depth, depth * sizeof(RKComplex));
    }
    return w;
}

RKWaveform *vt_waveform(uint32_t depth, int groups, const uint32_t *counts, const uint32_t *anchors, const RKComplex *samples) {
    return makeWaveform(depth, groups, counts, anchors, samples);
}

// Runs nPulses through an engine. hdr: per pulse 8 words
int vt_pulse_engine(uint32_t cap, uint32_t depth, int cores, int sem, int old, int ratio,
                    int nsets, RKWaveform **waves,
                    int nPulses, const uint32_t *gates, const RKInt16C *x, int option, int pollEvery,
                    RKComplex *y, RKFloat *z, uint32_t *hdr) {
    RKBuffer buffer;
    RKRadarDesc desc;
    RKConfig configs[4];
    uint32_t configIndex = 0, pulseIndex = 0;
    memset(&desc, 0, sizeof(desc));
    memset(configs, 0, sizeof(configs));
    desc.pulseCapacity = cap;
    desc.pulseBufferDepth = depth;
    desc.pulseToRayRatio = ratio;
    desc.configBufferDepth = 4;
    RKPulseBufferAlloc(&buffer, cap, depth);
    RKPulseEngine *e = RKPulseEngineInit();
    RKPulseEngineSetEssentials(e, &desc, vt_fft(cap), configs, &configIndex, buffer, &pulseIndex);
    RKPulseEngineSetCoreCount(e, cores);
    e->useSemaphore = sem;
    e->useOldCodes = old;
    int k, c, r = 0;
    for (k = 0; k < nsets; k++) {
        if (waves[k] == NULL) {
            RKPulseEngineSetFilterToImpulse(e);
        } else {
            r = RKPulseEngineSetFilterByWaveform(e, waves[k]);
            if (r != RKResultSuccess) {
                RKPulseEngineFree(e);
                RKPulseBufferFree(buffer);
                return 1000;
            }
        }
    }
    if (RKPulseEngineStart(e) != RKResultSuccess) {
        return 1001;
    }
    int in = 0, out = 0, idle = 0;
    uint32_t maxInFlight = MAX(1, depth / 4);
    while (out < nPulses) {
        if (in < nPulses && in - out < maxInFlight) {
            RKPulse *p = RKPulseEngineGetVacantPulse(e, RKPulseStatusNull);
            p->header.gateCount = gates[in];
            p->header.compressorDataType = option;
            for (c = 0; c < 2; c++) {
                memcpy(RKGetInt16CDataFromPulse(p, c), x + (in * 2 + c) * cap, cap * sizeof(RKInt16C));
            }
            p->header.s = RKPulseStatusHasIQData;
            in++;
            if (in % pollEvery && in < nPulses && in - out < maxInFlight) continue;
        }
        RKPulse *p = RKPulseEngineGetProcessedPulse(e, false);
        if (p == NULL) {
            usleep(200);
            if (++idle > 100000) { r = 1002; break; }      // 20 s without a finished pulse
            continue;
        }
        idle = 0;
        for (c = 0; c < 2; c++) {
            memcpy(y + (out * 2 + c) * cap, RKGetComplexDataFromPulse(p, c), cap * sizeof(RKComplex));
            RKIQZ Z = RKGetSplitComplexDataFromPulse(p, c);
            memcpy(z + (out * 4 + 2 * c) * cap, Z.i, cap * sizeof(RKFloat));
            memcpy(z + (out * 4 + 2 * c + 1) * cap, Z.q, cap * sizeof(RKFloat));
            if (memcmp(RKGetInt16CDataFromPulse(p, c), x + (out * 2 + c) * cap, cap * sizeof(RKInt16C))) r |= 2;
        }
        uint32_t *h = hdr + out * 8;
        h[0] = (uint32_t)p->header.i;
        h[1] = p->header.s;
        h[2] = p->header.gateCount;
        h[3] = p->header.downSampledGateCount;
        h[4] = p->header.pulseWidthSampleCount;
        h[5] = p->parameters.gid;
        h[6] = p->parameters.filterCounts[0];
        h[7] = p->header.capacity;
        out++;
    }
    RKPulseEngineStop(e);
    if (r == 0 && RKPulseEngineGetProcessedPulse(e, false) != NULL) r |= 4;    // nothing was fed beyond nPulses
    RKPulseEngineFree(e);
    RKPulseBufferFree(buffer);
    return r;
}
