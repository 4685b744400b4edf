// The slow-time (ring) filter engine
#include <RadarKit.h>

// Feeds n pulses of g gates each. status: per pulse, 1 = skipped by the compressor. x: n x 2 x 2 x cap floats (i, q split)
int vt_ring_engine(uint32_t cap, uint32_t depth, int cores, int useFilter, uint32_t gates, uint32_t ringGates,
                   int bLen, const float *b, int aLen, const float *a, int n, const uint8_t *skip, const RKFloat *x, int pollEvery,
                   RKFloat *z, uint32_t *hdr) {
    RKBuffer buffer;
    RKRadarDesc desc;
    RKConfig configs[4];
    uint32_t configIndex = 1;
    volatile uint32_t pulseIndex = 0;
    memset(&desc, 0, sizeof(desc));
    memset(configs, 0, sizeof(configs));
    desc.pulseCapacity = cap;
    desc.pulseBufferDepth = depth;
    desc.configBufferDepth = 4;
    configs[0].ringFilterGateCount = ringGates;
    RKPulseBufferAlloc(&buffer, cap, depth);
    RKPulseRingFilterEngine *e = RKPulseRingFilterEngineInit();
    RKPulseRingFilterEngineSetEssentials(e, &desc, configs, &configIndex, buffer, (uint32_t *)&pulseIndex);
    RKPulseRingFilterEngineSetCoreCount(e, cores);
    RKIIRFilter f;
    int k, c, r = 0;
    memset(&f, 0, sizeof(f));
    f.bLength = bLen;
    f.aLength = aLen;
    for (k = 0; k < bLen; k++) f.B[k].i = b[k];
    for (k = 0; k < aLen; k++) f.A[k].i = a[k];
    RKPulseRingFilterEngineSetFilter(e, &f);
    if (useFilter) RKPulseRingFilterEngineEnableFilter(e); else RKPulseRingFilterEngineDisableFilter(e);
    if (RKPulseRingFilterEngineStart(e) != RKResultSuccess) return 1001;
    int in = 0, out = 0, idle = 0;
    uint32_t room = MAX(1, depth / 4);
    while (out < n) {
        if (in < n && in - out < room) {
            RKPulse *p = RKGetPulseFromBuffer(buffer, in % depth);
            p->header.i = in;
            p->header.gateCount = gates;
            p->header.downSampledGateCount = gates;
            for (c = 0; c < 2; c++) {
                RKIQZ Z = RKGetSplitComplexDataFromPulse(p, c);
                memcpy(Z.i, x + ((in * 2 + c) * 2) * cap, cap * sizeof(RKFloat));
                memcpy(Z.q, x + ((in * 2 + c) * 2 + 1) * cap, cap * sizeof(RKFloat));
            }
            p->header.s = RKPulseStatusHasIQData | RKPulseStatusInspected | RKPulseStatusProcessed | (skip[in] ? RKPulseStatusSkipped : RKPulseStatusCompressed | RKPulseStatusDownSampled);
            __sync_synchronize();
            pulseIndex = (in + 1) % depth;
            in++;
            if (in % pollEvery && in < n && in - out < room) continue;
        }
        RKPulse *p = RKGetPulseFromBuffer(buffer, out % depth);
        if (!(*(volatile RKPulseStatus *)&p->header.s & RKPulseStatusRingProcessed)) {
            usleep(200);
            if (++idle > 100000) { r = 1002; break; }
            continue;
        }
        __sync_synchronize();
        idle = 0;
        for (c = 0; c < 2; c++) {
            RKIQZ Z = RKGetSplitComplexDataFromPulse(p, c);
            memcpy(z + ((out * 2 + c) * 2) * cap, Z.i, cap * sizeof(RKFloat));
            memcpy(z + ((out * 2 + c) * 2 + 1) * cap, Z.q, cap * sizeof(RKFloat));
        }
        hdr[4 * out] = p->header.s;
        hdr[4 * out + 1] = p->header.gateCount;
        hdr[4 * out + 2] = p->header.downSampledGateCount;
        hdr[4 * out + 3] = (uint32_t)p->header.i;
        out++;
    }
    RKPulseRingFilterEngineStop(e);
    RKPulseRingFilterEngineFree(e);
    RKPulseBufferFree(buffer);
    return r;
}
