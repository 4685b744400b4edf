// Rays: calibration and censoring on their own, and the whole moment engine
#include <RadarKit.h>

extern RKFFTModule *vt_fft(uint32_t capacity);

// f: prt, noise h, noise v, systemZCal h, v, systemDCal, systemPCal, SNRThreshold, SQIThreshold, sweepElevation, sweepAzimuth,
//    then 8 x (ZCal h, ZCal v, DCal, PCal, sensitivityGain)
// u: startMarker, group count, filter count, then 8 x (inputOrigin, outputOrigin, maxDataLength)
#define VT_CF 51
#define VT_CU 27
static void vt_config(RKConfig *c, const float *f, const uint32_t *u) {
    int k;
    memset(c, 0, sizeof(*c));
    c->prt[0] = f[0];
    c->noise[0] = f[1];
    c->noise[1] = f[2];
    c->systemZCal[0] = f[3];
    c->systemZCal[1] = f[4];
    c->systemDCal = f[5];
    c->systemPCal = f[6];
    c->SNRThreshold = f[7];
    c->SQIThreshold = f[8];
    c->sweepElevation = f[9];
    c->sweepAzimuth = f[10];
    c->startMarker = u[0];
    c->waveform = RKWaveformInitWithCountAndDepth(u[1], 16);
    for (int g = 0; g < u[1]; g++) c->waveform->filterCounts[g] = u[2];
    for (k = 0; k < 8; k++) {
        c->ZCal[k][0] = f[11 + 5 * k];
        c->ZCal[k][1] = f[12 + 5 * k];
        c->DCal[k] = f[13 + 5 * k];
        c->PCal[k] = f[14 + 5 * k];
        if (k < u[2]) for (int g = 0; g < u[1]; g++) {
            RKFilterAnchor *a = &c->waveform->filterAnchors[g][k];
            a->sensitivityGain = f[15 + 5 * k];
            a->inputOrigin = u[3 + 3 * k];
            a->outputOrigin = u[4 + 3 * k];
            a->maxDataLength = u[5 + 3 * k];
        }
    }
    c->waveformDecimate = c->waveform;
}

static RKFloat *vt_scratch_field(RKMomentScratch *s, int i) {
    RKFloat *f[] = {s->Z[0], s->V[0], s->W[0], s->ZDR, s->PhiDP, s->RhoHV, s->KDP, s->S[0], s->S[1], s->Q[0], s->L[0], s->L[1],
                    s->RhoXP[0], s->RhoXP[1], s->PhiXP[0], s->PhiXP[1], s->Z[1], s->V[1], s->W[1], s->Q[1]};
    return f[i];
}

// Calibration arrays of one configuration. out: S2Z h, S2Z v, dcal, pcal, each of cap floats, preset to -7777
void vt_calibrate(uint32_t cap, const float *f, const uint32_t *u, uint32_t gates, float gateSize, float adjustment, RKFloat *out) {
    RKMomentScratch *s;
    RKConfig c;
    int k;
    vt_config(&c, f, u);
    RKMomentScratchAlloc(&s, cap, 0, "x");
    for (k = 0; k < cap; k++) s->S2Z[0][k] = s->S2Z[1][k] = s->dcal[k] = s->pcal[k] = -7777.0f;
    s->config = &c;
    s->gateCount = gates;
    s->gateSizeMeters = gateSize;
    s->samplingAdjustment = adjustment;
    RKCalibratorSimple(NULL, s);
    memcpy(out, s->S2Z[0], cap * sizeof(RKFloat));
    memcpy(out + cap, s->S2Z[1], cap * sizeof(RKFloat));
    memcpy(out + 2 * cap, s->dcal, cap * sizeof(RKFloat));
    memcpy(out + 3 * cap, s->pcal, cap * sizeof(RKFloat));
    RKMomentScratchFree(s);
    RKWaveformFree(c.waveform);
}

// n rays through one scratch space into slots of a ray buffer. x: n x 20 x cap, y: n x 19 x cap, g: gate counts
int vt_make_rays(uint32_t cap, int n, int depth, const uint32_t *g, const float *noise, const float *thres, const RKFloat *x, RKFloat *y) {
    RKBuffer rays;
    RKMomentScratch *s;
    RKConfig c;
    int k, i, rc = 0;
    memset(&c, 0, sizeof(c));
    RKRayBufferAlloc(&rays, cap, depth + 1);
    RKMomentScratchAlloc(&s, cap, 0, "x");
    s->config = &c;
    for (k = 0; k < n; k++) {
        s->gateCount = g[k];
        s->noise[0] = noise[2 * k];
        s->noise[1] = noise[2 * k + 1];
        c.SNRThreshold = thres[2 * k];
        c.SQIThreshold = thres[2 * k + 1];
        for (i = 0; i < 20; i++) memcpy(vt_scratch_field(s, i), x + (k * 20 + i) * cap, g[k] * sizeof(RKFloat));
        RKRay *r = RKGetRayFromBuffer(rays, k % depth);
        makeRayFromScratch(s, r);
        if (r->header.gateCount != g[k]) rc = 1 + k;
        if (r->header.capacity != cap) rc = -1;
        for (i = 0; i < 19; i++) memcpy(y + (k * 19 + i) * cap, RKGetFloatDataFromRay(r, i), cap * sizeof(RKFloat));
        RKRay *guard = RKGetRayFromBuffer(rays, depth);
        if (guard->header.capacity != cap || guard->header.s) rc = -2;
    }
    RKMomentScratchFree(s);
    RKRayBufferFree(rays);
    return rc;
}

// One ray from its pulses, processed alone. p: pulse numbers, x: pulses x 2 x 2 x cap; cal as in vt_calibrate
int vt_ray_alone(uint32_t cap, const float *f, const uint32_t *u, uint32_t gates, int n, const uint32_t *p, const RKFloat *x,
                 const RKFloat *cal, const float *factors, RKFloat *y) {
    RKMomentScratch *s;
    RKBuffer pulses, rays;
    RKConfig c;
    RKPulse **q = (RKPulse **)malloc(n * sizeof(RKPulse *));
    int j, i;
    vt_config(&c, f, u);
    RKPulseBufferAlloc(&pulses, cap, n);
    RKRayBufferAlloc(&rays, cap, 1);
    RKMomentScratchAlloc(&s, cap, 0, "x");
    for (j = 0; j < n; j++) {
        q[j] = RKGetPulseFromBuffer(pulses, j);
        q[j]->header.i = p[j];
        q[j]->header.gateCount = gates;
        q[j]->header.downSampledGateCount = gates;
        for (i = 0; i < 2; i++) {
            RKIQZ Z = RKGetSplitComplexDataFromPulse(q[j], i);
            memcpy(Z.i, x + ((size_t)p[j] * 2 + i) * 2 * cap, cap * sizeof(RKFloat));
            memcpy(Z.q, x + (((size_t)p[j] * 2 + i) * 2 + 1) * cap, cap * sizeof(RKFloat));
        }
    }
    prepareScratch(s);
    s->config = &c;
    s->gateCount = gates;
    s->noise[0] = c.noise[0];
    s->noise[1] = c.noise[1];
    s->velocityFactor = factors[0];
    s->widthFactor = factors[1];
    memcpy(s->S2Z[0], cal, cap * sizeof(RKFloat));
    memcpy(s->S2Z[1], cal + cap, cap * sizeof(RKFloat));
    memcpy(s->dcal, cal + 2 * cap, cap * sizeof(RKFloat));
    memcpy(s->pcal, cal + 3 * cap, cap * sizeof(RKFloat));
    RKPulsePair(s, q, n);
    RKRay *r = RKGetRayFromBuffer(rays, 0);
    makeRayFromScratch(s, r);
    for (i = 0; i < 19; i++) memcpy(y + i * cap, RKGetFloatDataFromRay(r, i), cap * sizeof(RKFloat));
    free(q);
    RKMomentScratchFree(s);
    RKRayBufferFree(rays);
    RKPulseBufferFree(pulses);
    RKWaveformFree(c.waveform);
    return 0;
}

// ---- recording moment processor
typedef struct { uint32_t first, n, gates, ordered; float noise[2], vf, wf, gateSize, adj; } VTCall;
static VTCall *vt_calls;
static int vt_call_count, vt_call_max;
static RKFloat *vt_cals;
static uint32_t vt_cap;
static pthread_mutex_t vt_lock = PTHREAD_MUTEX_INITIALIZER;

static int vt_processor(RKMomentScratch *s, RKPulse **p, const uint16_t n) {
    int k;
    pthread_mutex_lock(&vt_lock);
    if (vt_call_count < vt_call_max) {
        VTCall *c = &vt_calls[vt_call_count];
        c->first = (uint32_t)p[0]->header.i;
        c->n = n;
        c->ordered = 1;
        for (k = 0; k < n; k++) if (p[k]->header.i != p[0]->header.i + k) c->ordered = 0;
        c->gates = s->gateCount;
        c->noise[0] = s->noise[0];
        c->noise[1] = s->noise[1];
        c->vf = s->velocityFactor;
        c->wf = s->widthFactor;
        c->gateSize = s->gateSizeMeters;
        c->adj = s->samplingAdjustment;
        RKFloat *o = vt_cals + (size_t)vt_call_count * 4 * vt_cap;
        memcpy(o, s->S2Z[0], s->capacity * sizeof(RKFloat));
        memcpy(o + vt_cap, s->S2Z[1], s->capacity * sizeof(RKFloat));
        memcpy(o + 2 * vt_cap, s->dcal, s->capacity * sizeof(RKFloat));
        memcpy(o + 3 * vt_cap, s->pcal, s->capacity * sizeof(RKFloat));
    }
    vt_call_count++;
    pthread_mutex_unlock(&vt_lock);
    return RKPulsePair(s, p, n);
}

// Pulses: hu n x (marker, positionIndex, configIndex, gateCount, downSampledGateCount, compressed), hf n x (azimuth, elevation, gateSize),
// hd n (time). need[k]: rays that must have been consumed before pulse k is written. total: rays to expect.
// Rays out: ru total x (s, i, marker, configIndex, gateCount, pulseCount), rf total x (gateSize, sweepEl, sweepAz, startAz, startEl, endAz, endEl),
// rd total x (startTime, endTime, startTimeDouble, endTimeDouble), ry total x 19 x rayCap
int vt_moment_engine(uint32_t cap, uint32_t depth, uint32_t ratio, uint32_t rayDepth, int cores, int exclude, float wavelength,
                     int configs, const float *cf, const uint32_t *cu, int n, const uint32_t *hu, const float *hf, const double *hd, const RKFloat *x,
                     const uint32_t *needed, int total, int burst, uint32_t *ru, float *rf, double *rd, RKFloat *ry, void *calls, int *callCount, RKFloat *cals) {
    RKBuffer pulses, rays;
    RKRadarDesc desc;
    RKConfig *config = (RKConfig *)calloc(configs, sizeof(RKConfig));
    uint32_t configIndex = 0;
    volatile uint32_t pulseIndex = 0, rayIndex = 0;
    int i, j, k, rc = 0;
    const uint32_t rayCap = cap / ratio;
    memset(&desc, 0, sizeof(desc));
    desc.pulseCapacity = cap;
    desc.pulseBufferDepth = depth;
    desc.rayBufferDepth = rayDepth;
    desc.configBufferDepth = configs;
    desc.pulseToRayRatio = ratio;
    desc.wavelength = wavelength;
    for (k = 0; k < configs; k++) vt_config(&config[k], cf + k * VT_CF, cu + k * VT_CU);
    RKPulseBufferAlloc(&pulses, cap, depth);
    RKRayBufferAlloc(&rays, rayCap, rayDepth);
    vt_calls = (VTCall *)calls;
    vt_call_count = 0;
    vt_call_max = total;
    vt_cals = cals;
    vt_cap = rayCap;
    RKMomentEngine *e = RKMomentEngineInit();
    RKMomentEngineSetEssentials(e, &desc, vt_fft(2048), config, &configIndex, pulses, (uint32_t *)&pulseIndex, rays, (uint32_t *)&rayIndex);
    RKMomentEngineSetCoreCount(e, cores);
    RKMomentEngineSetMomentProcessor(e, vt_processor);
    RKMomentEngineSetExcludeBoundaryPulses(e, exclude);
    if (RKMomentEngineStart(e) != RKResultSuccess) return 1001;
    int in = 0, out = 0, idle = 0;
    while (in < n || out < total) {
        int b = 0;
        while (in < n && out >= needed[in] && b < burst) {
            RKPulse *p = RKGetPulseFromBuffer(pulses, in % depth);
            const uint32_t *u = hu + in * 6;
            const float *f = hf + in * 3;
            p->header.s = RKPulseStatusVacant;
            p->header.i = in;
            p->header.marker = u[0];
            p->header.positionIndex = u[1];
            p->header.configIndex = u[2];
            p->header.gateCount = u[3];
            p->header.downSampledGateCount = u[4];
            p->header.azimuthDegrees = f[0];
            p->header.elevationDegrees = f[1];
            p->header.gateSizeMeters = f[2];
            p->header.timeDouble = hd[in];
            p->header.time.tv_sec = (time_t)hd[in];
            p->header.time.tv_usec = (suseconds_t)(1.0e6 * (hd[in] - floor(hd[in])));
            for (i = 0; i < 2; i++) {
                RKIQZ Z = RKGetSplitComplexDataFromPulse(p, i);
                memcpy(Z.i, x + ((size_t)in * 2 + i) * 2 * rayCap, rayCap * sizeof(RKFloat));
                memcpy(Z.q, x + (((size_t)in * 2 + i) * 2 + 1) * rayCap, rayCap * sizeof(RKFloat));
            }
            __sync_synchronize();
            p->header.s = RKPulseStatusReadyForMomentEngine | (u[5] ? RKPulseStatusCompressed : RKPulseStatusSkipped);
            __sync_synchronize();
            pulseIndex = (in + 1) % depth;
            in++;
            b++;
        }
        RKRay *r = RKMomentEngineGetProcessedRay(e, false);
        if (r == NULL) {
            if (b == 0) {
                usleep(200);
                if (++idle > 60000) { rc = e->almostFull ? 1004 : 1002; break; }
            }
            continue;
        }
        idle = 0;
        if (out == total) { rc = 1003; break; }
        ru[6 * out] = r->header.s;
        ru[6 * out + 1] = (uint32_t)r->header.i;
        ru[6 * out + 2] = r->header.marker;
        ru[6 * out + 3] = r->header.configIndex;
        ru[6 * out + 4] = r->header.gateCount;
        ru[6 * out + 5] = r->header.pulseCount;
        float *o = rf + 7 * out;
        o[0] = r->header.gateSizeMeters;
        o[1] = r->header.sweepElevation;
        o[2] = r->header.sweepAzimuth;
        o[3] = r->header.startAzimuth;
        o[4] = r->header.startElevation;
        o[5] = r->header.endAzimuth;
        o[6] = r->header.endElevation;
        rd[4 * out] = r->header.startTime.tv_sec + 1.0e-6 * r->header.startTime.tv_usec;
        rd[4 * out + 1] = r->header.endTime.tv_sec + 1.0e-6 * r->header.endTime.tv_usec;
        rd[4 * out + 2] = r->header.startTimeDouble;
        rd[4 * out + 3] = r->header.endTimeDouble;
        for (i = 0; i < 19; i++) memcpy(ry + ((size_t)out * 19 + i) * rayCap, RKGetFloatDataFromRay(r, i), rayCap * sizeof(RKFloat));
        out++;
    }
    if (rc == 0) {
        usleep(2000);
        if (RKMomentEngineGetProcessedRay(e, false)) rc = 1003;
    }
    RKMomentEngineStop(e);
    RKMomentEngineFree(e);
    *callCount = vt_call_count;
    for (k = 0; k < configs; k++) RKWaveformFree(config[k].waveform);
    free(config);
    RKPulseBufferFree(pulses);
    RKRayBufferFree(rays);
    return rc;
}
