// Raw I/Q recorder, and reading its files back
#include <RadarKit.h>
#include "vt.h"

void vt_rawio_sizes(int *s) {
    s[0] = sizeof(RKPulseHeader);
    s[1] = sizeof(RKConfig);
    s[2] = sizeof(RKWaveFileGlobalHeader);
    s[3] = sizeof(RKFilterAnchor);
    s[4] = sizeof(RKFileHeader);
    s[5] = RKMaximumWaveformCount;
    s[6] = RKMaximumFilterCount;
}

// Waveform from a global header, anchors [count][8], samples and integer samples [count][depth]
static RKWaveform *vt_wave(const RKWaveFileGlobalHeader *h, const RKFilterAnchor *a, const RKComplex *s, const RKInt16C *i) {
    RKWaveform *w = RKWaveformInitWithCountAndDepth(h->count, h->depth);
    strcpy(w->name, h->name);
    w->type = h->type;
    w->fc = h->fc;
    w->fs = h->fs;
    for (int k = 0; k < h->count; k++) {
        w->filterCounts[k] = h->filterCounts[k];
        memcpy(w->filterAnchors[k], a + k * RKMaximumFilterCount, RKMaximumFilterCount * sizeof(RKFilterAnchor));
        memcpy(w->samples[k], s + k * h->depth, h->depth * sizeof(RKComplex));
        memcpy(w->iSamples[k], i + k * h->depth, h->depth * sizeof(RKInt16C));
    }
    return w;
}

static RKRawDataRecorder *vt_rec;
static volatile bool vt_rec_value;
static void vt_rec_hook(void) {
    if (pthread_equal(pthread_self(), vt_rec->tidPulseRecorder)) {
        vt_time_hook = NULL;
        RKRawDataRecorderSetRecord(vt_rec, vt_rec_value);
    }
}

// u: capacity, pulse buffer depth, data type, cache size, maximum record depth, configurations, pulses, record at first, ratio
// d: latitude, longitude, heading, radar height, wavelength
// ev: 1 record on, 2 record off before the pulse; 3, 4 the same, at the end of the handling of the pulse before; 8: wait for the recorder first
// late: 1 the pulse is marked as used only some time after the pulse index moved on
// left: bytes the disk takes (-1: any number)
int vt_record(const char *path, const char *prefix, const uint32_t *u, const double *d, const uint8_t *configs, const uint8_t *heads, const uint8_t *anchors, const uint8_t *samples,
              const uint8_t *isamples, const uint32_t *offs, const uint8_t *pulseHeaders, const uint8_t *x, const uint8_t *y, const uint8_t *ev, const uint8_t *late, int64_t left) {
    const uint32_t cap = u[0], depth = u[1], ncfg = u[5], n = u[6];
    int i, k, rc = 0;
    RKRadarDesc desc;
    memset(&desc, 0, sizeof(desc));
    strcpy(desc.dataPath, path);
    strcpy(desc.filePrefix, prefix);
    strcpy(desc.name, "verif");
    desc.pulseCapacity = cap;
    desc.pulseBufferDepth = depth;
    desc.pulseToRayRatio = u[8];
    desc.configBufferDepth = ncfg;
    desc.latitude = d[0];
    desc.longitude = d[1];
    desc.heading = d[2];
    desc.radarHeight = d[3];
    desc.wavelength = d[4];
    RKConfig *config = (RKConfig *)calloc(ncfg, sizeof(RKConfig));
    for (k = 0; k < ncfg; k++) {
        memcpy(&config[k], configs + k * sizeof(RKConfig), sizeof(RKConfig));
        config[k].waveform = vt_wave((RKWaveFileGlobalHeader *)heads + k, (RKFilterAnchor *)anchors + k * RKMaximumWaveformCount * RKMaximumFilterCount,
                                     (RKComplex *)samples + offs[k], (RKInt16C *)isamples + offs[k]);
        config[k].waveformDecimate = config[k].waveform;
    }
    RKBuffer pulses;
    RKPulseBufferAlloc(&pulses, cap, depth);
    volatile uint32_t pulseIndex = 0;
    uint32_t configIndex = 0;
    RKRawDataRecorder *e = RKRawDataRecorderInit();
    RKRawDataRecorderSetEssentials(e, &desc, NULL, config, &configIndex, pulses, (uint32_t *)&pulseIndex);
    RKRawDataRecorderSetCacheSize(e, u[3]);
    RKRawDataRecorderSetMaximumRecordDepth(e, u[4]);
    RKRawDataRecorderSetRawDataType(e, u[2]);
    RKRawDataRecorderSetRecord(e, u[7]);
    vt_rec = e;
    vt_usleep_divide = 100;
    vt_write_left = left;
    if (RKRawDataRecorderStart(e) != RKResultSuccess) return 1001;
    volatile uint64_t *tic = &e->tic;
    int waited = 0;
    #define WAIT(m) for (waited = 0; *tic < (m) && rc == 0; waited++) { usleep(50); if (waited > 100000) rc = 1002; }
    WAIT(1)
    for (k = 0; k < n && rc == 0; k++) {
        if (k + 1 >= depth) WAIT(1 + k + 2 - depth)
        if (ev[k] & 8) WAIT(1 + k)
        if ((ev[k] & 7) == 1 || (ev[k] & 7) == 2) RKRawDataRecorderSetRecord(e, (ev[k] & 7) == 1);
        if (k + 1 < n && ((ev[k + 1] & 7) == 3 || (ev[k + 1] & 7) == 4)) {
            WAIT(1 + k)
            vt_rec_value = (ev[k + 1] & 7) == 3;
            vt_time_hook = vt_rec_hook;
        }
        RKPulse *p = RKGetPulseFromBuffer(pulses, k % depth);
        RKPulseHeader h;
        memcpy(&h, pulseHeaders + k * sizeof(RKPulseHeader), sizeof(h));
        h.capacity = cap;
        h.s = 0;
        memcpy(&p->header, &h, sizeof(h));
        for (i = 0; i < 2; i++) {
            memcpy(RKGetInt16CDataFromPulse(p, i), x + ((size_t)k * 2 + i) * cap * sizeof(RKInt16C), cap * sizeof(RKInt16C));
            memcpy(RKGetComplexDataFromPulse(p, i), y + ((size_t)k * 2 + i) * cap * sizeof(RKComplex), cap * sizeof(RKComplex));
        }
        __sync_synchronize();
        if (late[k]) {
            pulseIndex = (k + 1) % depth;
            usleep(150);
            __sync_synchronize();
            p->header.s = RKPulseStatusReadyForMomentEngine | RKPulseStatusUsedForMoments;
        } else {
            p->header.s = RKPulseStatusReadyForMomentEngine | RKPulseStatusUsedForMoments;
            __sync_synchronize();
            pulseIndex = (k + 1) % depth;
        }
    }
    WAIT(1 + n)
    vt_time_hook = NULL;
    RKRawDataRecorderStop(e);
    RKRawDataRecorderFree(e);
    vt_write_left = -1;
    vt_usleep_divide = 1;
    for (k = 0; k < ncfg; k++) RKWaveformFree(config[k].waveform);
    free(config);
    RKPulseBufferFree(pulses);
    return rc;
}

// Reads a raw data file. Returns the number of pulses, negative on failure:  -1 no file, -2 exit() in the header
// o: data type, version, ratio, result of the last read;  d as above
int vt_read_raw(const char *name, const uint32_t cap, const int most, uint32_t *o, double *d, uint8_t *config, uint8_t *head, uint8_t *anchors, uint8_t *samples, uint8_t *isamples,
                const int waveMost, uint8_t *headers, uint8_t *x, uint8_t *y, uint8_t *z, char *prefix) {
    FILE *fid = fopen(name, "rb");
    if (fid == NULL) return -1;
    jmp_buf jb;
    RKFileHeader *volatile f = NULL;
    vt_exit_jump = &jb;
    if (setjmp(jb)) {
        vt_exit_jump = NULL;
        fclose(fid);
        return -2;
    }
    f = RKFileHeaderRead(fid);
    vt_exit_jump = NULL;
    o[0] = f->dataType;
    o[1] = f->version;
    o[2] = f->desc.pulseToRayRatio;
    d[0] = f->desc.latitude;
    d[1] = f->desc.longitude;
    d[2] = f->desc.heading;
    d[3] = f->desc.radarHeight;
    d[4] = f->desc.wavelength;
    memcpy(prefix, f->desc.filePrefix, RKMaximumPrefixLength);
    memcpy(config, &f->config, sizeof(RKConfig));
    RKWaveform *w = f->config.waveform;
    RKWaveFileGlobalHeader *h = (RKWaveFileGlobalHeader *)head;
    memset(h, 0, sizeof(*h));
    h->count = w->count;
    h->depth = w->depth;
    h->type = w->type;
    h->fc = w->fc;
    h->fs = w->fs;
    strncpy(h->name, w->name, RKNameLength - 1);
    memcpy(h->filterCounts, w->filterCounts, sizeof(h->filterCounts));
    memcpy(anchors, w->filterAnchors, sizeof(w->filterAnchors));
    for (int k = 0; k < w->count && (k + 1) * w->depth <= waveMost; k++) {
        memcpy(samples + k * w->depth * sizeof(RKComplex), w->samples[k], w->depth * sizeof(RKComplex));
        memcpy(isamples + k * w->depth * sizeof(RKInt16C), w->iSamples[k], w->depth * sizeof(RKInt16C));
    }
    RKBuffer buffer;
    RKPulseBufferAlloc(&buffer, cap, 1);
    RKPulse *p = RKGetPulseFromBuffer(buffer, 0);
    int n = 0, r = 0;
    while (n < most) {
        for (int i = 0; i < 2; i++) {
            memset(RKGetInt16CDataFromPulse(p, i), 0, cap * sizeof(RKInt16C));
            memset(RKGetComplexDataFromPulse(p, i), 0, cap * sizeof(RKComplex));
            RKIQZ Z = RKGetSplitComplexDataFromPulse(p, i);
            memset(Z.i, 0, cap * sizeof(RKFloat));
            memset(Z.q, 0, cap * sizeof(RKFloat));
        }
        r = RKReadPulseFromFileReference(p, f, fid);
        if (r != RKResultSuccess) break;
        memcpy(headers + n * sizeof(RKPulseHeader), &p->header, sizeof(RKPulseHeader));
        for (int i = 0; i < 2; i++) {
            memcpy(x + ((size_t)n * 2 + i) * cap * sizeof(RKInt16C), RKGetInt16CDataFromPulse(p, i), cap * sizeof(RKInt16C));
            memcpy(y + ((size_t)n * 2 + i) * cap * sizeof(RKComplex), RKGetComplexDataFromPulse(p, i), cap * sizeof(RKComplex));
            RKIQZ Z = RKGetSplitComplexDataFromPulse(p, i);
            memcpy(z + ((size_t)n * 4 + 2 * i) * cap * sizeof(RKFloat), Z.i, cap * sizeof(RKFloat));
            memcpy(z + ((size_t)n * 4 + 2 * i + 1) * cap * sizeof(RKFloat), Z.q, cap * sizeof(RKFloat));
        }
        n++;
    }
    o[3] = r;
    RKReadPulseFromFileReference(p, f, NULL);
    RKWaveformFree(f->config.waveform);
    RKWaveformFree(f->config.waveformDecimate);
    free((void *)f);
    RKPulseBufferFree(buffer);
    fclose(fid);
    return n;
}

// A version 5 file header. f: noise, calibrations and thresholds in order (6 + 16 + 8 + 8 + 2)
void vt_v1_header(uint8_t *out, int type, int ratio, const double *d, const char *prefix, const RKFilterAnchor *a, int n, const float *f) {
    RKFileHeaderV1 *h = (RKFileHeaderV1 *)calloc(1, sizeof(RKFileHeaderV1));
    strcpy(h->preface, "RadarKit/IQ");
    h->buildNo = 5;
    h->dataType = type;
    h->desc.pulseToRayRatio = ratio;
    h->desc.latitude = d[0];
    h->desc.longitude = d[1];
    h->desc.heading = d[2];
    h->desc.radarHeight = d[3];
    h->desc.wavelength = d[4];
    strcpy(h->desc.filePrefix, prefix);
    h->config.filterCount = n;
    memcpy(h->config.filterAnchors, a, n * sizeof(RKFilterAnchor));
    h->config.prt[0] = 1.0e-3f;
    h->config.prt[1] = 2.0e-3f;
    h->config.pw[0] = 3.0e-6f;
    h->config.pw[1] = 4.0e-6f;
    h->config.pulseGateSize = 30.0f;
    memcpy(h->config.noise, f, 40 * sizeof(float));
    strcpy(h->config.waveform, "s01");
    memcpy(out, h, sizeof(RKFileHeaderV1));
    free(h);
}

void vt_v1_config(const uint8_t *b, float *o) {
    RKConfig *c = (RKConfig *)b;
    int k, n = 0;
    o[n++] = c->noise[0];
    o[n++] = c->noise[1];
    o[n++] = c->systemZCal[0];
    o[n++] = c->systemZCal[1];
    o[n++] = c->systemDCal;
    o[n++] = c->systemPCal;
    for (k = 0; k < 8; k++) {
        o[n++] = c->ZCal[k][0];
        o[n++] = c->ZCal[k][1];
    }
    for (k = 0; k < 8; k++) o[n++] = c->DCal[k];
    for (k = 0; k < 8; k++) o[n++] = c->PCal[k];
    o[n++] = c->SNRThreshold;
    o[n++] = c->SQIThreshold;
    o[n++] = c->prt[0];
    o[n++] = c->prt[1];
    o[n++] = c->pw[0];
    o[n++] = c->pw[1];
}

// o: groups, depth, number of filters that reach outside. Returns 1 if a waveform came back
int vt_read_wave(const char *name, int *o) {
    RKWaveform *w = RKWaveformInitFromFile(name);
    if (w == NULL) return 0;
    o[0] = w->count;
    o[1] = w->depth;
    o[2] = 0;
    for (int k = 0; k < w->count; k++)
        for (int j = 0; j < w->filterCounts[k]; j++)
            if ((uint64_t)w->filterAnchors[k][j].origin + w->filterAnchors[k][j].length > w->depth) o[2]++;
    RKWaveformFree(w);
    return 1;
}
