// The sweep engine, ray by ray, with a product recorder that keeps what it gets
#include <RadarKit.h>
#include "vt.h"

typedef struct {
    uint32_t marker, configIndex, gateCount, products, serial, pad;
    int64_t startSec, endSec;
    float a0, a1, e0, e1, gateSize, pad2;
} VtRay;

typedef struct {
    char filename[RKMaximumPathLength];
    RKProduct *product;         // the address in the engine
    RKProduct copy;
    int64_t order;
} VtRecord;

typedef struct {
    RKSweepEngine *engine;
    RKRadarDesc desc;
    RKConfig *configs;
    uint32_t configIndex, rayIndex, depth;
    RKBuffer rays;
} VtSweep;

static RKSweepEngine *proto = NULL;
static VtRecord *records = NULL;
static int recordCount = 0, recordFail = 0;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cond = PTHREAD_COND_INITIALIZER;
static int held = 0, waiting = 0;

static RKFloat *vt_dup(const RKFloat *a, size_t n) {
    RKFloat *b = (RKFloat *)malloc(MAX(n, 1) * sizeof(RKFloat));
    memcpy(b, a, n * sizeof(RKFloat));
    return b;
}

static int recorder(RKProduct *p, const char *filename) {
    pthread_mutex_lock(&lock);
    while (held) {
        waiting = 1;
        pthread_cond_broadcast(&cond);
        pthread_cond_wait(&cond, &lock);
    }
    waiting = 0;
    records = (VtRecord *)realloc(records, (recordCount + 1) * sizeof(VtRecord));
    VtRecord *r = &records[recordCount++];
    memset(r, 0, sizeof(*r));
    strncpy(r->filename, filename, sizeof(r->filename) - 1);
    r->product = p;
    r->copy = *p;
    r->copy.startAzimuth = vt_dup(p->startAzimuth, p->header.rayCount);
    r->copy.endAzimuth = vt_dup(p->endAzimuth, p->header.rayCount);
    r->copy.startElevation = vt_dup(p->startElevation, p->header.rayCount);
    r->copy.endElevation = vt_dup(p->endElevation, p->header.rayCount);
    r->copy.data = vt_dup(p->data, (size_t)p->header.rayCount * p->header.gateCount);
    pthread_mutex_unlock(&lock);
    return recordFail ? RKResultIncompleteSend : RKResultSuccess;
}

void vt_sweep_records_free(void) {
    for (int k = 0; k < recordCount; k++) {
        RKProduct *p = &records[k].copy;
        free(p->startAzimuth); free(p->endAzimuth); free(p->startElevation); free(p->endElevation); free(p->data);
    }
    free(records);
    records = NULL;
    recordCount = 0;
}

int vt_sweep_record_count(void) { pthread_mutex_lock(&lock); int n = recordCount; pthread_mutex_unlock(&lock); return n; }
const char *vt_sweep_record_name(int k) { return records[k].filename; }
RKProduct *vt_sweep_record(int k) { return &records[k].copy; }
void vt_sweep_fail(int v) { recordFail = v; }

void vt_sweep_hold(int v) {
    pthread_mutex_lock(&lock);
    held = v;
    pthread_cond_broadcast(&cond);
    pthread_mutex_unlock(&lock);
}

// Waits until the recorder is being held, 0 = it is
int vt_sweep_wait_held(int ms) {
    struct timespec t;
    int r = 0;
    clock_gettime(CLOCK_REALTIME, &t);
    t.tv_sec += ms / 1000;
    t.tv_nsec += ms % 1000 * 1000000;
    if (t.tv_nsec >= 1000000000) { t.tv_sec++; t.tv_nsec -= 1000000000; }
    pthread_mutex_lock(&lock);
    while (!waiting && r == 0) r = pthread_cond_timedwait(&cond, &lock, &t);
    pthread_mutex_unlock(&lock);
    return r;
}

VtSweep *vt_sweep_new(uint32_t depth, uint32_t capacity, uint32_t configDepth, uint32_t baseProductList, const char *dataPath, const char *prefix, const char *name, const double *d) {
    if (proto == NULL) {
        proto = RKSweepEngineInit();
        RKProductBufferFree(proto->productBuffer, proto->productBufferDepth);
        proto->productBuffer = NULL;
    }
    VtSweep *s = (VtSweep *)calloc(1, sizeof(VtSweep));
    s->engine = (RKSweepEngine *)malloc(sizeof(RKSweepEngine));
    memcpy(s->engine, proto, sizeof(RKSweepEngine));
    pthread_mutex_init(&s->engine->productMutex, NULL);
    RKProductBufferAlloc(&s->engine->productBuffer, s->engine->productBufferDepth, RKMaximumRaysPerSweep, 1);
    s->depth = s->desc.rayBufferDepth = depth;
    s->desc.configBufferDepth = configDepth;
    strncpy(s->desc.dataPath, dataPath, sizeof(s->desc.dataPath) - 1);
    strncpy(s->desc.filePrefix, prefix, sizeof(s->desc.filePrefix) - 1);
    strncpy(s->desc.name, name, sizeof(s->desc.name) - 1);
    s->desc.latitude = d[0];
    s->desc.longitude = d[1];
    s->desc.heading = d[2];
    s->desc.radarHeight = d[3];
    s->desc.wavelength = d[4];
    s->configs = (RKConfig *)calloc(configDepth, sizeof(RKConfig));
    RKRayBufferAlloc(&s->rays, capacity, depth);
    RKSweepEngineSetEssentials(s->engine, &s->desc, NULL, s->configs, &s->configIndex, s->rays, &s->rayIndex);
    RKSweepEngineSetProductRecorder(s->engine, recorder);
    s->engine->baseProductList = baseProductList;
    vt_sweep_records_free();
    recordFail = held = waiting = 0;
    return s;
}

void vt_sweep_delete(VtSweep *s) {
    RKSweepEngineFree(s->engine);
    RKRayBufferFree(s->rays);
    free(s->configs);
    free(s);
    vt_sweep_records_free();
    vt_usleep_divide = 1;
}

void vt_sweep_config(VtSweep *s, int k, uint32_t marker, float el, float az, const float *f, const char *waveform, const char *vcp) {
    RKConfig *c = &s->configs[k];
    c->i = 100 + k;
    c->startMarker = marker;
    c->sweepElevation = el;
    c->sweepAzimuth = az;
    for (int j = 0; j < 8; j++) {
        c->prt[j] = f[j];
        c->pw[j] = f[8 + j];
        c->ZCal[j][0] = f[16 + j];
        c->ZCal[j][1] = f[24 + j];
        c->DCal[j] = f[32 + j];
        c->PCal[j] = f[40 + j];
    }
    c->noise[0] = f[48];
    c->noise[1] = f[49];
    c->systemZCal[0] = f[50];
    c->systemZCal[1] = f[51];
    c->systemDCal = f[52];
    c->systemPCal = f[53];
    c->SNRThreshold = f[54];
    c->SQIThreshold = f[55];
    strncpy(c->waveformName, waveform, sizeof(c->waveformName) - 1);
    strncpy(c->vcpDefinition, vcp, sizeof(c->vcpDefinition) - 1);
}

int vt_sweep_start(VtSweep *s) {
    vt_usleep_divide = 1000;
    int r = RKSweepEngineStart(s->engine);
    s->engine->processedRayIndex = (uint32_t)-1;
    return r;
}
int vt_sweep_stop(VtSweep *s) { return RKSweepEngineStop(s->engine); }
void vt_sweep_record_set(VtSweep *s, int v) { RKSweepEngineSetRecord(s->engine, v); }
void vt_sweep_script(VtSweep *s, const char *f, int flag) { RKSweepEngineSetFilesHandlingScript(s->engine, f, flag); }

// Feeds n rays like a moment engine. Ray values: serial * 19 + product + gate / 64. Returns 0 when all of them were taken on by the engine within some 20 s
int vt_sweep_feed(VtSweep *s, const VtRay *v, int n, int wait) {
    for (int k = 0; k < n; k++) {
        RKRay *r = RKGetRayFromBuffer(s->rays, s->rayIndex);
        r->header.s = RKRayStatusVacant;
        r->header.i = v[k].serial;
        r->header.marker = v[k].marker;
        r->header.configIndex = v[k].configIndex;
        r->header.gateCount = v[k].gateCount;
        r->header.gateSizeMeters = v[k].gateSize;
        r->header.baseProductList = v[k].products;
        r->header.startTime.tv_sec = v[k].startSec;
        r->header.endTime.tv_sec = v[k].endSec;
        r->header.startTimeDouble = v[k].startSec;
        r->header.endTimeDouble = v[k].endSec;
        r->header.startAzimuth = v[k].a0;
        r->header.endAzimuth = v[k].a1;
        r->header.startElevation = v[k].e0;
        r->header.endElevation = v[k].e1;
        for (int p = 0; p < RKBaseProductIndexCount; p++) {
            RKFloat *x = RKGetFloatDataFromRay(r, p);
            for (int g = 0; g < v[k].gateCount; g++) x[g] = (RKFloat)v[k].serial * 19.0f + (RKFloat)p + (RKFloat)g / 64.0f;
        }
        __sync_synchronize();
        r->header.s = RKRayStatusReady;
        __sync_synchronize();
        const uint32_t j = s->rayIndex;
        *(volatile uint32_t *)&s->rayIndex = RKNextModuloS(j, s->depth);
        if (wait && (k + 1 == n || (k + 1) % 4 == 0)) {
            int w = 0;
            while (*(volatile uint32_t *)&s->engine->processedRayIndex != j) {
                usleep(50);
                if (++w > 200000) return 1;
            }
        }
    }
    return 0;
}

// Waits until so many sweeps are in progress, 0 = so it is
int vt_sweep_settle(VtSweep *s, int business) {
    for (int w = 0; *(volatile uint32_t *)&s->engine->business != business; w++) {
        usleep(50);
        if (w > 200000) return 1;
    }
    return 0;
}

int vt_sweep_business(VtSweep *s) { return *(volatile uint32_t *)&s->engine->business; }
void vt_sweep_flush(VtSweep *s) { RKSweepEngineFlush(s->engine); }
uint32_t vt_sweep_status(VtSweep *s, int k) { return RKGetRayFromBuffer(s->rays, k)->header.s; }
int vt_sweep_index(VtSweep *s) { return s->engine->sweepIndex; }
const char *vt_sweep_summary(VtSweep *s) { return s->engine->scratchSpaces[s->engine->lastRecordedScratchSpaceIndex].summary; }
RKProduct *vt_sweep_slot(VtSweep *s, int k) { return &s->engine->productBuffer[k]; }
uint32_t vt_sweep_slot_flag(VtSweep *s, int k) { return s->engine->productBuffer[k].flag; }
int vt_sweep_slot_id(VtSweep *s, int k) { return s->engine->productBuffer[k].pid; }
const char *vt_sweep_slot_symbol(VtSweep *s, int k) { return s->engine->productBuffer[k].desc.symbol; }

int vt_sweep_describe(VtSweep *s, const char *symbol, uint32_t list) {
    RKProductDesc d;
    memset(&d, 0, sizeof(d));
    strncpy(d.symbol, symbol, sizeof(d.symbol) - 1);
    strncpy(d.name, symbol, sizeof(d.name) - 1);
    d.baseProductList = list;
    return RKSweepEngineDescribeProduct(s->engine, d);
}
int vt_sweep_undescribe(VtSweep *s, int id) { return RKSweepEngineUndescribeProduct(s->engine, id); }
int vt_sweep_vacant_slot(VtSweep *s, int id) {
    RKProduct *p = RKSweepEngineGetVacantProduct(s->engine, NULL, id);
    return p ? (int)(p - s->engine->productBuffer) : -1;
}
int vt_sweep_complete(VtSweep *s, int slot, uint64_t i) {
    static RKSweep w;
    w.header.config.i = i;
    int r = RKSweepEngineSetProductComplete(s->engine, &w, &s->engine->productBuffer[slot]);
    return r ? r : s->engine->productBuffer[slot].i == i ? 0 : -1;
}
int vt_sweep_reserved(VtSweep *s) { return (*(volatile uint32_t *)&s->engine->state & RKEngineStateReserved) != 0; }
// For messages
const char *vt_sweep_state(VtSweep *s) {
    static char m[256];
    RKSweepEngine *e = s->engine;
    RKRay *r = RKGetRayFromBuffer(s->rays, RKPreviousModuloS(s->rayIndex, s->depth));
    snprintf(m, sizeof(m), "state %#x, ray index %u, processed %d, tic %llu, business %d, last ray s %#x marker %#x", e->state, s->rayIndex, (int)e->processedRayIndex, (unsigned long long)e->tic, e->business, r->header.s, r->header.marker);
    return m;
}
