// Product files: one product to and from a file, collections, sweeps
#include <RadarKit.h>

typedef struct {
    char name[128], unit[128], colormap[128], symbol[8], radarName[128], waveformName[128], vcp[512];
    double latitude, longitude;
    float heading, height, wavelength, sweepElevation, sweepAzimuth, gateSize;
    uint32_t rayCount, gateCount, isPPI, isRHI;
    int64_t startTime, endTime;
    float prt[8], pw[8], noise[2], systemZCal[2], systemDCal, systemPCal, ZCal[8][2], DCal[8], PCal[8], SNR, SQI;
    uint32_t capacity;
} VtProduct;

int vt_product_size(void) { return sizeof(VtProduct); }

RKProduct *vt_product_new(uint32_t rays, uint32_t gates) {
    RKProduct *p = NULL;
    RKProductBufferAlloc(&p, 1, rays, gates);
    return p;
}

void vt_product_free(RKProduct *p) { RKProductBufferFree(p, 1); }

#define TEXT(dst, src) memcpy(dst, src, MIN(sizeof(dst), sizeof(src)))
#define FIELDS(F, A) \
    F(latitude, latitude) F(longitude, longitude) F(heading, heading) F(radarHeight, height) F(wavelength, wavelength) F(sweepElevation, sweepElevation) F(sweepAzimuth, sweepAzimuth) \
    F(gateSizeMeters, gateSize) F(rayCount, rayCount) F(gateCount, gateCount) F(isPPI, isPPI) F(isRHI, isRHI) F(startTime, startTime) F(endTime, endTime) \
    F(systemDCal, systemDCal) F(systemPCal, systemPCal) F(SNRThreshold, SNR) F(SQIThreshold, SQI) \
    A(prt, prt) A(pw, pw) A(noise, noise) A(systemZCal, systemZCal) A(ZCal, ZCal) A(DCal, DCal) A(PCal, PCal) A(radarName, radarName) A(waveformName, waveformName) A(vcpDefinition, vcp)

void vt_product_set(RKProduct *p, const VtProduct *v) {
    TEXT(p->desc.name, v->name);
    TEXT(p->desc.unit, v->unit);
    TEXT(p->desc.colormap, v->colormap);
    TEXT(p->desc.symbol, v->symbol);
#define F(a, b) p->header.a = v->b;
#define A(a, b) memcpy(p->header.a, v->b, sizeof(v->b));
    FIELDS(F, A)
#undef F
#undef A
}

void vt_product_get(const RKProduct *p, VtProduct *v) {
    memset(v, 0, sizeof(*v));
    TEXT(v->name, p->desc.name);
    TEXT(v->unit, p->desc.unit);
    TEXT(v->colormap, p->desc.colormap);
    TEXT(v->symbol, p->desc.symbol);
#define F(a, b) v->b = p->header.a;
#define A(a, b) memcpy(v->b, p->header.a, sizeof(v->b));
    FIELDS(F, A)
#undef F
#undef A
    v->capacity = p->capacity;
}

// 0 start azimuth, 1 end azimuth, 2 start elevation, 3 end elevation, 4 data
float *vt_product_array(RKProduct *p, int k) {
    float *a[] = {p->startAzimuth, p->endAzimuth, p->startElevation, p->endElevation, p->data};
    return a[k];
}

uint64_t vt_product_hash(const RKProduct *p) {
    uint64_t h = 14695981039346656037ull;
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < sizeof(*p); i++) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}

RKProductCollection *vt_collection(const char *f, int *n) {
    RKProductCollection *c = RKProductCollectionInitWithFilename(f);
    *n = c ? c->count : -1;
    return c;
}
RKProduct *vt_collection_product(RKProductCollection *c, int k) { return &c->products[k]; }

// Sweep from a file. u: rays, gates, base product list, start marker, status of the rays all ready; f: gate size, prt, wavelength, sweep elevation, azimuth
RKSweep *vt_sweep_read(const char *f, uint32_t *u, double *d, char *name) {
    RKSweep *s = RKSweepFileRead(f);
    if (s == NULL) return NULL;
    u[0] = s->header.rayCount;
    u[1] = s->header.gateCount;
    u[2] = s->header.baseProductList;
    u[3] = s->header.config.startMarker;
    d[0] = s->header.gateSizeMeters;
    d[1] = s->header.config.prt[0];
    d[2] = s->header.desc.wavelength;
    d[3] = s->header.config.sweepElevation;
    d[4] = s->header.config.sweepAzimuth;
    d[5] = s->header.desc.latitude;
    d[6] = s->header.desc.longitude;
    d[7] = s->header.desc.heading;
    d[8] = s->header.desc.radarHeight;
    memcpy(name, s->header.desc.name, 128);
    return s;
}

// h: start azimuth, start elevation, gate size; u: status, gate count, base product list
float *vt_sweep_ray(RKSweep *s, int j, int product, float *h, uint32_t *u) {
    RKRay *r = s->rays[j];
    h[0] = r->header.startAzimuth;
    h[1] = r->header.startElevation;
    h[2] = r->header.gateSizeMeters;
    u[0] = r->header.s;
    u[1] = r->header.gateCount;
    u[2] = r->header.baseProductList;
    return RKGetFloatDataFromRay(r, product);
}

void vt_sweep_free(RKSweep *s) {
    RKRayBufferFree(s->rayBuffer);
    free(s);
}

// Product p from a sweep of v's header; angles [4][rays]; data [rays][gates] goes to moment index (-1: none)
int vt_product_from_sweep(RKProduct *p, const VtProduct *v, const float *angles, const float *data, int index) {
    RKBuffer buffer;
    const uint32_t capacity = (v->gateCount + 63) / 64 * 64;
    RKSweep *s = (RKSweep *)calloc(1, sizeof(RKSweep));
    RKRayBufferAlloc(&buffer, capacity, v->rayCount);
    for (int j = 0; j < v->rayCount; j++) {
        RKRay *r = s->rays[j] = RKGetRayFromBuffer(buffer, j);
        r->header.startAzimuth = angles[j];
        r->header.endAzimuth = angles[v->rayCount + j];
        r->header.startElevation = angles[2 * v->rayCount + j];
        r->header.endElevation = angles[3 * v->rayCount + j];
        r->header.gateCount = v->gateCount;
        for (int k = 0; k < RKBaseProductIndexCount; k++) {
            float *x = RKGetFloatDataFromRay(r, k);
            if (x) for (int g = 0; g < v->gateCount; g++) x[g] = k == index ? data[j * v->gateCount + g] : 1000.0f + k;
        }
    }
    TEXT(s->header.desc.name, v->radarName);
    s->header.desc.latitude = v->latitude;
    s->header.desc.longitude = v->longitude;
    s->header.desc.heading = v->heading;
    s->header.desc.radarHeight = v->height;
    s->header.desc.wavelength = v->wavelength;
    s->header.config.sweepElevation = v->sweepElevation;
    s->header.config.sweepAzimuth = v->sweepAzimuth;
    s->header.startTime = v->startTime;
    s->header.endTime = v->endTime;
    s->header.isPPI = v->isPPI;
    s->header.isRHI = v->isRHI;
    s->header.rayCount = v->rayCount;
    s->header.gateCount = v->gateCount;
    s->header.gateSizeMeters = v->gateSize;
#define C(a, b) memcpy(&s->header.config.a, &v->b, sizeof(v->b));
    C(pw, pw) C(prt, prt) C(noise, noise) C(systemZCal, systemZCal) C(systemDCal, systemDCal) C(systemPCal, systemPCal) C(ZCal, ZCal) C(DCal, DCal) C(PCal, PCal)
    C(SNRThreshold, SNR) C(SQIThreshold, SQI) C(waveformName, waveformName) C(vcpDefinition, vcp)
    const int r = RKProductInitFromSweep(p, s);
    RKRayBufferFree(buffer);
    free(s);
    return r;
}
