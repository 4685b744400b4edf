// A command center whose handlers are called one at a time (or from two threads), each client at the other end of a socket pair
#define _DEFAULT_SOURCE
#include <RadarKit.h>
#include <errno.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sanitizer/asan_interface.h>
#include "vt.h"

extern volatile int64_t vt_sent[1024];
extern volatile int vt_unlock_jitter, vt_send_wait;
extern __thread int vt_unlock_mine;

// memset() of what is large gives the pages back instead of touching them
void *vt_memset(void *p, int c, size_t n) {
    if (c || n < (1 << 20)) return memset(p, c, n);
    if (__asan_region_is_poisoned(p, n)) memset(__asan_region_is_poisoned(p, n), 0, 1);
    char *a = (char *)(((uintptr_t)p + 4095) & ~(uintptr_t)4095), *b = (char *)(((uintptr_t)p + n) & ~(uintptr_t)4095);
    memset(p, 0, a - (char *)p);
    if (madvise(a, b - a, MADV_DONTNEED)) memset(a, 0, b - a);
    memset(b, 0, (char *)p + n - b);
    return p;
}

#define MAXC 4
typedef struct {
    RKOperator *O;
    int peer, up;
    pthread_t tid;
    pthread_mutex_t lock;
    uint8_t *data;
    size_t size, cap;
    volatile int64_t total;
    volatile int busy;
} Client;
typedef struct {
    RKCommandCenter *engine;
    RKRadar *radar;
    Client c[MAXC];
    uint32_t capacity, rays, marked;
    volatile int64_t healths, stats, pulses;
} Center;

static RKCommandCenter *one = NULL;
static RKMomentEngine *moment = NULL;
static RKPulseEngine *pulse = NULL;
static RKSweepEngine *sweep = NULL;

static void *drain(void *in) {
    Client *c = in;
    uint8_t *b = malloc(1 << 20);
    ssize_t r;
    while ((r = read(c->peer, b, 1 << 20)) > 0) {
        pthread_mutex_lock(&c->lock);
        if (c->size + r > c->cap) {
            c->cap = 2 * (c->size + r);
            c->data = realloc(c->data, c->cap);
        }
        memcpy(c->data + c->size, b, r);
        c->size += r;
        c->total += r;
        pthread_mutex_unlock(&c->lock);
    }
    free(b);
    return NULL;
}

uint8_t vt_cc_u8(int64_t id, int p, int g) { return (uint8_t)(id * 31 + p * 17 + g * 7 + (g >> 3)); }
float vt_cc_f32(int64_t id, int p, int g) { return (float)(id % 4096) * 512.0f + p * 16.0f + (g % 2048) * 0.0625f; }

Center *vt_cc_new(uint32_t capacity, uint32_t ratio, uint32_t rayDepth, uint32_t healthDepth, uint32_t statusDepth, uint32_t pulseDepth, int rayCores, int pulseCores, int groups, int width) {
    Center *C = calloc(1, sizeof(Center));
    vt_usleep_divide = 10000;
    vt_send_wait = 1;
    if (one == NULL) {
        one = RKCommandCenterInit();
        moment = RKMomentEngineInit();
        pulse = RKPulseEngineInit();
        sweep = RKSweepEngineInit();
        RKProductBufferFree(sweep->productBuffer, sweep->productBufferDepth);
        sweep->productBuffer = NULL;
        sweep->productBufferDepth = 0;
    }
    RKRadar *r = C->radar = calloc(1, sizeof(RKRadar));
    C->engine = one;
    one->radarCount = 0;
    memset(one->radars, 0, sizeof(one->radars));
    RKCommandCenterSetVerbose(one, 0);
    one->server->state = RKServerStateActive;
    r->desc.initFlags = RKInitFlagSignalProcessor;
    strcpy(r->desc.name, "mock");
    r->desc.pulseCapacity = capacity;
    r->desc.pulseToRayRatio = ratio;
    r->desc.rayBufferDepth = rayDepth;
    r->desc.healthBufferDepth = healthDepth;
    r->desc.statusBufferDepth = statusDepth;
    r->desc.pulseBufferDepth = pulseDepth;
    r->desc.configBufferDepth = 4;
    C->capacity = (capacity / ratio + 15) / 16 * 16;
    RKRayBufferAlloc(&r->rays, C->capacity, rayDepth);
    RKPulseBufferAlloc(&r->pulses, capacity, pulseDepth);
    r->healths = calloc(healthDepth, sizeof(RKHealth));
    r->status = calloc(statusDepth, sizeof(RKStatus));
    r->configs = calloc(4, sizeof(RKConfig));
    r->controls = calloc(8, sizeof(RKControl));
    for (int k = 0; k < 3; k++) {
        r->controls[k].uid = 100 + k;
        sprintf(r->controls[k].label, "Go %d", k);
        sprintf(r->controls[k].command, "t g%d", k);
    }
    r->controlCount = 3;
    r->state = RKRadarStateLive;
    r->momentEngine = moment;
    moment->coreCount = rayCores;
    moment->rayStatusBufferIndex = 0;
    memset(moment->rayStatusBuffer, 0, sizeof(moment->rayStatusBuffer));
    pulse->pulseStatusBufferIndex = 0;
    memset(pulse->pulseStatusBuffer, 0, sizeof(pulse->pulseStatusBuffer));
    r->pulseEngine = pulse;
    pulse->coreCount = pulseCores;
    pulse->filterGroupCount = groups;
    for (int k = 0; k < groups; k++) {
        pulse->filterAnchors[k][0].length = width;
        free(pulse->filters[k][0]);
        pulse->filters[k][0] = aligned_alloc(64, (width * sizeof(RKComplex) + 63) / 64 * 64);
        for (int i = 0; i < width; i++) pulse->filters[k][0][i].i = pulse->filters[k][0][i].q = 1.0f / width;
    }
    r->sweepEngine = sweep;
    sweep->verbose = 0;
    sweep->scratchSpaceIndex = 0;
    sweep->configBuffer = r->configs;
    sweep->radarDescription = &r->desc;
    r->configs[0].startMarker = RKMarkerScanTypePPI;
    r->configs[0].i = 7000;
    RKCommandCenterAddRadar(one, r);
    for (int k = 0; k < MAXC; k++) pthread_mutex_init(&C->c[k].lock, NULL);
    return C;
}
static void fill(Center *C, RKRay *ray, int64_t id, int gates, float size, uint32_t list) {
    ray->header.i = id;
    ray->header.n = id * 3;
    ray->header.gateCount = gates;
    ray->header.gateSizeMeters = size;
    ray->header.pulseCount = 1 + id % 90;
    ray->header.marker = RKMarkerScanTypePPI;
    ray->header.configIndex = 0;
    ray->header.configSubIndex = id % 5;
    ray->header.sweepElevation = 0.5f * (id % 9);
    ray->header.sweepAzimuth = 1.5f * (id % 7);
    ray->header.startAzimuth = id % 360;
    ray->header.endAzimuth = (id + 1) % 360;
    ray->header.startElevation = 0.25f * (id % 11);
    ray->header.endElevation = 0.25f * (id % 13);
    ray->header.startTime.tv_sec = 1700000000 + id;
    ray->header.startTime.tv_usec = id % 1000;
    ray->header.endTime.tv_sec = 1700000001 + id;
    ray->header.endTime.tv_usec = id % 999;
    ray->header.startTimeDouble = 1700000000.0 + id;
    ray->header.endTimeDouble = 1700000001.0 + id;
    ray->header.fftOrder = id % 10;
    ray->header.baseMomentList = 0x5a5a5a5a;
    ray->header.baseProductList = list;
    for (int p = 0; p < 10; p++) {
        uint8_t *u = RKGetUInt8DataFromRay(ray, p);
        float *f = RKGetFloatDataFromRay(ray, p);
        for (int g = 0; g < C->capacity; g++) {
            u[g] = vt_cc_u8(id, p, g);
            f[g] = vt_cc_f32(id, p, g);
        }
    }
}
// Ray id begins; all those up to id - lag are complete
void vt_cc_ray(Center *C, int gates, float size, uint32_t list, int lag) {
    RKRadar *r = C->radar;
    const uint32_t depth = r->desc.rayBufferDepth;
    const int64_t id = C->rays++;
    RKRay *ray = RKGetRayFromBuffer(r->rays, id % depth);
    ray->header.s = RKRayStatusVacant;
    fill(C, ray, id, gates, size, list);
    r->rayIndex = (id + 1) % depth;
    while ((int64_t)C->marked <= id - lag) {
        ray = RKGetRayFromBuffer(r->rays, C->marked++ % depth);
        ray->header.s = RKRayStatusProcessed | RKRayStatusReady;
    }
}
void vt_cc_sweep(Center *C, int n) {
    RKRadar *r = C->radar;
    RKSweepScratchSpace *s = &sweep->scratchSpaces[sweep->scratchSpaceIndex];
    for (int k = 0; k < n; k++) s->rays[k] = RKGetRayFromBuffer(r->rays, (C->rays - n + k) % r->desc.rayBufferDepth);
    s->rayCount = n;
    sweep->scratchSpaceIndex = RKNextModuloS(sweep->scratchSpaceIndex, RKSweepScratchSpaceDepth);
}
void vt_cc_config(Center *C, int64_t i) { C->radar->configs[0].i = i; }
void vt_cc_health(Center *C, const char *s) {
    RKRadar *r = C->radar;
    const uint32_t d = r->desc.healthBufferDepth;
    const int64_t k = C->healths++;
    strncpy(r->healths[k % d].string, s, RKMaximumStringLength - 1);
    r->healths[k % d].i = k;
    r->healths[k % d].flag = RKHealthFlagReady;
    r->healths[(k + 1) % d].flag = RKHealthFlagVacant;
    r->healths[(k + 1) % d].string[0] = 0;
    r->healthIndex = (k + 1) % d;
}
void vt_cc_status(Center *C) {
    RKRadar *r = C->radar;
    const uint32_t d = r->desc.statusBufferDepth;
    const int64_t k = C->stats++;
    RKStatus *s = &r->status[k % d];
    memset(s, (int)(k * 7 + 1), sizeof(RKStatus));
    s->i = k;
    s->flag = RKStatusFlagReady;
    r->status[(k + 1) % d].flag = RKStatusFlagVacant;
    r->statusIndex = (k + 1) % d;
}
int vt_cc_status_size(void) { return sizeof(RKStatus); }
void vt_cc_line(Center *C, const char *s) {
    snprintf(moment->rayStatusBuffer[moment->rayStatusBufferIndex], RKStatusStringLength, "%s", s);
    moment->rayStatusBufferIndex = RKNextModuloS(moment->rayStatusBufferIndex, RKBufferSSlotCount);
}
void vt_cc_pulse(Center *C, int gates, int down, int width, float size) {
    RKRadar *r = C->radar;
    const uint32_t d = r->desc.pulseBufferDepth;
    const int64_t id = C->pulses++;
    RKPulse *p = RKGetPulseFromBuffer(r->pulses, id % d);
    p->header.i = id;
    p->header.gateCount = gates;
    p->header.downSampledGateCount = down;
    p->header.pulseWidthSampleCount = width;
    p->header.gateSizeMeters = size;
    for (int q = 0; q < 2; q++) {
        RKInt16C *x = RKGetInt16CDataFromPulse(p, q);
        RKComplex *y = RKGetComplexDataFromPulse(p, q);
        for (int g = 0; g < gates; g++) {
            x[g].i = (int16_t)(id * 13 + q * 5 + g * 3);
            x[g].q = (int16_t)(id * 7 + q * 11 - g);
        }
        for (int g = 0; g < down; g++) {
            y[g].i = (int)((id * 131 + q * 50 + g * 3) % 20000) - 10000;
            y[g].q = (int)((id * 77 + q * 11 + g * 5) % 20000) - 10000;
        }
    }
    p->header.s = RKPulseStatusHasIQData | RKPulseStatusHasPosition | RKPulseStatusCompressed | RKPulseStatusProcessed | RKPulseStatusRingProcessed;
    r->pulseIndex = (id + 1) % d;
    RKGetPulseFromBuffer(r->pulses, r->pulseIndex)->header.s = RKPulseStatusVacant;
}

int vt_cc_open(Center *C, int k) {
    Client *c = &C->c[k];
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) return -1;
    fcntl(sv[0], F_SETFL, O_NONBLOCK);
    setsockopt(sv[1], SOL_SOCKET, SO_SNDBUF, &(int){1 << 20}, sizeof(int));
    RKOperator *O = c->O = calloc(1, sizeof(RKOperator));
    O->M = C->engine->server;
    O->iid = k;
    O->sid = sv[0];
    O->state = RKOperatorStateActive;
    O->timeoutSeconds = 30;
    O->userResource = O->M->userResource;
    sprintf(O->name, "O%d", k);
    pthread_mutex_init(&O->lock, NULL);
    O->delimString.type = RKNetworkPacketTypePlainText;
    O->delimTx.type = RKNetworkPacketTypeBytes;
    O->beacon.type = RKNetworkPacketTypeBeacon;
    vt_sent[sv[0]] = 0;
    c->peer = sv[1];
    c->size = c->total = 0;
    (pthread_create)(&c->tid, NULL, drain, c);
    c->up = 1;
    O->M->busy[k] = true;
    O->M->operators[k] = O;
    return O->M->w(O);
}
void vt_cc_command(Center *C, int k, const char *s) {
    RKOperator *O = C->c[k].O;
    char *b = O->commands[O->commandIndexRead];
    memset(b, 0, RKMaximumCommandLength);
    strncpy(b, s, RKMaximumCommandLength - 2);
    O->cmd = b;
    O->M->c(O);
}
void vt_cc_poll(Center *C, int k) { C->c[k].O->M->s(C->c[k].O); }
int vt_cc_state(Center *C, int k) { return C->c[k].O->state == RKOperatorStateActive; }
// What the client sends: all of it fits in the socket, or nothing is sent
int vt_cc_write(Center *C, int k, const void *p, size_t n) {
    const uint8_t *b = p;
    while (n > 0) {
        ssize_t r = (send)(C->c[k].peer, b, n < 4096 ? n : 4096, MSG_DONTWAIT);
        if (r <= 0) return -1;
        b += r;
        n -= r;
    }
    return 0;
}
// Whatever is left of it
int vt_cc_unread(Center *C, int k) {
    char b[4096];
    int n = 0, r;
    while ((r = (int)recv(C->c[k].O->sid, b, sizeof(b), MSG_DONTWAIT)) > 0) n += r;
    return n;
}
RKProduct *vt_cc_products_new(int depth, int gates) {
    RKProduct *b = NULL;
    RKProductBufferAlloc(&b, depth, RKMaximumRaysPerSweep, gates);
    sweep->productBuffer = b;
    sweep->productBufferDepth = depth;
    return b;
}
void vt_cc_products_free(RKProduct *b) {
    RKProductBufferFree(b, sweep->productBufferDepth);
    sweep->productBuffer = NULL;
    sweep->productBufferDepth = 0;
}
// What the client has received: the size, or a copy of it that empties the log
size_t vt_cc_read(Center *C, int k, uint8_t *out) {
    Client *c = &C->c[k];
    while (c->total < vt_sent[c->O->sid]) (usleep)(100);
    pthread_mutex_lock(&c->lock);
    size_t n = c->size;
    if (out) {
        memcpy(out, c->data, n);
        c->size = 0;
    }
    pthread_mutex_unlock(&c->lock);
    return n;
}
void vt_cc_close(Center *C, int k) {
    Client *c = &C->c[k];
    if (!c->up) return;
    RKOperator *O = c->O;
    O->M->t(O);
    O->M->busy[k] = false;
    O->M->operators[k] = NULL;
    shutdown(O->sid, SHUT_RDWR);
    pthread_join(c->tid, NULL);
    close(O->sid);
    close(c->peer);
    pthread_mutex_destroy(&O->lock);
    free(O);
    free(c->data);
    c->data = NULL;
    c->cap = c->size = 0;
    c->up = 0;
}
void vt_cc_free(Center *C) {
    for (int k = 0; k < MAXC; k++) vt_cc_close(C, k);
    RKRadar *r = C->radar;
    free(r->rays);
    free(r->pulses);
    free(r->healths);
    free(r->status);
    free(r->configs);
    free(r->controls);
    free(r);
    free(C);
    one->radarCount = 0;
    vt_usleep_divide = 1;
    vt_send_wait = 0;
}
// One thread streams while the commands come
typedef struct { Center *C; int k, polls; } Job;
static void *poller(void *in) {
    Job *j = in;
    vt_unlock_mine = 1;
    for (int i = 0; i < j->polls; i++) {
        // rays keep coming
        vt_cc_ray(j->C, j->C->capacity, 30.0f, 0x03ff0000, 0);
        if (i % 3 == 2) vt_cc_health(j->C, "{\"a\":1}");
        if (i % 9 == 8) vt_cc_sweep(j->C, 4);
        vt_cc_poll(j->C, j->k);
    }
    j->C->c[j->k].busy = 0;
    return NULL;
}
int vt_cc_race(Center *C, int k, int polls, int jitter, const char **commands, int n) {
    Job j = {C, k, polls};
    pthread_t tid;
    C->c[k].busy = 1;
    vt_unlock_jitter = jitter;
    (pthread_create)(&tid, NULL, poller, &j);
    int i = 0;
    while (C->c[k].busy) {
        vt_cc_command(C, k, commands[i++ % n]);
        (usleep)(jitter / 3);
    }
    pthread_join(tid, NULL);
    vt_unlock_jitter = 0;
    return i;
}
// Headers as numbers
void vt_cc_v1(const RKRayHeaderV1 *h, double *o) {
    const double v[] = {(double)h->i, (double)h->n, h->gateCount, h->gateSizeMeters, h->pulseCount, h->marker, h->configSubIndex, h->sweepElevation, h->sweepAzimuth, h->startAzimuth, h->endAzimuth,
        h->startElevation, h->endElevation, h->startTime.tv_sec, h->startTime.tv_usec, h->endTime.tv_sec, h->endTime.tv_usec, h->startTimeDouble, h->endTimeDouble, h->fftOrder, h->baseProductList, h->configIndex};
    memcpy(o, v, sizeof(v));
}
void vt_cc_v2(const RKRayHeader *h, double *o) {
    const double v[] = {(double)h->i, (double)h->n, h->gateCount, h->gateSizeMeters, h->pulseCount, h->marker, h->configSubIndex, h->sweepElevation, h->sweepAzimuth, h->startAzimuth, h->endAzimuth,
        h->startElevation, h->endElevation, h->startTime.tv_sec, h->startTime.tv_usec, h->endTime.tv_sec, h->endTime.tv_usec, h->startTimeDouble, h->endTimeDouble, h->fftOrder, h->baseProductList, h->configIndex};
    memcpy(o, v, sizeof(v));
}
void vt_cc_sw(const RKSweepHeader *h, double *o) {
    const double v[] = {h->rayCount, h->gateCount, h->baseProductList, h->gateSizeMeters, (double)h->config.i, h->isPPI};
    memcpy(o, v, sizeof(v));
}
void vt_cc_ph(const RKPulseHeader *h, double *o) {
    const double v[] = {(double)h->i, h->gateCount, h->gateSizeMeters};
    memcpy(o, v, sizeof(v));
}
size_t vt_cc_size(int k) {
    const size_t v[] = {sizeof(RKRayHeaderV1), sizeof(RKRayHeader), sizeof(RKSweepHeader), sizeof(RKPulseHeader), sizeof(RKRadarDesc), sizeof(RKStatus), sizeof(RKNetDelimiter)};
    return v[k];
}
const void *vt_cc_desc(Center *C) { return &C->radar->desc; }
float *vt_cc_product(int pid, double *o) {
    for (int k = 0; k < sweep->productBufferDepth; k++) {
        RKProduct *p = &sweep->productBuffer[k];
        if (p->pid == pid && p->flag & RKProductStatusActive) {
            const double v[] = {p->header.rayCount, p->header.gateCount, (double)p->i, p->flag, p->desc.key};
            memcpy(o, v, sizeof(v));
            return p->data;
        }
    }
    return NULL;
}
int vt_cc_actives(void) {
    int n = 0;
    for (int k = 0; k < sweep->productBufferDepth; k++) n += sweep->productBuffer[k].flag & RKProductStatusActive ? 1 : 0;
    return n;
}
// The list of radars
int vt_cc_radars(Center *C, const int *ops, int n, int *out) {
    RKRadar *r = C->radar, *more = calloc(8, sizeof(RKRadar));
    int k, j = 0;
    for (k = 0; k < 8; k++) {
        sprintf(more[k].desc.name, "r%d", k);
        more[k].desc.initFlags = RKInitFlagSignalProcessor;
    }
    for (k = 0; k < n; k++) {
        RKRadar *x = ops[k] % 10 == 9 ? r : &more[ops[k] % 10 % 8];
        if (ops[k] < 10) RKCommandCenterAddRadar(one, x); else RKCommandCenterRemoveRadar(one, x);
        out[j++] = one->radarCount;
        for (int i = 0; i < one->radarCount && i < 4; i++) out[j++] = one->radars[i] == r ? 9 : (int)(one->radars[i] - more);
        for (int i = 0; i < MAXC; i++) out[j++] = C->c[i].up ? one->users[i].radar == r : -1;
    }
    for (k = 0; k < 8; k++) RKCommandCenterRemoveRadar(one, &more[k]);
    free(more);
    return j;
}
