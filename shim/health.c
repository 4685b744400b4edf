// Health nodes, the health engine and the health logger, driven one poll at a time
#include <RadarKit.h>
#include "vt.h"

void vt_gate_close(void);
void vt_gate_open(void);
int vt_gate_wait(int);
int vt_gate_step(int);

RKRadar *vt_health_radar(int nodes, int depth, uint32_t flags, double latitude, double longitude, float heading) {
    RKRadar *r = (RKRadar *)calloc(1, sizeof(RKRadar));
    r->desc.initFlags = flags;
    r->desc.healthNodeCount = nodes;
    r->desc.healthBufferDepth = depth;
    r->desc.latitude = latitude;
    r->desc.longitude = longitude;
    r->desc.heading = heading;
    r->healths = (RKHealth *)calloc(depth, sizeof(RKHealth));
    r->healthNodes = (RKNodalHealth *)calloc(nodes, sizeof(RKNodalHealth));
    for (int k = 0; k < nodes; k++) {
        r->healthNodes[k].healths = (RKHealth *)calloc(depth, sizeof(RKHealth));
        for (int j = 0; j < depth; j++) r->healthNodes[k].healths[j].i = (RKIdentifier)j - depth;
    }
    r->state = RKRadarStateLive;
    r->healthEngine = RKHealthEngineInit();
    RKHealthEngineSetEssentials(r->healthEngine, &r->desc, r->healthNodes, r->healths, &r->healthIndex);
    r->healthLogger = RKHealthLoggerInit();
    RKHealthLoggerSetEssentials(r->healthLogger, &r->desc, NULL, r->healths, &r->healthIndex);
    return r;
}

void vt_health_free(RKRadar *r) {
    vt_gate_open();
    RKHealthEngineFree(r->healthEngine);
    RKHealthLoggerFree(r->healthLogger);
    for (int k = 0; k < r->desc.healthNodeCount; k++) free(r->healthNodes[k].healths);
    free(r->healthNodes);
    free(r->healths);
    free(r);
    vt_time_fixed = 0;
}

// Starts the engine: it is at its first poll afterwards
int vt_health_start(RKRadar *r) {
    vt_usleep_divide = 1000;
    vt_gate_close();
    int k = RKHealthEngineStart(r->healthEngine);
    return k ? k : vt_gate_wait(0) ? -1 : 0;
}

int vt_health_stop(RKRadar *r) {
    vt_gate_open();
    int k = RKHealthEngineStop(r->healthEngine);
    vt_usleep_divide = 1;
    return k;
}

int vt_health_logger_start(RKRadar *r, const char *dataPath, const char *prefix, int record) {
    strncpy(r->desc.dataPath, dataPath, sizeof(r->desc.dataPath) - 1);
    strncpy(r->desc.filePrefix, prefix, sizeof(r->desc.filePrefix) - 1);
    RKHealthLoggerSetRecord(r->healthLogger, record);
    vt_usleep_divide = 1000;
    vt_gate_close();
    int k = RKHealthLoggerStart(r->healthLogger);
    return k ? k : vt_gate_wait(0) ? -1 : 0;
}

int vt_health_logger_stop(RKRadar *r) {
    vt_gate_open();
    int k = RKHealthLoggerStop(r->healthLogger);
    vt_usleep_divide = 1;
    return k;
}

void vt_health_logger_record(RKRadar *r, int v) { RKHealthLoggerSetRecord(r->healthLogger, v); }
int vt_health_logger_tic(RKRadar *r) { return (int)r->healthLogger->tic; }

// A consolidated health, as the engine would write it
void vt_health_put(RKRadar *r, const char *text) {
    RKHealth *h = &r->healths[r->healthIndex];
    strncpy(h->string, text, RKMaximumStringLength - 1);
    h->flag = RKHealthFlagReady;
    uint32_t k = RKNextModuloS(r->healthIndex, r->desc.healthBufferDepth);
    r->healths[k].flag = RKHealthFlagVacant;
    r->healths[k].string[0] = 0;
    r->healthIndex = k;
}

RKHealth *vt_health_vacant(RKRadar *r, int node) { return RKGetVacantHealth(r, node); }
void vt_health_write(RKHealth *h, const char *text, int n) { memcpy(h->string, text, n); h->string[n] = 0; }
void vt_health_ready(RKRadar *r, RKHealth *h) { RKSetHealthReady(r, h); }
int vt_health_index(RKRadar *r) { return r->healthIndex; }
int vt_health_flag(RKRadar *r, int k) { return r->healths[k].flag; }
const char *vt_health_string(RKRadar *r, int k) { return r->healths[k].string; }
const char *vt_health_latest(RKRadar *r) { return RKGetLatestHealth(r)->string; }
const char *vt_health_latest_of(RKRadar *r, int node) { return RKGetLatestHealthOfNode(r, node)->string; }
int vt_health_enum(RKRadar *r, const char *key) { return RKGetEnumFromLatestHealth(r, key); }
void vt_health_location(RKRadar *r, double *out) { out[0] = r->desc.latitude; out[1] = r->desc.longitude; out[2] = r->desc.heading; }
int vt_health_request(RKRadar *r) { return RKRequestHealthNode(r); }
int vt_health_const(int k) { return k == 0 ? RKHealthNodeUser1 : k == 1 ? RKHealthNodeCount : k == 2 ? RKHealthNodeInvalid : RKStatusEnumInvalid; }
