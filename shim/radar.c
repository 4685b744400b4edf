// A whole radar: made, live, fed with pulses and positions, restarted, stopped, freed
#define _DEFAULT_SOURCE
#include <RadarKit.h>
#include <dirent.h>
#include <setjmp.h>
#include <errno.h>
#include "vt.h"

size_t __sanitizer_get_current_allocated_bytes(void);
extern __thread jmp_buf *vt_exit_jump;

int vt_entries(const char *path) {
    DIR *d = opendir(path);
    int n = 0;
    if (d == NULL) return -1;
    while (readdir(d)) n++;
    closedir(d);
    return n;
}
size_t vt_heap(void) { return __sanitizer_get_current_allocated_bytes(); }

// u: pulse capacity, ratio, depths (status, config, health, position, pulse, ray), flags, cores (pulse, ray), health nodes, controls, calibrations
RKRadar *vt_radar_new(const uint32_t *u, const char *path, double positionRate, double pulseRate, double latency) {
    RKRadarDesc d;
    RKRadar *r = NULL;
    memset(&d, 0, sizeof(d));
    d.pulseCapacity = u[0];
    d.pulseToRayRatio = u[1];
    d.statusBufferDepth = u[2];
    d.configBufferDepth = u[3];
    d.healthBufferDepth = u[4];
    d.positionBufferDepth = u[5];
    d.pulseBufferDepth = u[6];
    d.rayBufferDepth = u[7];
    d.initFlags = u[8];
    d.healthNodeCount = u[11];
    d.controlCapacity = u[12];
    d.waveformCalibrationCapacity = u[13];
    d.positionTicsPerSecond = positionRate;
    d.pulseTicsPerSecond = pulseRate;
    d.positionLatency = latency;
    d.wavelength = 0.1f;
    d.latitude = 35.0;
    d.longitude = -97.0;
    strcpy(d.name, "whole");
    strcpy(d.filePrefix, "WH");
    snprintf(d.dataPath, sizeof(d.dataPath), "%s", path);
    vt_usleep_divide = 50;
    jmp_buf jump;
    vt_exit_jump = &jump;
    if (setjmp(jump) == 0) r = RKInitWithDesc(d);
    vt_exit_jump = NULL;
    if (r == NULL) return NULL;
    // Nobody to ping from here
    r->hostMonitor->workerCount = 0;
    if (r->pulseEngine && u[9]) RKSetProcessingCoreCounts(r, u[9], u[9], u[10]);
    return r;
}
int vt_radar_live(RKRadar *r) { return RKGoLive(r); }
int vt_radar_stop(RKRadar *r) { return RKStop(r); }
int vt_radar_restart(RKRadar *r) { return RKSoftRestart(r); }
int vt_radar_free(RKRadar *r) { return RKFree(r); }
void vt_radar_record(RKRadar *r, int level) { RKSetRecordingLevel(r, level); }
void vt_radar_config(RKRadar *r, double prf, double noise, double zcal, double dcal, double pcal, double snr, double sqi) {
    RKAddConfig(r, RKConfigKeyPRF, prf, RKConfigKeySystemNoise, noise, noise, RKConfigKeySystemZCal, zcal, zcal, RKConfigKeySystemDCal, dcal, RKConfigKeySystemPCal, pcal,
                RKConfigKeySNRThreshold, snr, RKConfigKeySQIThreshold, sqi, RKConfigKeyTransitionGateCount, 0, RKConfigKeyRingFilterGateCount, 0, RKConfigKeyNull);
}
// d: time, elevation, azimuth, sweep elevation, sweep azimuth; flag; tic
int vt_radar_position(RKRadar *r, const double *d, uint32_t flag, uint64_t tic) {
    vt_time_set(d[0]);
    RKPosition *p = RKGetVacantPosition(r);
    if (p == NULL) return -1;
    p->tic = tic;
    p->elevationDegrees = d[1];
    p->azimuthDegrees = d[2];
    p->sweepElevationDegrees = d[3];
    p->sweepAzimuthDegrees = d[4];
    p->elevationVelocityDegreesPerSecond = 1.0f;
    p->azimuthVelocityDegreesPerSecond = 2.0f;
    p->flag = flag;
    RKSetPositionReady(r, p);
    return 0;
}
int64_t vt_radar_pulse(RKRadar *r, double t, uint64_t tic, uint32_t gates, float size, const int16_t *x) {
    vt_time_set(t);
    RKPulse *p = RKGetVacantPulse(r);
    p->header.t = tic;
    p->header.gateCount = gates;
    p->header.gateSizeMeters = size;
    p->header.pulseWidthSampleCount = 1;
    for (int c = 0; c < 2; c++) memcpy(RKGetInt16CDataFromPulse(p, c), x + c * 2 * gates, 4 * gates);
    RKSetPulseHasData(r, p);
    return p->header.i;
}
uint32_t vt_radar_pulse_status(RKRadar *r, int64_t id) {
    RKPulse *p = RKGetPulseFromBuffer(r->pulses, id % r->desc.pulseBufferDepth);
    return (int64_t)p->header.i == id ? *(volatile uint32_t *)&p->header.s : 0;
}
typedef struct { uint64_t i; double time; float az, el; uint32_t marker, status, gates, down; uint64_t config; } VtPulseSeen;
int vt_radar_pulse_get(RKRadar *r, int64_t id, VtPulseSeen *o) {
    RKPulse *p = RKGetPulseFromBuffer(r->pulses, id % r->desc.pulseBufferDepth);
    o->i = p->header.i;
    o->time = p->header.timeDouble;
    o->az = p->header.azimuthDegrees;
    o->el = p->header.elevationDegrees;
    o->marker = p->header.marker;
    o->status = p->header.s;
    o->gates = p->header.gateCount;
    o->down = p->header.downSampledGateCount;
    o->config = r->configs[p->header.configIndex].i;
    return (int64_t)p->header.i == id;
}
typedef struct { uint64_t i; double t0, t1; float a0, a1, e0, e1, sel, size; uint32_t s, marker, gates, pulses, products, capacity; } VtRaySeen;
int vt_radar_ray_index(RKRadar *r) { return r->rayIndex; }
void vt_radar_ray(RKRadar *r, uint32_t k, VtRaySeen *o, float *v, uint8_t *u) {
    RKRay *y = RKGetRayFromBuffer(r->rays, k % r->desc.rayBufferDepth);
    o->i = y->header.i;
    o->t0 = y->header.startTimeDouble;
    o->t1 = y->header.endTimeDouble;
    o->a0 = y->header.startAzimuth;
    o->a1 = y->header.endAzimuth;
    o->e0 = y->header.startElevation;
    o->e1 = y->header.endElevation;
    o->sel = y->header.sweepElevation;
    o->size = y->header.gateSizeMeters;
    o->s = *(volatile uint32_t *)&y->header.s;
    o->marker = y->header.marker;
    o->gates = y->header.gateCount;
    o->pulses = y->header.pulseCount;
    o->products = y->header.baseProductList;
    o->capacity = y->header.capacity;
    if (v == NULL) return;
    for (int p = 0; p < 10; p++) {
        memcpy(v + p * o->gates, RKGetFloatDataFromRay(y, p), o->gates * sizeof(float));
        memcpy(u + p * o->gates, RKGetUInt8DataFromRay(y, p), o->gates);
    }
}
int vt_radar_health(RKRadar *r, int node, const char *s) {
    RKHealth *h = RKGetVacantHealth(r, node);
    if (h == NULL) return -1;
    snprintf(h->string, RKMaximumStringLength, "%s", s);
    RKSetHealthReady(r, h);
    return 0;
}
const char *vt_radar_latest_health(RKRadar *r) { return RKGetLatestHealth(r)->string; }
// What the radar took for itself: capacity, depths, node count, state, control and calibration capacities
void vt_radar_desc(RKRadar *r, uint32_t *o) {
    o[0] = r->desc.pulseCapacity;
    o[1] = r->desc.statusBufferDepth;
    o[2] = r->desc.configBufferDepth;
    o[3] = r->desc.healthBufferDepth;
    o[4] = r->desc.positionBufferDepth;
    o[5] = r->desc.pulseBufferDepth;
    o[6] = r->desc.rayBufferDepth;
    o[7] = r->desc.healthNodeCount;
    o[8] = r->state;
    o[9] = r->positionIndex;
    o[10] = r->pulseIndex;
    o[11] = r->rayIndex;
    o[12] = r->configIndex;
    o[13] = r->healthIndex;
    o[14] = r->statusIndex;
    o[15] = r->active;
}
// All pulses of a recording, one after the other: identity, time, gates, first channel's first sample; returns how many
int vt_radar_recording(const char *f, int max, double *o, int *type, float *y, int gates) {
    FILE *fid = fopen(f, "rb");
    if (fid == NULL) return -1;
    RKFileHeader *h = NULL;
    jmp_buf jump;
    vt_exit_jump = &jump;
    if (setjmp(jump) == 0) h = RKFileHeaderRead(fid);
    vt_exit_jump = NULL;
    if (h == NULL) {
        fclose(fid);
        return -2;
    }
    *type = h->dataType;
    RKBuffer b;
    RKPulseBufferAlloc(&b, h->desc.pulseCapacity, 1);
    int n = 0;
    while (n < max) {
        RKPulse *p = RKGetPulseFromBuffer(b, 0);
        if (RKReadPulseFromFileReference(p, h, fid) != RKResultSuccess) break;
        o[4 * n] = p->header.i;
        o[4 * n + 1] = p->header.timeDouble;
        o[4 * n + 2] = p->header.gateCount;
        o[4 * n + 3] = p->header.azimuthDegrees;
        for (int c = 0; c < 2; c++) for (int g = 0; g < gates; g++) {
            float *z = y + ((n * 2 + c) * gates + g) * 2;
            if (h->dataType == RKRawDataTypeFromTransceiver) {
                z[0] = RKGetInt16CDataFromPulse(p, c)[g].i;
                z[1] = RKGetInt16CDataFromPulse(p, c)[g].q;
            } else {
                z[0] = RKGetComplexDataFromPulse(p, c)[g].i;
                z[1] = RKGetComplexDataFromPulse(p, c)[g].q;
            }
        }
        n++;
    }
    RKReadPulseFromFileReference(RKGetPulseFromBuffer(b, 0), h, NULL);
    free(b);
    RKFileHeaderFree(h);
    fclose(fid);
    return n;
}
void vt_radar_prf(RKRadar *r, uint32_t prf) { RKSetPRF(r, prf); }
void vt_radar_calibration(RKRadar *r, const char *name, const float *f) {
    RKWaveformCalibration c;
    memset(&c, 0, sizeof(c));
    snprintf(c.name, RKNameLength, "%s", name);
    c.count = 1;
    c.ZCal[0][0] = f[0];
    c.ZCal[0][1] = f[1];
    c.DCal[0] = f[2];
    c.PCal[0] = f[3];
    RKAddWaveformCalibration(r, &c);
}
int vt_radar_named_waveform(RKRadar *r, const char *name) {
    RKComplex one[] = {{1.0f, 0.0f}};
    RKWaveform *w = RKWaveformInitFromSamples(one, 1, name);
    int k = RKSetWaveform(r, w);
    RKWaveformFree(w);
    return k;
}
// Number of configurations so far and the PRT, system Z calibration, first tone calibration and waveform of the latest one
int vt_radar_config_get(RKRadar *r, double *o, char *name) {
    RKConfig *c = RKGetLatestConfig(r);
    o[0] = c->i;
    o[1] = c->prt[0];
    o[2] = c->systemZCal[0];
    o[3] = c->ZCal[0][0];
    o[4] = c->noise[0];
    o[5] = c->SNRThreshold;
    o[6] = c->sweepElevation;
    snprintf(name, RKNameLength, "%s", c->waveformName);
    return r->configIndex;
}
// Pulses that the recorder has been through
uint64_t vt_radar_recorder_tic(RKRadar *r) { return *(volatile uint64_t *)&r->rawDataRecorder->tic; }

// ---------------------------------------------------------------- devices that only write down what they are asked
typedef struct { int which; int fail; } VtDevice;
static VtDevice vt_devices[16];
static char vt_device_log[1 << 20];
static size_t vt_device_used;
static pthread_mutex_t vt_device_lock = PTHREAD_MUTEX_INITIALIZER;

static void vt_device_note(int which, char what, const char *text) {
    pthread_mutex_lock(&vt_device_lock);
    if (vt_device_used + strlen(text) + 8 < sizeof(vt_device_log)) vt_device_used += sprintf(vt_device_log + vt_device_used, "%c%c%s\x01", 'A' + which, what, text);
    pthread_mutex_unlock(&vt_device_lock);
}
static void *vt_device_init(RKRadar *r, void *in) {
    VtDevice *d = (VtDevice *)in;
    (void)r;
    vt_device_note(d->which, 'i', "");
    return d->fail == 1 ? NULL : (void *)d;
}
static int vt_device_exec(void *in, const char *command, char *answer) {
    VtDevice *d = (VtDevice *)in;
    vt_device_note(d->which, 'x', command);
    if (answer) sprintf(answer, "ACK. Device %c." RKEOL, 'A' + d->which);
    return RKResultSuccess;
}
static int vt_device_free(void *in) {
    vt_device_note(((VtDevice *)in)->which, 'f', "");
    return RKResultSuccess;
}
// which: 0 transceiver, 1 pedestal, 2 health relay, 3... user devices; fail: 0 none, 1 does not start, 2 has no exec, 3 has no free
void vt_device_set(RKRadar *r, int which, int fail) {
    VtDevice *d = &vt_devices[which];
    d->which = which;
    d->fail = fail;
    int (*x)(void *, const char *, char *) = fail == 2 ? NULL : vt_device_exec;
    int (*f)(void *) = fail == 3 ? NULL : vt_device_free;
    if (which == 0) RKSetTransceiver(r, d, vt_device_init, x, f);
    else if (which == 1) RKSetPedestal(r, d, vt_device_init, x, f);
    else if (which == 2) RKSetHealthRelay(r, d, vt_device_init, x, f);
    else RKSeUserDevice(r, RKHealthNodeUser1 + which - 3, d, vt_device_init, x, f);
}
// What the devices were asked since the last time
int vt_device_take(char *o) {
    pthread_mutex_lock(&vt_device_lock);
    int n = vt_device_used;
    memcpy(o, vt_device_log, n);
    o[n] = '\0';
    vt_device_used = 0;
    pthread_mutex_unlock(&vt_device_lock);
    return n;
}
static char vt_command_answer[RKMaximumPacketSize];
const char *vt_radar_command(RKRadar *r, const char *command, int silent) {
    strcpy(vt_command_answer, "stale");
    // as long as it is, so that reading past its end shows
    char *c = strdup(command);
    RKExecuteCommand(r, c, silent ? NULL : vt_command_answer);
    free(c);
    return vt_command_answer;
}
void vt_radar_background(RKRadar *r, const char *command) {
    char *c = strdup(command);
    RKPerformMasterTaskInBackground(r, c);
    memset(c, '!', strlen(c));
    free(c);
}
// o: config count, noise 0, noise 1, SNR threshold, SQI threshold, ring filter gates, recording, raw type, ring filter on, its type, moment method, lag choice, index of pulse, ray, position
void vt_radar_settings(RKRadar *r, double *o) {
    RKConfig *c = RKGetLatestConfig(r);
    o[0] = c->i;
    o[1] = c->noise[0];
    o[2] = c->noise[1];
    o[3] = c->SNRThreshold;
    o[4] = c->SQIThreshold;
    o[5] = c->ringFilterGateCount;
    o[6] = r->rawDataRecorder->record;
    o[7] = r->rawDataRecorder->rawDataType;
    o[8] = r->pulseRingFilterEngine->useFilter;
    o[9] = r->filter ? r->filter->type : -1;
    int (*m)(RKMomentScratch *, RKPulse **, const uint16_t) = r->momentEngine->momentProcessor;
    o[10] = m == RKPulsePair ? 0 : m == RKPulsePairHop ? 1 : m == RKMultiLag ? 2 : m == RKSpectralMoment ? 5 : -1;
    o[11] = r->momentEngine->userLagChoice;
    o[12] = r->pulseIndex;
    o[13] = r->rayIndex;
    o[14] = r->positionIndex;
    o[15] = r->pulseRingFilterEngine->filter.aLength;
}
int vt_radar_controls(RKRadar *r, uint32_t *uid, char *text, int max) {
    char *t = text;
    *t = 0;
    for (int k = 0; k < (int)r->controlCount && k < max; k++) {
        uid[k] = r->controls[k].uid;
        t += sprintf(t, "%s\x01%s\x02", r->controls[k].label, r->controls[k].command);
    }
    return r->controlCount;
}
// 0 add, 1 add by struct, 2 clear, 3 conclude
void vt_radar_control(RKRadar *r, int what, const char *label, const char *command) {
    RKControl c;
    memset(&c, 0, sizeof(c));
    switch (what) {
        case 0: RKAddControlAsLabelAndCommand(r, label, command); break;
        case 1:
            strncpy(c.label, label, RKNameLength);
            strncpy(c.command, command, RKMaximumCommandLength);
            RKAddControl(r, &c);
            break;
        case 2: RKClearControls(r); break;
        default: RKConcludeControls(r); break;
    }
}
// Calibrations
int vt_radar_calibration_count(RKRadar *r) { return r->waveformCalibrationCount; }
void vt_radar_limits(RKRadar *r, uint32_t *o) {
    o[0] = r->desc.controlCapacity;
    o[1] = r->desc.waveformCalibrationCapacity;
    o[2] = r->desc.pulseToRayRatio;
}

int vt_radar_request_node(RKRadar *r) { return RKRequestHealthNode(r); }
// What RKGoLive says of a device that is incomplete (0) or does not start (1): transceiver, pedestal, health relay and user devices
int vt_device_result(int which, int kind) {
    static const int x[3][2] = {{RKResultIncompleteTransceiver, RKResultFailedToStartTransceiver}, {RKResultIncompletePedestal, RKResultFailedToStartPedestal}, {RKResultIncompleteHealthRelay, RKResultFailedToStartHealthRelay}};
    return x[which > 2 ? 2 : which][kind];
}

void vt_radar_method(RKRadar *r, int k) {
    switch (k) {
        case 1: RKSetMomentProcessorToPulsePairHop(r); break;
        case 2: case 3: case 4: RKSetMomentProcessorToMultiLag(r, k); break;
        case 5: RKSetMomentProcessorToSpectralMoment(r); break;
        default: RKSetMomentProcessorToPulsePair(r); break;
    }
}
