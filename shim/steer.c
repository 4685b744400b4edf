// The steer engine in a loop with a pedestal: axes that follow what they are told within an acceleration and a delay
#include <RadarKit.h>
#include "vt.h"

typedef struct {
    RKSteerEngine *engine;
    RKRadarDesc desc;
    RKPosition positions[64];
    uint32_t index;
    double dt, t, acceleration;
    int latency;
    int mode[2];                         // elevation, azimuth
    double x[2], v[2], target[2];
    RKScanAction queue[4];
    uint64_t n;
} Steer;

#define FIELDS 12

Steer *vt_steer(double rate, double acceleration, int latency, double el, double az, float heading, int toc, int point, int verbose) {
    Steer *s = (Steer *)calloc(1, sizeof(Steer));
    s->engine = RKSteerEngineInit();
    s->desc.positionBufferDepth = 64;
    s->desc.heading = heading;
    s->dt = 1.0 / rate;
    s->acceleration = acceleration;
    s->latency = latency;
    s->x[0] = el;
    s->x[1] = az;
    RKSteerEngineSetEssentials(s->engine, &s->desc, s->positions, &s->index, NULL, NULL);
    RKSteerEngineSetVerbose(s->engine, verbose);
    if (toc) s->engine->vcpHandle.toc = toc;
    if (point) s->engine->vcpHandle.option |= RKScanOptionUsePoint;
    return s;
}

void vt_steer_free(Steer *s) {
    RKSteerEngineFree(s->engine);
    free(s);
}

int vt_steer_command(Steer *s, const char *text, char *response) {
    return RKSteerEngineExecuteString(s->engine, text, response);
}

void vt_steer_repeat(Steer *s, int value) { RKSteerEngineSetScanRepeat(s->engine, value); }

// At bat, on deck, in the hole: each scan is mode, elevation start, end, slew, azimuth start, end, slew
int vt_steer_list(Steer *s, int which, float *out) {
    RKScanObject *V = &s->engine->vcpHandle;
    RKScanPath *p = which == 0 ? V->batterScans : which == 1 ? V->onDeckScans : V->inTheHoleScans;
    int n = which == 0 ? V->sweepCount : which == 1 ? V->onDeckCount : V->inTheHoleCount;
    for (int k = 0; k < n && k < RKMaximumScanCount; k++) {
        out[7 * k] = p[k].mode;
        out[7 * k + 1] = p[k].elevationStart;
        out[7 * k + 2] = p[k].elevationEnd;
        out[7 * k + 3] = p[k].elevationSlew;
        out[7 * k + 4] = p[k].azimuthStart;
        out[7 * k + 5] = p[k].azimuthEnd;
        out[7 * k + 6] = p[k].azimuthSlew;
    }
    return n;
}

// active, repeat
int vt_steer_state(Steer *s) {
    return s->engine->vcpHandle.active | (s->engine->vcpHandle.option & RKScanOptionRepeat ? 2 : 0);
}

const char *vt_steer_status(Steer *s) { return RKSteerEngineStatusString(s->engine); }

// n positions. Returns how many actions made no sense
int vt_steer_run(Steer *s, int n, double *out) {
    int bad = 0;
    for (int k = 0; k < n; k++) {
        RKPosition *p = &s->positions[s->index];
        memset(p, 0, sizeof(RKPosition));
        p->i = s->n;
        p->timeDouble = s->t;
        p->elevationDegrees = s->x[0];
        p->azimuthDegrees = s->x[1];
        p->elevationVelocityDegreesPerSecond = s->v[0];
        p->azimuthVelocityDegreesPerSecond = s->v[1];
        s->index = RKNextModuloS(s->index, 64);
        RKScanAction *a = RKSteerEngineGetAction(s->engine, p);
        double *o = out + FIELDS * k;
        o[0] = p->elevationDegrees;
        o[1] = p->azimuthDegrees;
        o[2] = p->elevationVelocityDegreesPerSecond;
        o[3] = p->azimuthVelocityDegreesPerSecond;
        o[4] = p->flag;
        o[5] = p->sweepElevationDegrees;
        o[6] = p->sweepAzimuthDegrees;
        o[7] = a->mode[0];
        o[8] = a->value[0];
        o[9] = a->mode[1];
        o[10] = a->value[1];
        o[11] = s->t;
        s->queue[s->n % 4] = *a;
        // What was asked for some positions ago
        if (s->n >= s->latency) {
            RKScanAction *b = &s->queue[(s->n - s->latency) % 4];
            for (int j = 0; j < 2; j++) {
                int m = b->mode[j] & RKPedestalInstructTypeModeMask, x;
                if (m == RKPedestalInstructTypeNone) continue;
                if (RKInstructIsElevation(b->mode[j])) x = 0; else if (RKInstructIsAzimuth(b->mode[j])) x = 1; else { bad++; continue; }
                if (m != RKPedestalInstructTypeModeStandby && m != RKPedestalInstructTypeModeSlew && m != RKPedestalInstructTypeModePoint) { bad++; continue; }
                s->mode[x] = m;
                s->target[x] = b->value[j];
            }
        }
        for (int x = 0; x < 2; x++) {
            double w = 0.0;
            if (s->mode[x] == RKPedestalInstructTypeModeSlew) {
                w = s->target[x];
            } else if (s->mode[x] == RKPedestalInstructTypeModePoint) {
                double d = s->target[x] - s->x[x];
                if (x) d = remainder(d, 360.0);
                w = 3.0 * d;
                w = w > 20.0 ? 20.0 : w < -20.0 ? -20.0 : w;
            }
            double e = s->acceleration * s->dt;
            double d = w - s->v[x];
            s->v[x] += d > e ? e : d < -e ? -e : d;
            s->x[x] += s->v[x] * s->dt;
        }
        s->x[1] = fmod(s->x[1] + 720.0, 360.0);
        if ((float)s->x[1] >= 360.0f) s->x[1] = 0.0;
        s->t += s->dt;
        s->n++;
    }
    return bad;
}
