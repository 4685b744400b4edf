// Positions and pulses through the position engine
#include <RadarKit.h>
#include "vt.h"

typedef struct { double time; float el, az, vel, vaz, sel, saz; uint32_t flag, rel, raz; } Pos;
typedef struct { double time; uint32_t gateCount; float gateSize; uint32_t skip; } Pul;
typedef struct { float el, az, vel, vaz; uint32_t rel, raz, marker, status; uint64_t rev; float sel, saz, size; uint32_t start, count; uint64_t i; uint32_t same; } Out;

// n positions, m pulses, pushed as the schedule says (bytes: number of positions, number of pulses, ...). before[p]: number of the last position at or before pulse p.
int vt_position_run(int n, const Pos *p, int m, const Pul *u, uint32_t posDepth, uint32_t pulseDepth, int ns, const uint8_t *sched, const int *before, Out *out, int *revisions) {
    RKRadarDesc desc;
    memset(&desc, 0, sizeof(desc));
    desc.positionBufferDepth = posDepth;
    desc.pulseBufferDepth = pulseDepth;
    desc.configBufferDepth = 2 * m + 10;
    RKConfig *configs;
    RKConfigBufferAlloc(&configs, desc.configBufferDepth);
    for (int k = 0; k < desc.configBufferDepth; k++) configs[k].i = (uint64_t)k - desc.configBufferDepth;
    uint32_t positionIndex = 0, configIndex = 0, pulseIndex = 0;
    RKPosition *positions = calloc(posDepth, sizeof(RKPosition));
    for (int k = 0; k < posDepth; k++) positions[k].i = (uint64_t)k - posDepth;
    RKBuffer pulses;
    RKPulseBufferAlloc(&pulses, 64, pulseDepth);
    for (int k = 0; k < pulseDepth; k++) RKGetPulseFromBuffer(pulses, k)->header.gateCount = u[0].gateCount;
    RKConfigAdvanceEllipsis(configs, &configIndex, desc.configBufferDepth, RKConfigKeySweepElevation, 77.0, RKConfigKeyNull);
    const uint32_t first = configIndex;
    RKPositionEngine *e = RKPositionEngineInit();
    RKPositionEngineSetEssentials(e, &desc, positions, &positionIndex, configs, &configIndex, pulses, &pulseIndex);
    vt_usleep_divide = 40;
    RKPositionEngineStart(e);
    int i = 0, k = 0, t = 0, s = 0, rc = 0;
    double t0 = -1.0;
    while (t < m) {
        int moved = 0;
        int a = ns ? sched[s % ns] & 15 : 15, b = ns ? sched[s % ns] >> 4 : 15;
        s++;
        if (a == 0 && b == 0) a = b = 1;
        // At most these many ahead of what the engine has finished
        const int used = t ? before[t - 1] : 0;
        while (a-- > 0 && i < n && i - used < (int)(posDepth - posDepth / 8 - 2)) {
            RKPosition *x = &positions[positionIndex];
            x->flag = 0;
            x->i += posDepth;
            positions[RKNextNModuloS(positionIndex, posDepth / 8, posDepth)].flag = 0;
            x->elevationDegrees = p[i].el;
            x->azimuthDegrees = p[i].az;
            x->elevationVelocityDegreesPerSecond = p[i].vel;
            x->azimuthVelocityDegreesPerSecond = p[i].vaz;
            x->sweepElevationDegrees = p[i].sel;
            x->sweepAzimuthDegrees = p[i].saz;
            x->rawElevation = *(RKFourByte *)&p[i].rel;
            x->rawAzimuth = *(RKFourByte *)&p[i].raz;
            x->timeDouble = p[i].time;
            x->flag = p[i].flag & ~(RKPositionFlagReady | RKPositionFlagUsed);
            // Taken by the other thread only when ready, which may be after the index
            if (p[i].rel & 1) {
                positionIndex = RKNextModuloS(positionIndex, posDepth);
                if (p[i].rel & 2) usleep(50);
                __sync_synchronize();
                x->flag |= RKPositionFlagReady;
            } else {
                x->flag |= RKPositionFlagReady;
                __sync_synchronize();
                positionIndex = RKNextModuloS(positionIndex, posDepth);
            }
            i++;
            moved = 1;
        }
        while (b-- > 0 && k < m && k - t < (int)(pulseDepth / 2)) {
            RKPulse *x = RKGetPulseFromBuffer(pulses, pulseIndex);
            x->header.s = RKPulseStatusVacant;
            x->header.i = k;
            x->header.marker = 0xffff;
            x->header.azimuthDegrees = x->header.elevationDegrees = NAN;
            x->header.gateCount = u[k].gateCount;
            x->header.gateSizeMeters = u[k].gateSize;
            if (u[k].skip & 1) {
                // Handed out first, time stamp and processing later
                x->header.timeDouble = 0.0;
                __sync_synchronize();
                pulseIndex = RKNextModuloS(pulseIndex, pulseDepth);
                if (u[k].skip & 2) usleep(100);
                x->header.timeDouble = u[k].time;
                __sync_synchronize();
                x->header.s |= RKPulseStatusRingProcessed;
            } else {
                x->header.timeDouble = u[k].time;
                x->header.s = RKPulseStatusHasIQData | RKPulseStatusCompressed | RKPulseStatusRingProcessed;
                __sync_synchronize();
                pulseIndex = RKNextModuloS(pulseIndex, pulseDepth);
            }
            k++;
            moved = 1;
        }
        while (t < k) {
            RKPulse *x = RKGetPulseFromBuffer(pulses, t % pulseDepth);
            if (!(x->header.s & RKPulseStatusHasPosition)) break;
            const RKConfig *c = &configs[x->header.configIndex % desc.configBufferDepth];
            out[t].el = x->header.elevationDegrees;
            out[t].az = x->header.azimuthDegrees;
            out[t].vel = x->header.elevationVelocityDegreesPerSecond;
            out[t].vaz = x->header.azimuthVelocityDegreesPerSecond;
            memcpy(&out[t].rel, &x->header.rawElevation, 4);
            memcpy(&out[t].raz, &x->header.rawAzimuth, 4);
            out[t].marker = x->header.marker;
            out[t].status = x->header.s;
            out[t].rev = c->i;
            out[t].sel = c->sweepElevation;
            out[t].saz = c->sweepAzimuth;
            out[t].size = c->pulseGateSize;
            out[t].start = c->startMarker;
            out[t].count = c->pulseGateCount;
            out[t].i = x->header.i;
            out[t].same = x->header.timeDouble == u[t].time && x->header.gateCount == u[t].gateCount && x->header.gateSizeMeters == u[t].gateSize;
            t++;
            moved = 1;
        }
        if (moved) t0 = -1.0;
        else {
            struct timespec z;
            clock_gettime(CLOCK_MONOTONIC, &z);
            const double now = z.tv_sec + 1e-9 * z.tv_nsec;
            if (t0 < 0) t0 = now;
            else if (now - t0 > 8.0) {
                rc = -1 - t;
                break;
            }
            usleep(20);
        }
    }
    RKPositionEngineStop(e);
    *revisions = (int)configIndex - (int)first;
    vt_usleep_divide = 1;
    RKPositionEngineFree(e);
    RKPulseBufferFree(pulses);
    RKConfigBufferFree(configs);
    free(positions);
    return rc;
}
