// Concurrent configuration changes
#include <RadarKit.h>
#include <semaphore.h>
#include "vt.h"

typedef struct { RKConfig *c; uint32_t *ix; uint32_t depth; int id; int n; volatile int *go; volatile int *stop; int bad; int reads; } Job;

static void *writer(void *p) {
    Job *j = p;
    while (!*j->go) ;
    for (int k = 1; k <= j->n; k++) {
        const double v = (double)(j->id * 100000 + k);
        RKConfigAdvanceEllipsis(j->c, j->ix, j->depth, RKConfigKeySweepElevation, v, RKConfigKeySNRThreshold, v, RKConfigKeyRingFilterGateCount, (uint32_t)v, RKConfigKeyNull);
    }
    return NULL;
}

static void *reader(void *p) {
    Job *j = p;
    while (!*j->go) ;
    while (!*j->stop) {
        RKConfig copy;
        const uint32_t a = *(volatile uint32_t *)j->ix;
        memcpy(&copy, &j->c[RKPreviousModuloS(a, j->depth)], sizeof(RKConfig));
        __sync_synchronize();
        // Unless the ring has come round in the meantime
        const uint32_t b = *(volatile uint32_t *)j->ix;
        __sync_synchronize();
        const uint64_t i = *(volatile uint64_t *)&j->c[RKPreviousModuloS(a, j->depth)].i;
        if (a != b || copy.i != i) continue;
        j->reads++;
        if (copy.sweepElevation != copy.SNRThreshold || (uint32_t)copy.sweepElevation != copy.ringFilterGateCount) j->bad++;
    }
    return NULL;
}

// Returns the number of inconsistent copies; history of the last depth slots stays in the buffer
int vt_config_threads(RKConfig *c, uint32_t *ix, uint32_t depth, int writers, int n, int readers, int *reads) {
    pthread_t t[16];
    Job j[16];
    volatile int go = 0, stop = 0;
    int bad = 0;
    for (int i = 0; i < writers + readers; i++) {
        j[i] = (Job){c, ix, depth, i + 1, n, &go, &stop, 0, 0};
        pthread_create(&t[i], NULL, i < writers ? writer : reader, &j[i]);
    }
    go = 1;
    for (int i = 0; i < writers; i++) pthread_join(t[i], NULL);
    stop = 1;
    for (int i = writers; i < writers + readers; i++) {
        pthread_join(t[i], NULL);
        bad += j[i].bad;
        *reads += j[i].reads;
    }
    return bad;
}

int vt_config_offsets(uint32_t *o) {
    int n = 0;
#define O(f) o[n++] = offsetof(RKConfig, f)
    O(i); O(sweepElevation); O(sweepAzimuth); O(startMarker); O(prt); O(pw); O(pulseGateCount); O(pulseGateSize); O(transitionGateCount); O(ringFilterGateCount); O(waveformId);
    O(noise); O(systemZCal); O(systemDCal); O(systemPCal); O(ZCal); O(DCal); O(PCal); O(SNRThreshold); O(SQIThreshold); O(waveformName); O(waveform); O(waveformDecimate);
    O(userResource); O(userIntegerParameters); O(userFloatParameters); O(vcpDefinition);
    return n;
}

void vt_waveform_layout(uint32_t *o) {
    o[0] = offsetof(RKWaveform, count);
    o[1] = offsetof(RKWaveform, filterCounts);
    o[2] = offsetof(RKWaveform, name);
    o[3] = sizeof(RKWaveform);
}
