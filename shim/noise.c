// Noise estimators
#include <RadarKit.h>
#include "vt.h"

// x: n x 2 x (i, q) x g floats
int vt_ray_noise(uint32_t cap, int n, uint32_t g, uint32_t raw, uint32_t width, float dr, const RKFloat *x, const RKFloat *fallback, RKFloat *noise) {
    RKMomentScratch *s;
    RKConfig config;
    RKBuffer buffer;
    int j, c;
    memset(&config, 0, sizeof(config));
    config.noise[0] = fallback[0];
    config.noise[1] = fallback[1];
    RKMomentScratchAlloc(&s, cap, 0, "x");
    s->config = &config;
    s->gateSizeMeters = dr;
    s->noise[0] = s->noise[1] = -1.0f;
    RKPulseBufferAlloc(&buffer, cap, n);
    RKPulse **pulses = (RKPulse **)malloc(n * sizeof(RKPulse *));
    for (j = 0; j < n; j++) {
        pulses[j] = RKGetPulseFromBuffer(buffer, j);
        pulses[j]->header.gateCount = raw;
        pulses[j]->header.downSampledGateCount = g;
        pulses[j]->header.pulseWidthSampleCount = width;
        for (c = 0; c < 2; c++) {
            RKIQZ Z = RKGetSplitComplexDataFromPulse(pulses[j], c);
            const RKFloat *xi = x + (size_t)(j * 2 + c) * 2 * g;
            memcpy(Z.i, xi, g * sizeof(RKFloat));
            memcpy(Z.q, xi + g, g * sizeof(RKFloat));
        }
    }
    const int r = RKRayNoiseEstimator(s, pulses, n);
    noise[0] = s->noise[0];
    noise[1] = s->noise[1];
    free(pulses);
    RKPulseBufferFree(buffer);
    RKMomentScratchFree(s);
    return r;
}

// x: depth x 2 x gates complex. Returns the number of configurations added
int vt_measure_noise(uint32_t cap, uint32_t depth, uint32_t at, const uint32_t *gates, const uint32_t *status, const RKComplex *x, uint32_t stride,
                     int filters, const uint32_t *lengths, uint32_t ratio, RKFloat *noise) {
    RKRadar *radar = (RKRadar *)calloc(1, sizeof(RKRadar));
    radar->pulseEngine = (RKPulseEngine *)calloc(1, sizeof(RKPulseEngine));
    radar->desc.pulseBufferDepth = depth;
    radar->desc.pulseToRayRatio = ratio;
    radar->desc.configBufferDepth = 4;
    RKConfigBufferAlloc(&radar->configs, 4);
    radar->configIndex = 1;
    radar->pulseIndex = at;
    radar->pulseEngine->filterGroupCount = 1;
    radar->pulseEngine->filterCounts[0] = filters;
    for (int k = 0; k < filters; k++) radar->pulseEngine->filterAnchors[0][k].length = lengths[k];
    RKPulseBufferAlloc(&radar->pulses, cap, depth);
    for (uint32_t i = 0; i < depth; i++) {
        RKPulse *p = RKGetPulseFromBuffer(radar->pulses, i);
        p->header.gateCount = gates[i];
        p->header.s = status[i];
        for (int c = 0; c < 2; c++) memcpy(RKGetComplexDataFromPulse(p, c), x + ((size_t)i * 2 + c) * stride, gates[i] * sizeof(RKComplex));
    }
    const int div = vt_usleep_divide;
    vt_usleep_divide = 1000000;
    RKMeasureNoise(radar);
    vt_usleep_divide = div;
    const RKConfig *c = &radar->configs[RKPreviousModuloS(radar->configIndex, 4)];
    noise[0] = c->noise[0];
    noise[1] = c->noise[1];
    const int k = radar->configIndex - 1;
    RKPulseBufferFree(radar->pulses);
    free(radar->configs);
    free(radar->pulseEngine);
    free(radar);
    return k;
}

void vt_noise_config(const RKFloat *fallback, RKFloat *noise) {
    RKMomentScratch *s = (RKMomentScratch *)calloc(1, sizeof(RKMomentScratch));
    RKConfig config;
    memset(&config, 0, sizeof(config));
    s->config = &config;
    memcpy(config.noise, fallback, sizeof(config.noise));
    noise[2] = RKNoiseFromConfig(s, NULL, 10) == RKResultSuccess;
    memcpy(noise, s->noise, sizeof(config.noise));
    free(s);
}
