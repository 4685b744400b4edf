// Moment processors on one or more rays
#include <RadarKit.h>

extern RKFFTModule *vt_fft(uint32_t capacity);

// A ray: n pulses of g gates, first pulse number i0, x: n x 2 x 2 x cap floats (i and q split)
// out: slots of cap floats, see below. kind 0 PP, 1 hop, 2 ATSR, 3 multilag, 4 spectral
int vt_moment(uint32_t cap, int kind, int lag, int rays, const int *n, const int *g, const int *i0, const RKFloat **x,
              const float *noise, const float *factors, const RKFloat *s2z, const RKFloat *dcal, const RKFloat *pcal, RKFloat *out) {
    RKMomentScratch *s;
    RKConfig config;
    memset(&config, 0, sizeof(config));
    RKMomentScratchAlloc(&s, cap, 0, "x");
    s->config = &config;
    s->fftModule = vt_fft(2048);
    int r, j, c, k, rc = 0;
    for (r = 0; r < rays; r++) {
        RKBuffer buffer;
        RKPulseBufferAlloc(&buffer, cap, n[r]);
        RKPulse **pulses = (RKPulse **)malloc(n[r] * sizeof(RKPulse *));
        for (j = 0; j < n[r]; j++) {
            pulses[j] = RKGetPulseFromBuffer(buffer, j);
            pulses[j]->header.i = i0[r] + j;
            pulses[j]->header.gateCount = g[r];
            pulses[j]->header.downSampledGateCount = g[r];
            for (c = 0; c < 2; c++) {
                const RKFloat *xi = x[r] + ((j * 2 + c) * 2) * cap, *xq = xi + cap;
                RKIQZ Z = RKGetSplitComplexDataFromPulse(pulses[j], c);
                RKComplex *Y = RKGetComplexDataFromPulse(pulses[j], c);
                memcpy(Z.i, xi, cap * sizeof(RKFloat));
                memcpy(Z.q, xq, cap * sizeof(RKFloat));
                for (k = 0; k < cap; k++) {
                    Y[k].i = xi[k];
                    Y[k].q = xq[k];
                }
            }
        }
        prepareScratch(s);
        s->gateCount = g[r];
        s->userLagChoice = lag;
        s->noise[0] = noise[0];
        s->noise[1] = noise[1];
        s->velocityFactor = factors[0];
        s->widthFactor = factors[1];
        s->KDPFactor = factors[2];
        for (c = 0; c < 2; c++) memcpy(s->S2Z[c], s2z + c * cap, cap * sizeof(RKFloat));
        memcpy(s->dcal, dcal, cap * sizeof(RKFloat));
        memcpy(s->pcal, pcal, cap * sizeof(RKFloat));
        switch (kind) {
            case 0: rc = RKPulsePair(s, pulses, n[r]); break;
            case 1: rc = RKPulsePairHop(s, pulses, n[r]); break;
            case 2: rc = RKPulsePairATSR(s, pulses, n[r]); break;
            case 3: rc = RKMultiLag(s, pulses, n[r]); break;
            default: rc = RKSpectralMoment(s, pulses, n[r]); break;
        }
        if (rc != n[r]) return -1;
        for (j = 0; j < n[r]; j++) {
            for (c = 0; c < 2; c++) {
                RKIQZ Z = RKGetSplitComplexDataFromPulse(pulses[j], c);
                const RKFloat *xi = x[r] + ((j * 2 + c) * 2) * cap, *xq = xi + cap;
                if (memcmp(Z.i, xi, cap * sizeof(RKFloat)) || memcmp(Z.q, xq, cap * sizeof(RKFloat))) return -2;
            }
        }
        free(pulses);
        RKPulseBufferFree(buffer);
    }
    RKFloat *a[] = { s->Z[0], s->Z[1], s->V[0], s->V[1], s->W[0], s->W[1], s->Q[0], s->Q[1], s->S[0], s->S[1], s->SNR[0], s->SNR[1],
        s->ZDR, s->PhiDP, s->RhoHV, s->L[0], s->L[1], s->RhoXP[0], s->RhoXP[1], s->PhiXP[0], s->PhiXP[1],
        s->mX[0].i, s->mX[0].q, s->mX[1].i, s->mX[1].q, s->vX[0].i, s->vX[1].i, s->aR[0][0], s->aR[1][0],
        s->R[0][1].i, s->R[0][1].q, s->R[1][1].i, s->R[1][1].q, s->aR[0][2], s->aR[1][2] };
    for (k = 0; k < (int)(sizeof(a) / sizeof(a[0])); k++) memcpy(out + k * cap, a[k], cap * sizeof(RKFloat));
    RKMomentScratchFree(s);
    return 0;
}
