// The clock, at given times
#include <RadarKit.h>
#include "vt.h"
extern void vt_time_set(double t);

// kind of step: 0 reading with reference u at time x, 1 reset, 2 offset u, 3 tic rate u (seconds per tic), 4 rate the other way
void vt_clock(RKClock *c, int n, const uint8_t *kind, const double *x, const double *u, double *y, double *t) {
    struct timeval v;
    for (int k = 0; k < n; k++) {
        vt_time_value = x[k];
        switch (kind[k]) {
            case 0:
                y[k] = RKClockGetTime(c, u[k], &v);
                t[k] = (double)v.tv_sec + 1.0e-6 * (double)v.tv_usec;
                break;
            case 1:
                RKClockReset(c);
                break;
            case 2:
                RKClockSetOffset(c, u[k]);
                break;
            case 3:
                RKClockSetDxDu(c, u[k]);
                break;
            case 4:
                RKClockSetDuDx(c, u[k]);
                break;
        }
    }
}
