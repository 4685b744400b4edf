// Preferences and the log
#include <RadarKit.h>
#include <dirent.h>
#include "vt.h"

int vt_pref_count(RKPreference *p) { return p->count; }

// Fields of an object
const char *vt_pref_object(RKPreference *p, int k, int *flags, double *v, int *b, const char **keyword) {
    RKPreferenceObject *o = &p->objects[k];
    flags[0] = o->isValid;
    flags[1] = o->isNumeric;
    flags[2] = o->numericCount;
    for (int i = 0; i < 4; i++) {
        v[i] = o->doubleValues[i];
        b[i] = o->boolValues[i];
    }
    *keyword = o->keyword;
    return o->valueString;
}

int vt_pref_index(RKPreference *p, RKPreferenceObject *o) { return o ? (int)(o - p->objects) : -1; }

int vt_open_files(void) {
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d)) n++;
    closedir(d);
    return n;
}

// A control between guards. Returns the result, -1 when the guards are damaged
int vt_pref_control(RKPreference *p, const char *keyword, char *label, char *command, const char *old) {
    struct { uint64_t a; RKControl c; uint64_t b; } s = { 0x1234567, {0}, 0x7654321 };
    strcpy(s.c.label, old);
    strcpy(s.c.command, old);
    const int r = RKPreferenceGetValueOfKeyword(p, 0, keyword, &s.c, RKParameterTypeControl, 0);
    if (s.a != 0x1234567 || s.b != 0x7654321 || s.c.uid || s.c.state || s.c.level) return -1;
    if (memchr(s.c.label, 0, sizeof(s.c.label)) == NULL || memchr(s.c.command, 0, sizeof(s.c.command)) == NULL) return -2;
    strcpy(label, s.c.label);
    strcpy(command, s.c.command);
    return r;
}

int vt_pref_calibration(RKPreference *p, const char *keyword, char *name, float *v) {
    struct { uint64_t a; RKWaveformCalibration c; uint64_t b; } s;
    memset(&s, 0, sizeof(s));
    s.a = s.b = 0x1234567;
    const int r = RKPreferenceGetValueOfKeyword(p, 0, keyword, &s.c, RKParameterTypeWaveformCalibration, 0);
    if (s.a != 0x1234567 || s.b != 0x1234567 || s.c.uid) return -1;
    if (memchr(s.c.name, 0, sizeof(s.c.name)) == NULL) return -2;
    strcpy(name, s.c.name);
    for (int k = 0; k < RKMaximumFilterCount; k++) {
        v[4 * k] = s.c.ZCal[k][0];
        v[4 * k + 1] = s.c.ZCal[k][1];
        v[4 * k + 2] = s.c.DCal[k];
        v[4 * k + 3] = s.c.PCal[k];
    }
    return r ? -10 - r : s.c.count;
}

// The log: everything as given, the stream a file
static RKGlobalParameters saved;
static int have_saved = 0;
void vt_log_setup(const char *program, const char *logfile, const char *folder, const char *root, int time_only, int daily, int color, const char *stream) {
    if (!have_saved) saved = rkGlobalParameters;
    have_saved = 1;
    RKSetProgramName(program);
    rkGlobalParameters.logfile[0] = '\0';
    rkGlobalParameters.stream = NULL;
    RKSetRootDataFolder(root);
    if (logfile && !strcmp(logfile, "default")) {
        RKSetLogfileToDefault();
    } else {
        RKSetLogfile(logfile);
    }
    snprintf(rkGlobalParameters.logFolder, sizeof(rkGlobalParameters.logFolder), "%s", folder);
    RKSetUseDailyLog(daily);
    rkGlobalParameters.logTimeOnly = time_only;
    RKSetWantColor(color);
    rkGlobalParameters.stream = stream ? fopen(stream, "w") : NULL;
}

void vt_log_restore(void) {
    FILE *s = rkGlobalParameters.stream;
    rkGlobalParameters = saved;
    if (s) fclose(s);
}

const char *vt_log_name(int k) {
    return k == 0 ? rkGlobalParameters.logfile : k == 1 ? rkGlobalParameters.rootDataFolder : rkGlobalParameters.program;
}

int vt_log(const char *format, const char *s, int d) {
    return RKLog(format, s, d);
}

typedef struct { int id, n, length; volatile int *go; } LogJob;

static void *logger(void *p) {
    LogJob *j = p;
    char s[4096];
    memset(s, 'a' + j->id, sizeof(s));
    while (!*j->go) ;
    for (int k = 0; k < j->n; k++) {
        s[j->length] = '\0';
        RKLog(k % 3 ? ">T%d %d %s\n" : "T%d %d %s", j->id, k, s);
    }
    return NULL;
}

void vt_log_threads(int threads, int n, int length) {
    pthread_t t[16];
    LogJob j[16];
    volatile int go = 0;
    for (int i = 0; i < threads; i++) {
        j[i] = (LogJob){i, n, length, &go};
        pthread_create(&t[i], NULL, logger, &j[i]);
    }
    go = 1;
    for (int i = 0; i < threads; i++) pthread_join(t[i], NULL);
}
