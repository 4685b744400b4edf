// File manager
#include <RadarKit.h>
#include <errno.h>
#include "vt.h"

static RKFileManager *fm_engine;
static int fm_capacity[3];
static void fm_hook(void *arg) {
    for (int k = 0; k < 3; k++) {
        if (fm_engine && fm_engine->workers && (RKFileRemover *)arg == fm_engine->workers + k && fm_capacity[k]) ((RKFileRemover *)arg)->capacity = fm_capacity[k];
    }
}

// Each look at the clock takes 50 ms
static void fm_clock(void) { vt_time_value += 0.05; }

RKFileManager *vt_fm(const char *path, const int desc, const uint64_t *limits, const int age, const int *capacity, const int verbose) {
    static RKRadarDesc d;
    RKFileManager *m = RKFileManagerInit();
    if (desc) {
        memset(&d, 0, sizeof(d));
        strncpy(d.dataPath, path, sizeof(d.dataPath) - 1);
        RKFileManagerSetEssentials(m, &d);
    }
    if (desc != 1) RKFileManagerSetPathToMonitor(m, desc ? "elsewhere" : path);
    if (limits[0]) RKFileManagerSetDiskUsageLimit(m, limits[0]);
    if (limits[1]) RKFileManagerSetRawDataLimit(m, limits[1]);
    if (limits[2]) RKFileManagerSetMomentDataLimit(m, limits[2]);
    if (limits[3]) RKFileManagerSetHealthDataLimit(m, limits[3]);
    if (age >= 0) RKFileManagerSetMaximumLogAgeInDays(m, age);
    RKFileManagerSetVerbose(m, verbose);
    memcpy(fm_capacity, capacity, sizeof(fm_capacity));
    fm_engine = m;
    return m;
}

int vt_fm_start(RKFileManager *m) {
    vt_usleep_divide = 500;
    vt_thread_hook = fm_hook;
    vt_time_fixed = 1;
    vt_time_value = 1.0e9;
    vt_time_hook = fm_clock;
    return RKFileManagerStart(m);
}

static int fm_lock(RKFileManager *m) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    t.tv_sec += 10;
    return pthread_mutex_timedlock(&m->mutex, &t);
}

// Waits until no kind takes more than it may. 0 = that is so, 1 = not yet, 2 = the manager does not let go
int vt_fm_settle(RKFileManager *m, uint64_t *usage, const int seconds) {
    for (int i = 0; i < 1000 * seconds; i++) {
        if (fm_lock(m)) return 2;
        int more = 0;
        for (int k = 0; k < 3; k++) {
            usage[k] = m->workers[k].usage;
            more |= m->workers[k].usage > m->workers[k].limit;
        }
        pthread_mutex_unlock(&m->mutex);
        if (!more) return 0;
        usleep(1000);
    }
    return 1;
}

int vt_fm_stop(RKFileManager *m) {
    int r = RKFileManagerStop(m);
    vt_time_hook = NULL;
    vt_time_fixed = 0;
    vt_thread_hook = NULL;
    vt_usleep_divide = 1;
    return r;
}

void vt_fm_free(RKFileManager *m) {
    fm_engine = NULL;
    RKFileManagerFree(m);
}

void vt_offset(const int64_t s) { vt_time_offset = s; }

// Threads that add files of a kind each while the manager works, and perhaps is stopped
typedef struct { RKFileManager *m; const char **names; int count, type, size, rc; } Adder;
static void *fm_adder(void *in) {
    Adder *a = (Adder *)in;
    char block[4096];
    memset(block, 'x', sizeof(block));
    for (int i = 0; i < a->count; i++) {
        FILE *f = fopen(a->names[i], "w");
        if (f == NULL) {
            a->rc = -100;
            break;
        }
        fwrite(block, 1, a->size, f);
        fclose(f);
        int r = RKFileManagerAddFile(a->m, a->names[i], a->type);
        if (r && r != RKResultFileManagerBufferNotResuable) a->rc = r;
        if (i % 4 == 0) usleep(100);
    }
    return NULL;
}

void vt_fm_threads(RKFileManager *m, const int threads, const int count, const char **names, const int *types, const int size, const int stop, int *rc) {
    pthread_t tid[16];
    Adder a[16];
    for (int k = 0; k < threads; k++) {
        a[k] = (Adder){m, names + k * count, count, types[k], size, 0};
        pthread_create(&tid[k], NULL, fm_adder, &a[k]);
    }
    if (stop >= 0) {
        usleep(stop);
        RKFileManagerStop(m);
    }
    for (int k = 0; k < threads; k++) {
        pthread_join(tid[k], NULL);
        rc[k] = a[k].rc;
    }
}
