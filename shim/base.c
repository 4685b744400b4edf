// Support functions shared by all harnesses
#include <RadarKit.h>
#include <stdarg.h>
#include <semaphore.h>

// Semaphores of the workers by the number in their names
static sem_t *volatile vt_sems[64];
static volatile int vt_slow_core = 0, vt_slow_us = 0, vt_slow_every = 1, vt_slow_count = 0;

// Semaphore names get the process id, so that harness processes can run side by side
sem_t *vt_sem_open(const char *name, int flag, ...) {
    char s[256];
    mode_t mode = 0600;
    unsigned int value = 0;
    va_list ap;
    va_start(ap, flag);
    if (flag & O_CREAT) {
        mode = va_arg(ap, int);
        value = va_arg(ap, unsigned int);
    }
    va_end(ap);
    snprintf(s, sizeof(s), "vt%d-%s", (int)getpid(), name[0] == '/' ? name + 1 : name);
    sem_t *sem = flag & O_CREAT ? sem_open(s, flag, mode, value) : sem_open(s, flag);
    const char *dash = strrchr(s, '-');
    const int core = dash ? atoi(dash + 1) : 0;
    if (core >= 0 && core < 64) vt_sems[core] = sem;
    return sem;
}

// A worker that is late: it goes on so many microseconds after it has been told to, every so many times
void vt_sem_slow(int core, int us, int every) {
    vt_slow_us = 0;
    memset((void *)vt_sems, 0, sizeof(vt_sems));
    vt_slow_core = core;
    vt_slow_every = every;
    vt_slow_count = 0;
    vt_slow_us = us;
}

int vt_sem_wait(sem_t *sem) {
    const int r = sem_wait(sem);
    if (vt_slow_us && vt_sems[vt_slow_core] == sem && vt_slow_count++ % vt_slow_every == 0) {
        struct timespec t = {0, 1000L * vt_slow_us};
        nanosleep(&t, NULL);
    }
    return r;
}

int vt_sem_unlink(const char *name) {
    char s[256];
    snprintf(s, sizeof(s), "vt%d-%s", (int)getpid(), name[0] == '/' ? name + 1 : name);
    return sem_unlink(s);
}

// system(): nothing is ever executed; the command is recorded.
static char vt_system_log[65536];
static size_t vt_system_len = 0;
static pthread_mutex_t vt_system_lock = PTHREAD_MUTEX_INITIALIZER;

int vt_system(const char *cmd) {
    pthread_mutex_lock(&vt_system_lock);
    size_t n = cmd ? strlen(cmd) : 0;
    if (cmd && vt_system_len + n + 2 < sizeof(vt_system_log)) {
        memcpy(vt_system_log + vt_system_len, cmd, n);
        vt_system_len += n;
        vt_system_log[vt_system_len++] = '\n';
        vt_system_log[vt_system_len] = 0;
    }
    pthread_mutex_unlock(&vt_system_lock);
    return 0;
}

const char *vt_system_calls(void) { return vt_system_log; }
void vt_system_reset(void) { vt_system_len = 0; vt_system_log[0] = 0; }

void vt_quiet(void) {
    RKSetWantScreenOutput(false);
    RKSetWantColor(false);
}

// write(): after vt_write_left bytes (if not negative) every further write fails with ENOSPC
#include <errno.h>
#include "vt.h"
volatile int64_t vt_write_left = -1;
ssize_t vt_write(int fd, const void *p, size_t n) {
    if (vt_write_left < 0) return write(fd, p, n);
    if (vt_write_left == 0) {
        errno = ENOSPC;
        return -1;
    }
    if (n > vt_write_left) n = vt_write_left;
    ssize_t r = write(fd, p, n);
    if (r > 0) vt_write_left -= r;
    return r;
}

// gettimeofday(): a hook, then real time or the time the harness set
void (*volatile vt_time_hook)(void) = NULL;
volatile int vt_time_fixed = 0;
volatile double vt_time_value = 0.0;
int vt_gettimeofday(struct timeval *t, void *z) {
    if (vt_time_hook) vt_time_hook();
    if (!vt_time_fixed) return gettimeofday(t, NULL);
    t->tv_sec = (time_t)floor(vt_time_value);
    t->tv_usec = (suseconds_t)round(1.0e6 * (vt_time_value - floor(vt_time_value)));
    if (t->tv_usec >= 1000000) {
        t->tv_sec++;
        t->tv_usec -= 1000000;
    }
    return 0;
}

// usleep(): polls of the engines, shortened by a factor when the harness wants that. With the gate closed, every thread
// but the one that closed it waits in usleep() until the harness lets it go on to its next usleep().
volatile int vt_usleep_divide = 1;
#define VT_GATES 8
static pthread_mutex_t gate_lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t gate_cond = PTHREAD_COND_INITIALIZER;
static int gate_closed = 0, gate_count = 0, gate_parked[VT_GATES], gate_go[VT_GATES];
static uint64_t gate_round = 0;
static pthread_t gate_owner;
static __thread int gate_me;
static __thread uint64_t gate_my_round = 0;

int vt_usleep(useconds_t n) {
    pthread_mutex_lock(&gate_lock);
    if (gate_closed && !pthread_equal(pthread_self(), gate_owner) && (gate_my_round == gate_round || gate_count < VT_GATES)) {
        if (gate_my_round != gate_round) {
            gate_my_round = gate_round;
            gate_me = gate_count++;
            gate_go[gate_me] = 0;
        }
        const uint64_t round = gate_round;
        gate_parked[gate_me] = 1;
        pthread_cond_broadcast(&gate_cond);
        while (gate_closed && gate_round == round && !gate_go[gate_me]) pthread_cond_wait(&gate_cond, &gate_lock);
        if (gate_round == round) gate_go[gate_me] = gate_parked[gate_me] = 0;
        pthread_mutex_unlock(&gate_lock);
        return 0;
    }
    pthread_mutex_unlock(&gate_lock);
    const useconds_t t = n / vt_usleep_divide;
    return t ? usleep(t) : sched_yield();
}

void vt_gate_close(void) {
    pthread_mutex_lock(&gate_lock);
    gate_owner = pthread_self();
    gate_round++;
    gate_count = 0;
    memset(gate_parked, 0, sizeof(gate_parked));
    memset(gate_go, 0, sizeof(gate_go));
    gate_closed = 1;
    pthread_mutex_unlock(&gate_lock);
}

void vt_gate_open(void) {
    pthread_mutex_lock(&gate_lock);
    gate_closed = 0;
    pthread_cond_broadcast(&gate_cond);
    pthread_mutex_unlock(&gate_lock);
}

// Waits until thread k is in usleep(); 0 = it is
static int gate_wait(int k) {
    struct timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    t.tv_sec += 20;
    while (k >= gate_count || !gate_parked[k] || gate_go[k]) if (pthread_cond_timedwait(&gate_cond, &gate_lock, &t)) return 1;
    return 0;
}

int vt_gate_wait(int k) {
    pthread_mutex_lock(&gate_lock);
    int r = gate_wait(k);
    pthread_mutex_unlock(&gate_lock);
    return r;
}

int vt_gate_step(int k) {
    pthread_mutex_lock(&gate_lock);
    int r = gate_wait(k);
    if (r == 0) {
        gate_go[k] = 1;
        pthread_cond_broadcast(&gate_cond);
        r = gate_wait(k);
    }
    pthread_mutex_unlock(&gate_lock);
    return r;
}

void vt_time_set(double t) {
    vt_time_fixed = 1;
    vt_time_value = t;
}

// exit(): comes back to the harness when it asked for that
__thread jmp_buf *vt_exit_jump = NULL;
__thread int vt_exit_code = 0;
void vt_exit(int code) {
    vt_exit_code = code;
    if (vt_exit_jump) longjmp(*vt_exit_jump, 1);
    exit(code);
}

// remove(), rmdir(), unlink(): only within the folder of the harness, if it named one; what is outside is recorded instead
static char contain[4096] = "";
static volatile int contain_escapes = 0;
static int contained(const char *path) {
    if (!contain[0]) return 1;
    char here[4096], full[12288];
    if (path[0] != '/' && getcwd(here, sizeof(here)) == NULL) here[0] = 0;
    snprintf(full, sizeof(full), "%s%s%s", path[0] == '/' ? "" : here, path[0] == '/' ? "" : "/", path);
    const size_t n = strlen(contain);
    if (!strncmp(full, contain, n) && full[n] == '/' && !strstr(full, "/../")) return 1;
    contain_escapes++;
    return 0;
}
void vt_contain(const char *path) {
    snprintf(contain, sizeof(contain), "%s", path);
    contain_escapes = 0;
}
int vt_contain_escapes(void) { return contain_escapes; }
int vt_remove(const char *p) { return contained(p) ? remove(p) : -1; }
int vt_rmdir(const char *p) { return contained(p) ? rmdir(p) : -1; }
int vt_unlink(const char *p) { return contained(p) ? unlink(p) : -1; }

// pthread_create(): shows the harness the argument first
void (*volatile vt_thread_hook)(void *) = NULL;
int vt_thread(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    if (vt_thread_hook) vt_thread_hook(arg);
    return pthread_create(t, a, f, arg);
}

// time(): real time and the offset of the harness
volatile int64_t vt_time_offset = 0;
time_t vt_time(time_t *t) {
    time_t r = time(NULL) + vt_time_offset;
    if (t) *t = r;
    return r;
}
