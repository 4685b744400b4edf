// Force-included in front of every /repo source file: keeps process-global names of concurrently
// running harness processes apart, lets a harness record destructive calls, advance the clock, shorten
// sleeps, inject write faults and survive exit().
#ifndef VT_INTERPOSE_H
#define VT_INTERPOSE_H
#include <stdio.h>
#include <stdlib.h>
#include <semaphore.h>
#include <fcntl.h>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>
#include <fftw3.h>
// FFTW_MEASURE picks plans by timing, so results would differ in the last bits from run to run
#undef FFTW_MEASURE
#define FFTW_MEASURE FFTW_ESTIMATE
sem_t *vt_sem_open(const char *, int, ...);
int vt_sem_unlink(const char *);
int vt_sem_wait(sem_t *);
int vt_system(const char *);
ssize_t vt_write(int, const void *, size_t);
int vt_gettimeofday(struct timeval *, void *);
int vt_usleep(useconds_t);
void vt_exit(int) __attribute__((noreturn));
#define sem_open vt_sem_open
#define sem_unlink vt_sem_unlink
#define sem_wait vt_sem_wait
#define system(x) vt_system(x)
#define write(a, b, c) vt_write(a, b, c)
#define gettimeofday(a, b) vt_gettimeofday(a, b)
#define usleep(a) vt_usleep(a)
#define exit vt_exit
#include <pthread.h>
#include <sys/stat.h>
int vt_remove(const char *), vt_rmdir(const char *), vt_unlink(const char *), vt_thread(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
time_t vt_time(time_t *);
#define remove(a) vt_remove(a)
#define rmdir(a) vt_rmdir(a)
#define unlink(a) vt_unlink(a)
#define pthread_create(a, b, c, d) vt_thread(a, b, c, d)
#define time(a) vt_time(a)
#include <sys/socket.h>
ssize_t vt_send(int, const void *, size_t, int);
#define send(a, b, c, d) vt_send(a, b, c, d)
#include <string.h>
void *vt_memset(void *, int, size_t);
int vt_mutex_unlock(pthread_mutex_t *);
#define memset(a, b, c) vt_memset(a, b, c)
#define pthread_mutex_unlock(a) vt_mutex_unlock(a)
#endif
