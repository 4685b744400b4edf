// The socket server and client with handlers that log, and sends that take only part of what they are given
#include <RadarKit.h>
#include <errno.h>
#include <poll.h>
#include "vt.h"

// send(): consumes the plan (n > 0: at most n bytes, 0: EAGAIN, -1: EINTR, -2: EPIPE), unlimited after its end
static int vt_send_plan[256];
static volatile int vt_send_count = 0, vt_send_at = 0;
void vt_send_set(const int *plan, int n) {
    memcpy(vt_send_plan, plan, sizeof(int) * (n < 256 ? n : 256));
    vt_send_at = 0;
    vt_send_count = n < 256 ? n : 256;
}
int vt_send_used(void) { return vt_send_at; }
#undef send
volatile int64_t vt_sent[1024];
volatile int vt_send_wait = 0;
// pthread_mutex_unlock(): with a pause after it for the threads that asked for one, so that others get their turn
volatile int vt_unlock_jitter = 0;
__thread int vt_unlock_mine = 0;
#undef pthread_mutex_unlock
int vt_mutex_unlock(pthread_mutex_t *m) {
    const int r = pthread_mutex_unlock(m);
    if (vt_unlock_jitter && vt_unlock_mine) (usleep)(vt_unlock_jitter);
    return r;
}
ssize_t vt_send(int sd, const void *p, size_t n, int flags) {
    const int k = vt_send_count ? __sync_fetch_and_add(&vt_send_at, 1) : 0;
    if (k < vt_send_count) {
        const int c = vt_send_plan[k];
        if (c <= 0) {
            errno = c == 0 ? EAGAIN : (c == -1 ? EINTR : EPIPE);
            return -1;
        }
        if (n > c) n = c;
    }
    ssize_t r = send(sd, p, n, flags);
    if (r < 0 && errno == EAGAIN && vt_send_wait) {
        // No timeouts while the client empties its end
        struct pollfd f = {sd, POLLOUT, 0};
        poll(&f, 1, 10000);
        r = send(sd, p, n, flags);
    }
    if (r > 0 && sd < 1024) __sync_fetch_and_add(&vt_sent[sd], r);
    return r;
}

// ---- server
typedef struct { uint8_t *data; size_t size, cap; } Log;
static void append(Log *l, const void *p, size_t n) {
    if (l->size + n > l->cap) {
        l->cap = 2 * (l->size + n) + 4096;
        l->data = realloc(l->data, l->cap);
    }
    memcpy(l->data + l->size, p, n);
    l->size += n;
}
typedef struct {
    RKServer *M;
    pthread_mutex_t lock;
    Log log;                       // {int32 iid, uint32 length, text}
    volatile int terminates, welcomes, commands, streamed[RKServerMaximumOperators];
    int delay, streamCount, reply, welcome;
    uint32_t seed;
    RKOperator *ops[64];
    volatile int opCount;
} Server;

static int key(Server *s, RKOperator *O) {
    int k;
    for (k = 0; k < s->opCount; k++) if (s->ops[k] == O) return k;
    s->ops[s->opCount] = O;
    return s->opCount++;
}
static int welcomed(RKOperator *O) {
    Server *s = O->userResource;
    pthread_mutex_lock(&s->lock);
    key(s, O);
    s->welcomes++;
    pthread_mutex_unlock(&s->lock);
    return 0;
}
static int terminated(RKOperator *O) {
    Server *s = O->userResource;
    __sync_fetch_and_add(&s->terminates, 1);
    return 0;
}
// Content of a streamed packet: bytes of a small generator
void vt_net_fill(uint8_t *p, size_t n, uint32_t x) {
    x = x * 2654435761u + 12345;
    for (size_t k = 0; k < n; k++) {
        x = x * 1664525u + 1013904223u;
        p[k] = x >> 24;
    }
}
static int commanded(RKOperator *O) {
    Server *s = O->userResource;
    const uint32_t n = (uint32_t)strlen(O->cmd);
    int32_t h[2];
    pthread_mutex_lock(&s->lock);
    h[0] = key(s, O);
    h[1] = n;
    append(&s->log, h, sizeof(h));
    append(&s->log, O->cmd, n);
    pthread_mutex_unlock(&s->lock);
    if (s->delay) (usleep)(s->delay);
    if (!strcmp(O->cmd, "bye")) {
        RKOperatorHangUp(O);
        s->commands++;
        return 0;
    }
    char *r = malloc(n + 300000);
    if (s->reply == 1) {
        sprintf(r, "ACK %s" RKEOL, O->cmd);
        RKOperatorSendCommandResponse(O, r);
    } else if (s->reply == 2) {
        sprintf(r, "TXT %s" RKEOL, O->cmd);
        RKOperatorSendDelimitedString(O, r);
    } else if (s->reply == 3) {
        // a packet in many pieces
        RKNetDelimiter d;
        memset(&d, 0, sizeof(d));
        const size_t m = 97 * (n + 1) % 60000 + 13, q = m / 13;
        d.type = RKNetworkPacketTypeControls;
        d.subtype = n;
        d.size = (uint32_t)m;
        vt_net_fill((uint8_t *)r, m, n);
        RKOperatorSendPackets(O, &d, sizeof(d), r, q, r + q, q, r + 2 * q, q, r + 3 * q, q, r + 4 * q, q, r + 5 * q, q, r + 6 * q, q, r + 7 * q, q,
            r + 8 * q, q, r + 9 * q, q, r + 10 * q, q, r + 11 * q, q, r + 12 * q, m - 12 * q, NULL);
    }
    free(r);
    __sync_fetch_and_add(&s->commands, 1);
    return 0;
}
static int streaming(RKOperator *O) {
    Server *s = O->userResource;
    const int k = s->streamed[O->iid];
    if (k >= s->streamCount) return 0;
    RKNetDelimiter d = O->delimTx;
    const size_t m = k % 5 == 4 ? 0 : (s->seed * (k + 7) * 131u) % (k % 7 == 0 ? 120000 : 900);
    d.type = RKNetworkPacketTypeRayDisplay;
    d.subtype = k;
    d.size = (uint32_t)m;
    if (k % 11 == 10) {
        RKOperatorSendBeacon(O);
    } else if (k % 13 == 12) {
        char t[64];
        sprintf(t, "stream %d", k);
        RKOperatorSendDelimitedString(O, t);
    } else {
        uint8_t *p = malloc(m + 1);
        vt_net_fill(p, m, s->seed + k);
        RKOperatorSendPackets(O, &d, sizeof(d), p, m, NULL);
        free(p);
    }
    s->streamed[O->iid] = k + 1;
    return 0;
}
Server *vt_srv_new(int port, int maxClient, int delay, int streamCount, int reply, int welcome, uint32_t seed, const char *name) {
    Server *s = calloc(1, sizeof(Server));
    pthread_mutex_init(&s->lock, NULL);
    s->delay = delay;
    s->streamCount = streamCount;
    s->reply = reply;
    s->seed = seed;
    s->M = RKServerInit();
    if (name) RKServerSetName(s->M, name);
    RKServerSetPort(s->M, port);
    s->M->maxClient = maxClient;
    RKServerSetSharedResource(s->M, s);
    if (welcome) RKServerSetWelcomeHandlerToDefault(s->M);
    else RKServerSetWelcomeHandler(s->M, welcomed);
    RKServerSetTerminateHandler(s->M, terminated);
    RKServerSetCommandHandler(s->M, commanded);
    if (streamCount) RKServerSetStreamHandler(s->M, streaming);
    vt_usleep_divide = 20;
    RKServerStart(s->M);
    return s;
}
int vt_srv_state(Server *s) { return s->M->state == RKServerStateActive; }
int vt_srv_get(Server *s, int what) {
    switch (what) {
        case 0: return s->commands;
        case 1: return s->terminates;
        case 2: return s->welcomes;
        case 3: { int n = 0; for (int k = 0; k < RKServerMaximumOperators; k++) n += s->M->busy[k]; return n; }
        default: return 0;
    }
}
size_t vt_srv_log(Server *s, uint8_t *out) {
    pthread_mutex_lock(&s->lock);
    size_t n = s->log.size;
    if (out) memcpy(out, s->log.data, n);
    pthread_mutex_unlock(&s->lock);
    return n;
}
void vt_srv_free(Server *s) {
    RKServerStop(s->M);
    RKServerWait(s->M);
    (usleep)(2000);                // the server thread is past its last use of M
    RKServerFree(s->M);
    vt_usleep_divide = 1;
    free(s->log.data);
    free(s);
}

// ---- operator on a plain socket
RKOperator *vt_op_new(int sd, int timeout) {
    RKOperator *O = calloc(1, sizeof(RKOperator));
    O->M = RKServerInit();
    O->sid = sd;
    O->timeoutSeconds = timeout;
    O->M->timeoutSeconds = timeout;
    O->delimString.type = RKNetworkPacketTypePlainText;
    O->beacon.type = RKNetworkPacketTypeBeacon;
    pthread_mutex_init(&O->lock, NULL);
    return O;
}
void vt_op_free(RKOperator *O) {
    RKServerFree(O->M);
    free(O);
}
long vt_op_receive(RKOperator *O, uint8_t *out, uint8_t *delimiter) {
    long r = RKServerReceiveUserPayload(O, out, RKNetworkMessageFormatHeaderDefinedSize);
    memcpy(delimiter, &O->delimRx, sizeof(RKNetDelimiter));
    return r;
}
long vt_net_send(RKOperator *O, int sd, int n, uint8_t **p, size_t *m) {
#define P(k) (k < n ? (void *)p[k] : NULL), (k < n ? m[k] : 0)
#define ALL P(0), P(1), P(2), P(3), P(4), P(5), P(6), P(7), P(8), P(9), P(10), P(11), P(12), P(13), P(14), P(15), P(16), P(17), P(18), P(19), NULL
    return O ? RKOperatorSendPackets(O, ALL) : RKNetworkSendPackets(sd, ALL);
}

// ---- client
typedef struct { RKClient *C; pthread_mutex_t lock; Log log; volatile int inits, messages, exits; int initFails; } Client;
static int initiated(RKClient *C) {
    Client *c = C->userResource;
    c->inits++;
    if (c->initFails > 0) {
        c->initFails--;
        return 1;
    }
    return 0;
}
static int received(RKClient *C) {
    Client *c = C->userResource;
    const int f = C->format;
    uint32_t n = f == RKNetworkMessageFormatConstantSize ? C->blockLength : (f == RKNetworkMessageFormatHeaderDefinedSize ? C->netDelimiter.size : (uint32_t)strlen(C->userPayload));
    int over = f == RKNetworkMessageFormatHeaderDefinedSize && n && ((uint8_t *)C->userPayload)[n];
    pthread_mutex_lock(&c->lock);
    append(&c->log, &C->netDelimiter, sizeof(RKNetDelimiter));
    append(&c->log, &n, 4);
    append(&c->log, &over, 4);
    append(&c->log, C->userPayload, n);
    c->messages++;
    pthread_mutex_unlock(&c->lock);
    return 0;
}
static int exited(RKClient *C) {
    ((Client *)C->userResource)->exits++;
    return 0;
}
Client *vt_cli_new(int port, int format, int blockLength, int blocking, int timeout, int init, int initFails, int wait) {
    Client *c = calloc(1, sizeof(Client));
    RKClientDesc d;
    memset(&d, 0, sizeof(d));
    sprintf(d.name, "vt");
    sprintf(d.hostname, "127.0.0.1");
    d.port = port;
    d.type = RKNetworkSocketTypeTCP;
    d.format = format;
    d.blockLength = blockLength;
    d.blocking = blocking;
    d.reconnect = true;
    d.timeoutSeconds = timeout;
    d.userResource = c;
    pthread_mutex_init(&c->lock, NULL);
    c->initFails = initFails;
    c->C = RKClientInitWithDesc(d);
    if (c->C == NULL) {
        free(c);
        return NULL;
    }
    if (init) RKClientSetGreetHandler(c->C, initiated);
    RKClientSetReceiveHandler(c->C, received);
    RKClientSetCloseHandler(c->C, exited);
    vt_usleep_divide = 20;
    RKClientStart(c->C, wait);
    return c;
}
int vt_cli_get(Client *c, int what) { return what == 0 ? c->inits : (what == 1 ? c->messages : (what == 2 ? c->exits : (int)c->C->state)); }
size_t vt_cli_log(Client *c, uint8_t *out) {
    pthread_mutex_lock(&c->lock);
    size_t n = c->log.size;
    if (out) memcpy(out, c->log.data, n);
    pthread_mutex_unlock(&c->lock);
    return n;
}
int vt_cli_free(Client *c) {
    RKClientStop(c->C);
    int e = c->exits;
    RKClientFree(c->C);
    vt_usleep_divide = 1;
    free(c->log.data);
    free(c);
    return e;
}
