// A websocket client whose events are logged
#include <RadarKit.h>
#include <RadarKit/RKWebSocket.h>
#include <semaphore.h>
#include "vt.h"

typedef struct { RKWebSocket *W; uint8_t *log; size_t size, cap; volatile int opens, closes, messages, unterminated; pthread_mutex_t lock; void *onopen[8]; size_t onopenSize[8]; int onopenCount; } Client;

static void opened(RKWebSocket *W) {
    Client *c = W->parent;
    for (int k = 0; k < c->onopenCount; k++) RKWebSocketSend(W, c->onopen[k], c->onopenSize[k]);
    c->opens++;
}
static void closed(RKWebSocket *W) { ((Client *)W->parent)->closes++; }
static void message(RKWebSocket *W, void *p, size_t n) {
    Client *c = W->parent;
    pthread_mutex_lock(&c->lock);
    if (((uint8_t *)p)[n]) c->unterminated++;
    if (c->size + n + 8 > c->cap) {
        c->cap = (c->size + n + 8) * 2;
        c->log = realloc(c->log, c->cap);
    }
    const uint64_t m = n;
    memcpy(c->log + c->size, &m, 8);
    memcpy(c->log + c->size + 8, p, n);
    c->size += n + 8;
    c->messages++;
    pthread_mutex_unlock(&c->lock);
}

Client *vt_ws_new(const char *host, const char *path, float ping, int delta) {
    Client *c = calloc(1, sizeof(Client));
    pthread_mutex_init(&c->lock, NULL);
    c->W = RKWebSocketInit(host, path);
    if (c->W == NULL) {
        free(c);
        return NULL;
    }
    RKWebSocketSetParent(c->W, c);
    RKWebSocketSetOpenHandler(c->W, opened);
    RKWebSocketSetCloseHandler(c->W, closed);
    RKWebSocketSetMessageHandler(c->W, message);
    if (delta) c->W->timeoutDeltaMicroseconds = delta;
    if (ping > 0) RKWebSocketSetPingInterval(c->W, ping);
    return c;
}
void vt_ws_onopen(Client *c, void *p, size_t n) {
    c->onopen[c->onopenCount] = p;
    c->onopenSize[c->onopenCount++] = n;
}
void vt_ws_start(Client *c) {
    vt_usleep_divide = 200;
    RKWebSocketStart(c->W);
}
int vt_ws_send(Client *c, void *p, size_t n) { return RKWebSocketSend(c->W, p, n); }
int vt_ws_get(Client *c, int what) {
    switch (what) {
        case 0: return c->opens;
        case 1: return c->closes;
        case 2: return c->messages;
        case 3: return c->unterminated;
        case 4: return c->W->port;
        case 5: return c->W->useSSL;
        case 6: return c->W->connected;
        default: return (c->W->payloadHead + RKWebSocketPayloadDepth - c->W->payloadTail) % RKWebSocketPayloadDepth;
    }
}
const char *vt_ws_text(Client *c, int what) { return what == 0 ? c->W->host : c->W->path; }
size_t vt_ws_log(Client *c, uint8_t *out, size_t n) {
    pthread_mutex_lock(&c->lock);
    size_t m = c->size;
    if (out) memcpy(out, c->log, m < n ? m : n);
    pthread_mutex_unlock(&c->lock);
    return m;
}
void vt_ws_stop(Client *c) {
    RKWebSocketStop(c->W);
    vt_usleep_divide = 1;
}
void vt_ws_free(Client *c) {
    if (c->W->ssl) SSL_free(c->W->ssl);
    if (c->W->sslContext) SSL_CTX_free(c->W->sslContext);
    RKWebSocketFree(c->W);
    free(c->log);
    free(c);
}
