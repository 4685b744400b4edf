// Buffers of exact size and concurrent conversions to text
#include <RadarKit.h>
#include "vt.h"

void *vt_text_buffer(size_t n) { char *p = malloc(n); if (p) memset(p, 0x5a, n); return p; }
void vt_text_free(void *p) { free(p); }
int vt_value_type(const char *s) {
    #define T(x) if (!strcmp(s, #x)) return RKValueType##x;
    T(Null) T(Bool) T(Int) T(Long) T(Int8) T(Int16) T(Int32) T(Int64) T(SSize) T(UInt) T(ULong) T(UInt8) T(UInt16) T(UInt32) T(UInt64)
    T(IntInHex) T(LongInHex) T(Int8InHex) T(Int16InHex) T(Int32InHex) T(Int64InHex) T(UIntInHex) T(ULongInHex) T(UInt8InHex) T(UInt16InHex) T(UInt32InHex) T(UInt64InHex)
    T(Size) T(Float) T(Double) T(String) T(NumericString)
    #undef T
    #define T(x) if (!strcmp(s, #x)) return RKValueTYpe##x;
    T(FloatMultipliedBy1k) T(FloatMultipliedBy1M) T(FloatDividedBy1k) T(FloatDividedBy1M) T(DoubleMultipliedBy1k) T(DoubleMultipliedBy1M) T(DoubleDividedBy1k) T(DoubleDividedBy1M)
    #undef T
    return -1;
}
char *vt_timeval_string(long sec, long usec, int format) { struct timeval t = {sec, usec}; return RKTimevalToString(t, format); }
double vt_timeval_diff(long a, long b, long c, long d) { struct timeval x = {a, b}, y = {c, d}; return RKTimevalDiff(x, y); }
double vt_timespec_diff(long a, long b, long c, long d) { struct timespec x = {a, b}, y = {c, d}; return RKTimespecDiff(x, y); }
void vt_show_color(int on) { rkGlobalParameters.showColor = on; }

// Rounds of one conversion each by all threads at the same time, every one checks its own result
typedef struct { int kind, id, rounds, bad; pthread_barrier_t *b; char first[128], got[128]; } Text;
static void expect(Text *t, const char *want, const char *got) {
    if (strcmp(want, got)) { if (!t->bad) { snprintf(t->first, 128, "%s", want); snprintf(t->got, 128, "%s", got); } t->bad++; }
}
static void *texter(void *p) {
    Text *t = p;
    char want[256], doc[128], *got = NULL;
    for (int k = 0; k < t->rounds; k++) {
        const long v = 1000 + (long)t->id * 100 + k % 100;
        snprintf(doc, sizeof(doc), "{\"a\": 1, \"key\": %ld, \"b\": [2]}", v);
        pthread_barrier_wait(t->b);
        switch (t->kind) {
            case 0: got = RKIntegerToCommaStyleString(v * 1000); snprintf(want, 256, "%ld,%03ld,000", v / 1000, v % 1000); break;
            case 1: got = RKFloatToCommaStyleString(v * 1000.0); snprintf(want, 256, "%ld,%03ld,000.000", v / 1000, v % 1000); break;
            case 2: got = RKUIntegerToCommaStyleString(v * 1000); snprintf(want, 256, "%ld,%03ld,000", v / 1000, v % 1000); break;
            case 3: got = RKIntegerToHexStyleString(v); snprintf(want, 256, "0x%04lx", v); break;
            case 4: got = RKVariableInString("name", &v, RKValueTypeLong); snprintf(want, 256, "name = %ld,%03ld", v / 1000, v % 1000); break;
            case 5: got = RKGetValueOfKey(doc, "key"); snprintf(want, 256, "%ld", v); break;
            default: {
                struct tm tm;
                time_t s = v * 7777777L;
                gmtime_r(&s, &tm);
                strftime(want, 64, "%Y%m%d-%H%M%S", &tm);
                got = vt_timeval_string(s, 0, 860);
            }
        }
        pthread_barrier_wait(t->b);
        expect(t, want, got);
    }
    return NULL;
}
int vt_text_threads(int kind, int threads, int rounds, char *want, char *got) {
    pthread_t id[8];
    Text t[8];
    pthread_barrier_t b;
    int bad = 0;
    pthread_barrier_init(&b, NULL, threads);
    for (int k = 0; k < threads; k++) { t[k] = (Text){kind, k, rounds, 0, &b}; pthread_create(&id[k], NULL, texter, &t[k]); }
    for (int k = 0; k < threads; k++) { pthread_join(id[k], NULL); if (t[k].bad && !bad) { strcpy(want, t[k].first); strcpy(got, t[k].got); } bad += t[k].bad; }
    pthread_barrier_destroy(&b);
    return bad;
}

// Product descriptions
static RKProductDesc desc;
static void desc_out(char *name, char *unit, char *colormap, char *symbol, uint32_t *u, float *f) {
    memcpy(name, desc.name, 128); memcpy(unit, desc.unit, 128); memcpy(colormap, desc.colormap, 128); memcpy(symbol, desc.symbol, 8);
    u[0] = desc.key; u[1] = desc.index; u[2] = desc.pieceCount; u[3] = desc.baseProductList;
    memcpy(f, desc.w, 64); memcpy(f + 16, desc.b, 64); memcpy(f + 32, desc.l, 64); f[48] = desc.mininimumValue; f[49] = desc.maximumValue;
}
uint32_t vt_desc_next(uint32_t list, char *name, char *unit, char *colormap, char *symbol, uint32_t *u, float *f) {
    RKBaseProductList l = list;
    desc = RKGetNextProductDescription(&l);
    desc_out(name, unit, colormap, symbol, u, f);
    return l;
}
int vt_desc_parse(const char *s, char *name, char *unit, char *colormap, char *symbol, uint32_t *u, float *f) {
    memset(&desc, 0x77, sizeof(desc));
    const int r = RKParseProductDescription(&desc, s);
    desc_out(name, unit, colormap, symbol, u, f);
    return r == RKResultSuccess ? 0 : (r == RKResultIncompleteProductDescription ? 1 : 2);
}
int vt_controls(char *out, const char *labels, const char *commands, int n) {
    RKControl *c = calloc(n + 1, sizeof(RKControl));
    for (int k = 0; k < n; k++) { strcpy(c[k].label, labels + 256 * k); strcpy(c[k].command, commands + 256 * k); }
    RKMakeJSONStringFromControls(out, c, n);
    free(c);
    return (int)strlen(out);
}
int vt_parse_quoted(const char *s, char **d, int n) {
    switch (n) {
        case 0: RKParseQuotedStrings(s, NULL); break;
        case 1: RKParseQuotedStrings(s, d[0], NULL); break;
        case 2: RKParseQuotedStrings(s, d[0], d[1], NULL); break;
        case 3: RKParseQuotedStrings(s, d[0], d[1], d[2], NULL); break;
        default: RKParseQuotedStrings(s, d[0], d[1], d[2], d[3], NULL);
    }
    return n;
}
int vt_control_size(int which) { RKControl c; return which ? sizeof(c.command) : sizeof(c.label); }
int vt_status_enum(const char *s) { return !strcmp(s, "Critical") ? RKStatusEnumCritical : RKStatusEnumUnknown; }
