#include "sim.h"
#define CURL_DISABLE_TYPECHECK
#include <curl/curl.h>
#undef curl_easy_setopt
#undef curl_easy_getinfo
/* Scripted transport behind the libcurl easy API: option semantics of libcurl (what is copied, what persists, what a
 * method option resets), responses delivered in arbitrary pieces, failures at any point, handle life-cycle checking. */
typedef struct HResp { long status; char *hdr[64]; size_t hl[64]; int nh; char *body; size_t bl; int fail; long failat; int failhdr; bool initfail; uint64_t ms; struct HResp *next; } HResp;
static HResp *resps, *lastr;
typedef struct HS { char *s; } HS;
typedef struct CH {
    unsigned magic; bool live, inperf; int id;
    char *url, *custom, *target, *enc, *sslcert, *sslkey, *keypass, *ua; char *postcopy; void *post; long postsize; bool havepost;
    struct curl_slist *hdrs; long timeout, timeoutms, follow, vhost, vpeer, vstatus; int meth; /* 0 GET 1 POST 2 HEAD */
    void *wfn, *wdata, *hfn, *hdata; long code; struct CH *next; char *errbuf;
} CH;
static CH *handles; static int nexth = 1; static int ginit;
static char *body_pat(uint64_t sd, size_t n) { char *b = malloc(n + 1); uint64_t st = sd; for (size_t i = 0; i < n; i++) b[i] = (char)(32 + prng64(&st) % 95); b[n] = 0; return b; }
void http_add(const char *line) {
    HResp *r = calloc(1, sizeof *r); r->status = 200; r->failat = -1; r->body = xstrdup("");
    char *s = xstrdup(line), *sv;
    for (char *t = strtok_r(s, " ", &sv); t; t = strtok_r(NULL, " ", &sv)) {
        if (!strncmp(t, "status=", 7)) r->status = atol(t + 7);
        else if (!strncmp(t, "h=", 2)) { char *x = xstrdup(t + 2); r->hl[r->nh] = unpct(x); r->hdr[r->nh++] = x; }
        else if (!strncmp(t, "body=", 5)) { r->body = xstrdup(t + 5); r->bl = unpct(r->body); }
        else if (!strncmp(t, "bodypat=", 8)) { char *c = strchr(t, ':'); r->bl = strtoull(t + 8, 0, 10); r->body = body_pat(c ? strtoull(c + 1, 0, 10) : 1, r->bl); }
        else if (!strncmp(t, "fail=", 5)) { r->fail = atoi(t + 5); char *c = strchr(t, '@'); r->failat = c ? atol(c + 1) : 0; }
        else if (!strncmp(t, "failhdr=", 8)) { r->fail = atoi(t + 8); char *c = strchr(t, '@'); r->failhdr = 1 + (c ? atoi(c + 1) : 0); }
        else if (!strncmp(t, "ms=", 3)) r->ms = strtoull(t + 3, 0, 10);
    }
    if (lastr) lastr->next = r; else resps = r;
    lastr = r;
}
static CH *chk(CURL *c, const char *fn) {
    for (CH *h = handles; h; h = h->next) if ((CURL *)h == c) {
        if (!h->live) { violation("curl-handle", "%s on handle %d after its cleanup", fn, h->id); sim_finish("curlhandle"); }
        return h;
    }
    violation("curl-handle", "%s on something that is not a transport handle", fn); sim_finish("curlhandle");
}
CURLcode __wrap_curl_global_init(long f) { (void)f; sim_call("curl_global_init"); if (!ginit && fault("curl_global_init", NULL)) return CURLE_FAILED_INIT; ginit++; return CURLE_OK; }   /* only the first one does anything that can fail */
void __wrap_curl_global_cleanup(void) { if (!ginit) { count("curl:global-underflow", 1); return; } ginit--; }
CURL *__wrap_curl_easy_init(void) {
    sim_call("curl_easy_init"); if (fault("curl_easy_init", NULL)) return NULL;
    if (!ginit) ginit = 1;   /* implicit initialisation */
    CH *h = calloc(1, sizeof *h); h->live = true; h->id = nexth++; h->next = handles; h->postsize = -1; h->vhost = 2; h->vpeer = 1; handles = h; slog("EV curl init %d", h->id); return (CURL *)h;
}
void __wrap_curl_easy_cleanup(CURL *c) { if (!c) return; CH *h = chk(c, "curl_easy_cleanup"); h->live = false; slog("EV curl cleanup %d", h->id); }
void __wrap_curl_easy_reset(CURL *c) { if (!c) return; CH *h = chk(c, "curl_easy_reset"); CH *n = h->next; int id = h->id; memset(h, 0, sizeof *h); h->next = n; h->id = id; h->live = true; h->postsize = -1; h->vhost = 2; h->vpeer = 1; }
static void sets(char **d, const char *s) { free(*d); *d = s ? xstrdup(s) : NULL; }
CURLcode __wrap_curl_easy_setopt(CURL *c, CURLoption o, ...) {
    if (!c) return CURLE_BAD_FUNCTION_ARGUMENT;
    CH *h = chk(c, "curl_easy_setopt");
    va_list ap; va_start(ap, o); long l = 0; void *p = NULL; curl_off_t off = 0;
    if (o < 10000) l = va_arg(ap, long); else if (o < 30000 || o >= 40000) p = va_arg(ap, void *); else off = va_arg(ap, curl_off_t);
    va_end(ap);
    if (opt("setoptfail", 0) && o == CURLOPT_URL && fault("curl_setopt", NULL)) { sets(&h->url, NULL); return CURLE_OUT_OF_MEMORY; }
    switch (o) {
    case CURLOPT_URL: sets(&h->url, p); break;
    case CURLOPT_CUSTOMREQUEST: sets(&h->custom, p); break;
    case CURLOPT_REQUEST_TARGET: sets(&h->target, p); break;
    case CURLOPT_ACCEPT_ENCODING: sets(&h->enc, p); break;
    case CURLOPT_SSLCERT: sets(&h->sslcert, p); break;
    case CURLOPT_SSLKEY: sets(&h->sslkey, p); break;
    case CURLOPT_KEYPASSWD: sets(&h->keypass, p); break;
    case CURLOPT_USERAGENT: sets(&h->ua, p); break;
    case CURLOPT_POSTFIELDS: h->post = p; h->havepost = p != NULL; h->meth = 1; break;
    case CURLOPT_COPYPOSTFIELDS: free(h->postcopy); h->postcopy = NULL;
        if (p) { size_t n = h->postsize >= 0 ? (size_t)h->postsize : strlen(p); h->postcopy = malloc(n + 1); memcpy(h->postcopy, p, n); h->postcopy[n] = 0; }
        h->post = h->postcopy; h->havepost = p != NULL; h->meth = 1; break;
    case CURLOPT_POSTFIELDSIZE: h->postsize = l; break;
    case CURLOPT_POSTFIELDSIZE_LARGE: h->postsize = off; break;
    case CURLOPT_POST: h->meth = l ? 1 : 0; break;
    case CURLOPT_HTTPGET: if (l) h->meth = 0; break;
    case CURLOPT_NOBODY: if (l) h->meth = 2; else if (h->meth == 2) h->meth = 0; break;
    case CURLOPT_HTTPHEADER: h->hdrs = p; break;
    case CURLOPT_TIMEOUT: h->timeout = l; h->timeoutms = 0; break;
    case CURLOPT_TIMEOUT_MS: h->timeoutms = l; h->timeout = 0; break;
    case CURLOPT_FOLLOWLOCATION: h->follow = l; break;
    case CURLOPT_SSL_VERIFYHOST: h->vhost = l; break;
    case CURLOPT_SSL_VERIFYPEER: h->vpeer = l; break;
    case CURLOPT_SSL_VERIFYSTATUS: h->vstatus = l; break;
    case CURLOPT_WRITEFUNCTION: h->wfn = p; break;
    case CURLOPT_WRITEDATA: h->wdata = p; break;
    case CURLOPT_HEADERFUNCTION: h->hfn = p; break;
    case CURLOPT_HEADERDATA: h->hdata = p; break;
    case CURLOPT_ERRORBUFFER: h->errbuf = p; break;
    default: break;
    }
    return CURLE_OK;
}
typedef size_t (*cb)(char *, size_t, size_t, void *);
static void req_log(CH *h) {
    const char *verb = h->custom ? h->custom : h->meth == 1 ? "POST" : h->meth == 2 ? "HEAD" : "GET";
    size_t cap = 1 << 20, n = 0; char *b = malloc(cap); b[0] = 0;
    #define ADD(...) do { n += snprintf(b + n, n < cap ? cap - n : 0, __VA_ARGS__); if (n >= cap) n = cap - 1; } while (0)
    char *u = h->url ? pct(h->url, strlen(h->url)) : xstrdup("-");
    ADD("HREQ %d verb=%s url=%s timeout=%ld follow=%ld", h->id, verb, u, h->timeoutms ? h->timeoutms / 1000 : h->timeout, h->follow); free(u);
    ADD(" vhost=%ld vpeer=%ld vstatus=%ld", h->vhost, h->vpeer, h->vstatus);
    if (h->enc) ADD(" enc=%s", *h->enc ? h->enc : "all");
    char *e;
    if (h->target) { e = pct(h->target, strlen(h->target)); ADD(" target=%s", e); free(e); }
    if (h->sslcert) { e = pct(h->sslcert, strlen(h->sslcert)); ADD(" sslcert=%s", e); free(e); }
    if (h->sslkey) { e = pct(h->sslkey, strlen(h->sslkey)); ADD(" sslkey=%s", e); free(e); }
    if (h->keypass) { e = pct(h->keypass, strlen(h->keypass)); ADD(" keypass=%s", e); free(e); }
    for (struct curl_slist *l = h->hdrs; l; l = l->next) { e = pct(l->data, strlen(l->data)); ADD(" hdr=%s", e); free(e); }
    if (h->meth == 1 && h->post) { size_t bl = h->postsize >= 0 ? (size_t)h->postsize : strlen(h->post); e = pct(h->post, bl); ADD(" body=%s", e); free(e); }
    b[n++] = '\n'; raw_log(b, n);
    free(b);
}
CURLcode __wrap_curl_easy_perform(CURL *c) {
    sim_call("curl_easy_perform");
    if (!c) return CURLE_BAD_FUNCTION_ARGUMENT;
    CH *h = chk(c, "curl_easy_perform");
    if (!ginit) violation("curl-global", "a transfer runs after the transport library was shut down");
    req_log(h);
    if (!h->url || !*h->url) return CURLE_URL_MALFORMAT;
    HResp *r = resps; if (r) resps = r->next; else { static HResp dflt; dflt.status = 200; dflt.body = (char *)""; dflt.failat = -1; r = &dflt; }
    h->code = 0;
    if (r->fail && !r->failhdr && r->failat < 0) r->failat = 0;
    char k[48]; if (r->fail) { snprintf(k, sizeof k, "fault:transfer/%d", r->fail); count(k, 1); slog("FAULT transfer %d", r->fail); }
    if (r->fail && !r->failhdr && r->failat == 0 && r->fail != 28 && r->fail != 56 && r->fail != 18) return r->fail;
    long limit = h->timeoutms ? h->timeoutms : h->timeout * 1000;
    if (limit && (uint64_t)limit < r->ms) { now_ns += limit * 1000000ull; count("fault:transfer/28", 1); slog("FAULT transfer timeout"); return CURLE_OPERATION_TIMEDOUT; }
    now_ns += r->ms * 1000000ull;
    h->code = r->status;
    cb hf = (cb)h->hfn; void *hd = h->hdata; if (!hf && h->hdata) hf = (cb)h->wfn;
    if (hf) for (int i = 0; i < r->nh; i++) {
        if (r->failhdr && i >= r->failhdr - 1) return r->fail;
        char *t = malloc(r->hl[i] + 1); memcpy(t, r->hdr[i], r->hl[i]); t[r->hl[i]] = '\x7f';   /* not NUL terminated, exactly sized */
        char *x = malloc(r->hl[i] ? r->hl[i] : 1); memcpy(x, t, r->hl[i]); free(t);
        size_t w = hf(x, 1, r->hl[i], hd); free(x);
        if (w != r->hl[i]) return CURLE_WRITE_ERROR;
    }
    if (r->failhdr) return r->fail;
    if (h->meth != 2) {
        size_t off = 0; cb wf = (cb)h->wfn;
        size_t end = r->fail && (size_t)r->failat < r->bl ? (size_t)r->failat : r->bl;
        while (off < end) {
            size_t n = end - off; if (n > 16384) n = 16384;
            if (n > 1) { uint64_t d = decide("httpchunk", n, opt("chunk_ppm", 0)); if (d) n = d; }
            if (wf) {
                char *x = malloc(n); memcpy(x, r->body + off, n); size_t w = wf(x, 1, n, h->wdata); free(x);
                if (w != n) return CURLE_WRITE_ERROR;
            } else fwrite(r->body + off, 1, n, h->wdata ? (FILE *)h->wdata : stdout);
            off += n; count("http:pieces", 1);
            sim_call("http-piece");
        }
    }
    if (r->fail) return r->fail;
    return CURLE_OK;
}
CURLcode __wrap_curl_easy_getinfo(CURL *c, CURLINFO i, ...) {
    if (!c) return CURLE_BAD_FUNCTION_ARGUMENT;
    CH *h = chk(c, "curl_easy_getinfo"); va_list ap; va_start(ap, i); void *p = va_arg(ap, void *); va_end(ap);
    if (i == CURLINFO_RESPONSE_CODE) *(long *)p = h->code;
    else if (i == CURLINFO_EFFECTIVE_URL) *(char **)p = h->url;
    else if ((i & 0xf00000) == CURLINFO_LONG) *(long *)p = 0;
    else if ((i & 0xf00000) == CURLINFO_STRING) *(char **)p = NULL;
    return CURLE_OK;
}
void *__wrap_malloc(size_t); void __wrap_free(void *); char *__wrap_strdup(const char *);
/* header lists are owned by the caller: they go through the ledger so that a lost list shows as a leak */
struct curl_slist *__wrap_curl_slist_append(struct curl_slist *l, const char *s) {
    if (opt("slistfail", 0) && fault("curl_slist", NULL)) return NULL;
    struct curl_slist *n = __wrap_malloc(sizeof *n); n->data = __wrap_strdup(s); n->next = NULL;
    if (!l) return n;
    struct curl_slist *x = l; while (x->next) x = x->next;
    x->next = n; return l;
}
void __wrap_curl_slist_free_all(struct curl_slist *l) { while (l) { struct curl_slist *n = l->next; __wrap_free(l->data); __wrap_free(l); l = n; } }
void http_report(void) {
    int live = 0; for (CH *h = handles; h; h = h->next) if (h->live) live++;
    slog("CURL live=%d global=%d", live, ginit);
}
const char *__wrap_curl_easy_strerror(CURLcode c) { static char b[128][32]; int i = (int)c & 127; snprintf(b[i], sizeof b[i], "transport error %d", (int)c); return b[i]; }
