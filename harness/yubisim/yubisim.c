/* A stand-in for Yubico's libyubihsm: it keeps the calling contract of the
 * library (argument checks, buffer lengths, who owns what) in front of a
 * simulated module. Sessions live on the C heap, so that AddressSanitizer sees
 * uses after release. */
#include "yubisim.h"

#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

struct yh_connector { char *url; char *ca; int connected; };
struct yh_session { uint32_t magic; int number; int authed; uint8_t context[YH_CONTEXT_LEN]; char *keys; };

#define MAGIC 0x59554249u

typedef struct {
  yh_object_descriptor d;
  uint8_t pub[5000]; size_t publen; int algo;
  uint8_t sig[4000]; size_t siglen; int sigrc;
} object;

static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static uint8_t *password; static size_t password_len;
static struct { int after, times, rc, delay; } fault[SIM_NOPS];
static object *objects; static int nobjects;
static sim_event *events; static int nevents, capevents;
static int live, created, busy, nextid = 0x100, verbosity;
static uint8_t plain[4096]; static size_t plain_len; static int plain_cmd;

void sim_reset(void) {
  pthread_mutex_lock(&mu);
  free(password); password = NULL; password_len = 0;
  memset(fault, 0, sizeof fault);
  free(objects); objects = NULL; nobjects = 0;
  nevents = 0; nextid = 0x100; plain_len = 0;
  pthread_mutex_unlock(&mu);
}
void sim_password(const uint8_t *p, size_t n) {
  pthread_mutex_lock(&mu);
  free(password); password = malloc(n + 1); memcpy(password, p, n); password_len = n;
  pthread_mutex_unlock(&mu);
}
void sim_fail(int op, int after, int times, int rc) {
  pthread_mutex_lock(&mu);
  fault[op].after = after; fault[op].times = times; fault[op].rc = rc;
  pthread_mutex_unlock(&mu);
}
void sim_delay(int op, int usec) { pthread_mutex_lock(&mu); fault[op].delay = usec; pthread_mutex_unlock(&mu); }
static object *find(int id) {
  for (int i = 0; i < nobjects; i++) if (objects[i].d.id == id) return &objects[i];
  return NULL;
}
int sim_add(const yh_object_descriptor *o, const uint8_t *pub, size_t publen, int algo) {
  pthread_mutex_lock(&mu);
  objects = realloc(objects, sizeof *objects * (nobjects + 1));
  object *n = &objects[nobjects++];
  memset(n, 0, sizeof *n);
  n->d = *o; memcpy(n->pub, pub, publen); n->publen = publen; n->algo = algo;
  pthread_mutex_unlock(&mu);
  return nobjects;
}
void sim_describe(int id, yh_object_type t, yh_algorithm a, const uint8_t *caps, int len, int domains,
                  int seq, int origin, const char *label, const uint8_t *delegated,
                  const uint8_t *pub, size_t publen, int pubalgo) {
  yh_object_descriptor d;
  memset(&d, 0, sizeof d);
  d.id = id; d.type = t; d.algorithm = a; d.len = len; d.domains = domains;
  d.sequence = seq; d.origin = origin;
  memcpy(d.capabilities.capabilities, caps, YH_CAPABILITIES_LEN);
  memcpy(d.delegated_capabilities.capabilities, delegated, YH_CAPABILITIES_LEN);
  strncpy(d.label, label, YH_OBJ_LABEL_LEN);
  sim_add(&d, pub, publen, pubalgo);
}
void sim_setpub(int id, const uint8_t *pub, size_t publen, int algo) {
  pthread_mutex_lock(&mu);
  object *o = find(id);
  if (o) { memcpy(o->pub, pub, publen); o->publen = publen; o->algo = algo; }
  pthread_mutex_unlock(&mu);
}
void sim_setsig(int id, const uint8_t *sig, size_t siglen, int rc) {
  pthread_mutex_lock(&mu);
  object *o = find(id);
  if (o) { memcpy(o->sig, sig, siglen); o->siglen = siglen; o->sigrc = rc; }
  pthread_mutex_unlock(&mu);
}
void sim_plain(const uint8_t *resp, size_t n, int cmd) {
  pthread_mutex_lock(&mu);
  memcpy(plain, resp, n); plain_len = n; plain_cmd = cmd;
  pthread_mutex_unlock(&mu);
}
int sim_nevents(void) { pthread_mutex_lock(&mu); int n = nevents; pthread_mutex_unlock(&mu); return n; }
void sim_event_at(int i, sim_event *e) { pthread_mutex_lock(&mu); *e = events[i]; pthread_mutex_unlock(&mu); }
int sim_live(void) { pthread_mutex_lock(&mu); int n = live; pthread_mutex_unlock(&mu); return n; }
int sim_created(void) { pthread_mutex_lock(&mu); int n = created; pthread_mutex_unlock(&mu); return n; }
int sim_busy(void) { pthread_mutex_lock(&mu); int n = busy; pthread_mutex_unlock(&mu); return n; }

/* enter starts a call; it returns what the call is to fail with, or
 * YHR_SUCCESS. The lock is held until leave. */
static int enter(int op) {
  pthread_mutex_lock(&mu);
  if (fault[op].delay) {
    int d = fault[op].delay;
    busy++;
    pthread_mutex_unlock(&mu);
    usleep(d);
    pthread_mutex_lock(&mu);
    busy--;
  }
  if (fault[op].after > 0) { fault[op].after--; return YHR_SUCCESS; }
  if (fault[op].times > 0) { fault[op].times--; return fault[op].rc; }
  return YHR_SUCCESS;
}
static yh_rc leave(int op, yh_session *s, int id, const void *data, size_t len, int rc) {
  if (nevents == capevents) {
    capevents = capevents ? 2 * capevents : 64;
    events = realloc(events, sizeof *events * capevents);
  }
  sim_event *e = &events[nevents++];
  memset(e, 0, sizeof *e);
  e->op = op; e->rc = rc; e->id = id; e->len = (int)len;
  if (s) { e->session = s->number; e->authed = s->authed; }
  if (data) memcpy(e->data, data, len < sizeof e->data ? len : sizeof e->data);
  pthread_mutex_unlock(&mu);
  return (yh_rc)rc;
}
/* usable says whether a session handle is one; it reads the session, which is
 * where a released one is noticed. */
static int usable(yh_session *s) { return s != NULL && s->magic == MAGIC; }

const char *yh_strerror(yh_rc err) {
  static char names[32][24];
  int i = -(int)err;
  if (i < 0 || i > 29) return "Unknown error";
  if (!names[i][0]) snprintf(names[i], sizeof names[i], "yubihsm error %d", i);
  return names[i];
}
yh_rc yh_set_verbosity(uint8_t v) { verbosity = v; return YHR_SUCCESS; }
yh_rc yh_get_verbosity(uint8_t *v) { if (!v) return YHR_INVALID_PARAMS; *v = verbosity; return YHR_SUCCESS; }
void yh_set_debug_output(FILE *output) { (void)output; }

/* A process of its own (the command line tool) is given its module through a
 * socket: "P <hex>" is the password, "F <op> <rc>" makes one operation fail,
 * "O <id> <type> <algorithm> <capabilities> <public key>" is an object, and
 * "." ends the description. Signatures are asked for one at a time with
 * "S <id> <hex>" and answered with "<rc> <hex>". */
static FILE *backend;
static int backend_fd;
static size_t unhex(const char *h, uint8_t *out, size_t max) {
  size_t n = 0;
  unsigned b;
  for (; h[0] && h[1] && n < max && sscanf(h, "%2x", &b) == 1; h += 2) out[n++] = b;
  return n;
}
yh_rc yh_init(void) {
  const char *path = getenv("YUBISIM_SOCK");
  if (!path) return YHR_SUCCESS;
  struct sockaddr_un a = {.sun_family = AF_UNIX};
  strncpy(a.sun_path, path, sizeof a.sun_path - 1);
  int fd = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
  if (fd < 0 || connect(fd, (struct sockaddr *)&a, sizeof a) != 0) return YHR_INIT_ERROR;
  backend_fd = fd;
  backend = fdopen(fd, "r");
  char line[20000], h1[300], h2[12000];
  uint8_t caps[8], none[8] = {0}, data[6000];
  while (fgets(line, sizeof line, backend) && line[0] != '.') {
    int id, type, algo, op, rc;
    h1[0] = h2[0] = 0;
    if (sscanf(line, "P %299s", h1) >= 1) sim_password(data, unhex(h1, data, sizeof data));
    else if (sscanf(line, "F %d %d", &op, &rc) == 2) sim_fail(op, 0, 1000, rc);
    else if (sscanf(line, "O %d %d %d %299s %11999s", &id, &type, &algo, h1, h2) >= 4) {
      memset(caps, 0, sizeof caps);
      unhex(h1, caps, 8);
      sim_describe(id, type, algo, caps, 32, 1, 0, 1, "key", none, data, unhex(h2, data, sizeof data), algo);
    }
  }
  return YHR_SUCCESS;
}
static void ask(int id, const uint8_t *in, size_t n) {
  char line[20000], h[12000];
  uint8_t data[4000];
  int rc = YHR_GENERIC_ERROR;
  int k = snprintf(line, sizeof line, "S %d ", id);
  for (size_t i = 0; i < n && i < 1000; i++) k += snprintf(line + k, sizeof line - k, "%02x", in[i]);
  line[k++] = '\n';
  if (write(backend_fd, line, k) != k) return;
  h[0] = 0;
  if (fgets(line, sizeof line, backend) && sscanf(line, "%d %11999s", &rc, h) >= 1)
    sim_setsig(id, data, unhex(h, data, sizeof data), rc);
}

yh_rc yh_init_connector(const char *url, yh_connector **connector) {
  if (!url || !connector) return YHR_INVALID_PARAMS;
  int rc = enter(SIM_INIT_CONNECTOR);
  if (rc == YHR_SUCCESS) {
    yh_connector *c = calloc(1, sizeof *c);
    c->url = strdup(url);
    *connector = c;
  }
  return leave(SIM_INIT_CONNECTOR, NULL, 0, url, strlen(url), rc);
}
yh_rc yh_set_connector_option(yh_connector *c, yh_connector_option opt, const void *val) {
  if (!c || !val) return YHR_INVALID_PARAMS;
  free(c->ca);
  c->ca = strdup(val);
  (void)opt;
  return YHR_SUCCESS;
}
yh_rc yh_connect_best(yh_connector **cs, size_t n, int *idx) {
  if (!cs || n == 0) return YHR_INVALID_PARAMS;
  int rc = enter(SIM_CONNECT);
  if (rc == YHR_SUCCESS) { cs[0]->connected = 1; if (idx) *idx = 0; }
  return leave(SIM_CONNECT, NULL, 0, cs[0]->url, strlen(cs[0]->url), rc);
}
yh_rc yh_disconnect(yh_connector *c) {
  if (!c) return YHR_INVALID_PARAMS;
  free(c->url); free(c->ca); free(c);
  return YHR_SUCCESS;
}
yh_rc yh_send_plain_msg(yh_connector *c, yh_cmd cmd, const uint8_t *data, size_t len, yh_cmd *rcmd,
                        uint8_t *resp, size_t *rlen) {
  if (!c || !data || !rcmd || !resp || !rlen) return YHR_INVALID_PARAMS;
  int rc = enter(SIM_PLAIN);
  if (rc == YHR_SUCCESS) {
    if (plain_len > *rlen) rc = YHR_BUFFER_TOO_SMALL;
    else { memcpy(resp, plain, plain_len); *rlen = plain_len; *rcmd = plain_cmd; }
  }
  return leave(SIM_PLAIN, NULL, cmd, data, len, rc);
}

static yh_rc create(yh_connector *c, int id, const uint8_t *secret, size_t len, uint8_t *context,
                    size_t context_len, yh_session **session, int good) {
  if (!c || !secret || !context || context_len != YH_CONTEXT_LEN || !session) return YHR_INVALID_PARAMS;
  int rc = enter(SIM_CREATE);
  if (rc == YHR_SUCCESS && !c->connected) rc = YHR_CONNECTOR_ERROR;
  /* the host checks the card's cryptogram, and so sees a wrong key */
  if (rc == YHR_SUCCESS && !good) rc = YHR_CRYPTOGRAM_MISMATCH;
  if (rc == YHR_SUCCESS) {
    yh_session *s = calloc(1, sizeof *s);
    s->magic = MAGIC;
    s->number = ++created;
    for (int i = 0; i < YH_CONTEXT_LEN; i++) s->context[i] = context[i] = (uint8_t)(s->number * 31 + i * 7);
    s->keys = strdup("session keys");
    live++;
    *session = s;
    return leave(SIM_CREATE, s, id, secret, len, rc);
  }
  return leave(SIM_CREATE, NULL, id, secret, len, rc);
}
yh_rc yh_create_session_derived(yh_connector *c, uint16_t id, const uint8_t *pw, size_t n, bool recreate,
                                uint8_t *context, size_t context_len, yh_session **session) {
  (void)recreate;
  return create(c, id, pw, n, context, context_len, session,
                pw && n == password_len && memcmp(pw, password, n) == 0);
}
yh_rc yh_create_session(yh_connector *c, uint16_t id, const uint8_t *enc, size_t enclen, const uint8_t *mac,
                        size_t maclen, bool recreate, uint8_t *context, size_t context_len,
                        yh_session **session) {
  (void)recreate;
  if (!mac || enclen != 16 || maclen != 16) return YHR_WRONG_LENGTH;
  return create(c, id, enc, enclen, context, context_len, session,
                password_len == 32 && !memcmp(enc, password, 16) && !memcmp(mac, password + 16, 16));
}
yh_rc yh_destroy_session(yh_session **session) {
  if (!session || !*session) return YHR_INVALID_PARAMS;
  int rc = enter(SIM_DESTROY);
  yh_session *s = *session;
  yh_session copy = *s;
  if (rc == YHR_SUCCESS) {
    s->magic = 0;
    free(s->keys);
    free(s);
    live--;
    *session = NULL;
  }
  return leave(SIM_DESTROY, &copy, 0, NULL, 0, rc);
}
yh_rc yh_authenticate_session(yh_session *s, uint8_t *context, size_t context_len) {
  if (!s || !context || context_len != YH_CONTEXT_LEN) return YHR_INVALID_PARAMS;
  int rc = enter(SIM_AUTH);
  if (rc == YHR_SUCCESS && memcmp(context, s->context, YH_CONTEXT_LEN)) rc = YHR_DEVICE_AUTH_FAIL;
  if (rc == YHR_SUCCESS) s->authed = 1;
  return leave(SIM_AUTH, s, 0, context, context_len, rc);
}
#define CHECKED(op) \
  int rc = enter(op); \
  if (rc == YHR_SUCCESS && !usable(s)) rc = YHR_INVALID_PARAMS; \
  if (rc == YHR_SUCCESS && !s->authed) rc = YHR_DEVICE_INV_SESSION;

yh_rc yh_util_get_device_info(yh_connector *c, uint8_t *major, uint8_t *minor, uint8_t *patch, uint32_t *serial,
                              uint8_t *log_total, uint8_t *log_used, yh_algorithm *algorithms,
                              size_t *n_algorithms) {
  if (!c || !major || !minor || !patch || !serial || !log_total || !log_used || !algorithms || !n_algorithms)
    return YHR_INVALID_PARAMS;
  int rc = enter(SIM_DEVINFO);
  if (rc == YHR_SUCCESS) {
    size_t n = sizeof yh_algorithms / sizeof yh_algorithms[0];
    if (*n_algorithms < n) rc = YHR_BUFFER_TOO_SMALL;
    else {
      *major = 2; *minor = 1; *patch = 3; *serial = 0x00fedcba; *log_total = 62; *log_used = 17;
      n -= 3; /* a module with fewer algorithms than the library knows */
      for (size_t i = 0; i < n; i++) algorithms[i] = yh_algorithms[i].algorithm;
      *n_algorithms = n;
    }
  }
  return leave(SIM_DEVINFO, NULL, 0, NULL, 0, rc);
}
yh_rc yh_util_list_objects(yh_session *s, uint16_t id, yh_object_type type, uint16_t domains,
                           const yh_capabilities *caps, yh_algorithm alg, const char *label,
                           yh_object_descriptor *out, size_t *n) {
  if (!s || !out || !n) return YHR_INVALID_PARAMS;
  CHECKED(SIM_LIST)
  size_t m = 0;
  for (int i = 0; rc == YHR_SUCCESS && i < nobjects; i++) {
    yh_object_descriptor *d = &objects[i].d;
    if (id && d->id != id) continue;
    if (type && d->type != type) continue;
    if (domains && !(d->domains & domains)) continue;
    if (alg && d->algorithm != alg) continue;
    if (label && strcmp(label, d->label)) continue;
    if (caps) {
      int want = 0, has = 0;
      for (int k = 0; k < YH_CAPABILITIES_LEN; k++) {
        want |= caps->capabilities[k];
        has |= caps->capabilities[k] & d->capabilities.capabilities[k];
      }
      if (want && !has) continue;
    }
    if (m >= *n) { rc = YHR_BUFFER_TOO_SMALL; break; }
    out[m++] = *d;
  }
  if (rc == YHR_SUCCESS) *n = m;
  return leave(SIM_LIST, usable(s) ? s : NULL, id, NULL, 0, rc);
}
yh_rc yh_util_get_object_info(yh_session *s, uint16_t id, yh_object_type type, yh_object_descriptor *out) {
  if (!s || !out) return YHR_INVALID_PARAMS;
  CHECKED(SIM_INFO)
  if (rc == YHR_SUCCESS) {
    object *o = find(id);
    if (!o || o->d.type != type) rc = YHR_DEVICE_OBJ_NOT_FOUND;
    else *out = o->d;
  }
  return leave(SIM_INFO, usable(s) ? s : NULL, id, NULL, 0, rc);
}
yh_rc yh_util_get_pubkey(yh_session *s, uint16_t id, uint8_t *data, size_t *len, yh_algorithm *algorithm) {
  if (!s || !data || !len) return YHR_INVALID_PARAMS;
  CHECKED(SIM_PUBKEY)
  if (rc == YHR_SUCCESS) {
    object *o = find(id);
    if (!o) rc = YHR_DEVICE_OBJ_NOT_FOUND;
    else if (o->publen > *len) rc = YHR_BUFFER_TOO_SMALL;
    else {
      memcpy(data, o->pub, o->publen);
      *len = o->publen;
      if (algorithm) *algorithm = o->algo;
    }
  }
  return leave(SIM_PUBKEY, usable(s) ? s : NULL, id, NULL, 0, rc);
}
yh_rc yh_util_sign_ecdsa(yh_session *s, uint16_t id, const uint8_t *in, size_t n, uint8_t *out, size_t *outlen) {
  if (!s || !in || !out || !outlen) return YHR_INVALID_PARAMS;
  if (backend) ask(id, in, n);
  CHECKED(SIM_SIGN)
  if (rc == YHR_SUCCESS && n != 20 && n != 32 && n != 48 && n != 64) rc = YHR_WRONG_LENGTH;
  if (rc == YHR_SUCCESS) {
    object *o = find(id);
    if (!o) rc = YHR_DEVICE_OBJ_NOT_FOUND;
    else if (o->sigrc != YHR_SUCCESS) rc = o->sigrc;
    else if (o->siglen > *outlen) rc = YHR_BUFFER_TOO_SMALL;
    else { memcpy(out, o->sig, o->siglen); *outlen = o->siglen; }
  }
  return leave(SIM_SIGN, usable(s) ? s : NULL, id, in, n, rc);
}
yh_rc yh_util_generate_key_ec(yh_session *s, uint16_t *id, const char *label, uint16_t domains,
                              const yh_capabilities *caps, yh_algorithm algorithm) {
  if (!s || !id || !caps) return YHR_INVALID_PARAMS;
  if (label && strlen(label) > YH_OBJ_LABEL_LEN) return YHR_INVALID_PARAMS;
  CHECKED(SIM_GENERATE)
  if (rc == YHR_SUCCESS) {
    yh_object_descriptor d;
    memset(&d, 0, sizeof d);
    while (find(nextid)) nextid++;
    d.id = *id ? *id : nextid++;
    *id = d.id;
    d.type = YH_ASYMMETRIC; d.algorithm = algorithm; d.domains = domains; d.capabilities = *caps;
    d.origin = YH_ORIGIN_GENERATED;
    if (label) strcpy(d.label, label);
    pthread_mutex_unlock(&mu);
    sim_add(&d, (const uint8_t *)"", 0, algorithm);
    pthread_mutex_lock(&mu);
  }
  return leave(SIM_GENERATE, usable(s) ? s : NULL, *id, NULL, 0, rc);
}

#define NCAPS (sizeof yh_capability / sizeof yh_capability[0])
static void setbit(yh_capabilities *c, int bit) { c->capabilities[7 - bit / 8] |= 1 << (bit % 8); }
yh_rc yh_capabilities_to_num(const char *names, yh_capabilities *result) {
  if (!names || !result) return YHR_INVALID_PARAMS;
  char *copy = strdup(names), *save = NULL;
  for (char *t = strtok_r(copy, ",:;|", &save); t; t = strtok_r(NULL, ",:;|", &save)) {
    size_t i;
    for (i = 0; i < NCAPS && strcmp(t, yh_capability[i].name); i++) {}
    if (i == NCAPS) { free(copy); return YHR_INVALID_PARAMS; }
    setbit(result, yh_capability[i].bit);
  }
  free(copy);
  return YHR_SUCCESS;
}
yh_rc yh_num_to_capabilities(const yh_capabilities *num, const char *result[], size_t *n) {
  if (!num || !result || !n) return YHR_INVALID_PARAMS;
  size_t m = 0;
  for (size_t i = 0; i < NCAPS; i++) {
    int bit = yh_capability[i].bit;
    if (num->capabilities[7 - bit / 8] & (1 << (bit % 8))) {
      if (m >= *n) return YHR_BUFFER_TOO_SMALL;
      result[m++] = yh_capability[i].name;
    }
  }
  *n = m;
  return YHR_SUCCESS;
}
