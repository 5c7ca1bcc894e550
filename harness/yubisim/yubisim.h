/* Control interface of the stand-in library: what the simulated module holds
 * and answers, and what it was asked. */
#ifndef YUBISIM_H
#define YUBISIM_H

#include "yubihsm.h"

enum {
  SIM_INIT_CONNECTOR, SIM_CONNECT, SIM_CREATE, SIM_AUTH, SIM_DESTROY, SIM_LIST,
  SIM_PUBKEY, SIM_SIGN, SIM_GENERATE, SIM_INFO, SIM_DEVINFO, SIM_PLAIN, SIM_NOPS
};

typedef struct {
  int op;          /* SIM_... */
  int rc;          /* what was answered */
  int session;     /* number of the session, 0 if none */
  int authed;      /* whether that session was authenticated */
  int id;          /* object or authentication key */
  int len;         /* length of the data given */
  uint8_t data[300];
} sim_event;

void sim_reset(void);
void sim_password(const uint8_t *p, size_t n);
void sim_fail(int op, int after, int times, int rc); /* calls after+1 .. after+times answer rc */
void sim_delay(int op, int usec);
int sim_add(const yh_object_descriptor *o, const uint8_t *pub, size_t publen, int algo);
void sim_setpub(int id, const uint8_t *pub, size_t publen, int algo);
void sim_setsig(int id, const uint8_t *sig, size_t siglen, int rc);
void sim_plain(const uint8_t *resp, size_t n, int cmd);
void sim_describe(int id, yh_object_type t, yh_algorithm a, const uint8_t *caps, int len, int domains,
                  int seq, int origin, const char *label, const uint8_t *delegated,
                  const uint8_t *pub, size_t publen, int pubalgo);
int sim_nevents(void);
void sim_event_at(int i, sim_event *e);
int sim_live(void);    /* sessions not destroyed */
int sim_created(void); /* sessions created */
int sim_busy(void);    /* calls being executed */

#endif
