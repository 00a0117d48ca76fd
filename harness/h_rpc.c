// Requests and responses (or connections and progress, with PRPC) over a
// shared topic: histories of sends, cancels, replies and foreign packets.
#include <a0/prpc.h>
#include <a0/rpc.h>

#include "wire.h"

#ifdef PRPC
#define TYPE "a0_prpc_type"
#define IDKEY "a0_conn_id"
#define T_OPEN "connect"
#define T_MID "progress"
#define T_END "complete"
#else
#define TYPE "a0_rpc_type"
#define IDKEY "a0_req_id"
#define T_OPEN "request"
#define T_MID NULL
#define T_END "response"
#endif
#define T_CANCEL "cancel"

#ifndef STEPS
#define STEPS 3
#endif
#define NREQ 2

static char id[NREQ][37];
enum { IDLE, OUT, GONE };
static int state[NREQ];

#ifdef PRPC
static a0_prpc_server_t server;
static a0_prpc_client_t client;
static a0_prpc_connection_t got_req[4];
#else
static a0_rpc_server_t server;
static a0_rpc_client_t client;
static a0_rpc_request_t got_req[4];
#endif
static int got_reqs;

// ---- what the callbacks saw for the packet being delivered
static a0_packet_t* cur;
static int calls, call_slot, call_done, call_same, opens_seen, cancels_seen, cancel_same;
static int in_cb_op;

static int same_packet(const a0_packet_t* p) {
  int ok = (p->payload.size == cur->payload.size) & (p->headers_block.size == cur->headers_block.size);
  ok &= !memcmp(p->payload.data, cur->payload.data, cur->payload.size < 4 ? cur->payload.size : 4);
  ok &= same_id(p->id, cur->id);
  return ok;
}

static a0_packet_t blank(char* pid) {
  a0_packet_t p;
  memset(&p, 0, sizeof(p));
  memcpy(p.id, pid, 37);
  return p;
}

static void got(int slot, a0_packet_t p, int done);
#ifdef PRPC
static void cb0(void* u, a0_packet_t p, bool done) { got((int)(intptr_t)u, p, done); }
#else
static void cb0(void* u, a0_packet_t p) { got((int)(intptr_t)u, p, 1); }
#endif

static void do_open(int k) {
  a0_packet_t p = blank(id[k]);
  uint8_t body[4] = {1, 2, 3, (uint8_t)(10 + k)};
  a0_packet_header_t h[1] = {{"user", "x"}};
  p.headers_block.headers = h;
  p.headers_block.size = 1;
  p.payload.data = body;
  p.payload.size = 4;
#ifdef WRITEFAIL
  fail_write = (int)vh_concrete(vh_bool());
#endif
  int before = wire_n;
#ifdef PRPC
  a0_prpc_progress_callback_t cb = {(void*)(intptr_t)k, cb0};
  a0_err_t err = a0_prpc_client_connect(&client, p, cb);
#else
  a0_packet_callback_t cb = {(void*)(intptr_t)k, cb0};
  a0_err_t err = a0_rpc_client_send(&client, p, cb);
#endif
  if (fail_write) {
    vh_assert(err != A0_OK, "a failed write is reported");
    vh_assert(wire_n == before, "a failed write leaves nothing behind");
    vh_assume(0);
  }
  vh_assert(err == A0_OK, "sending succeeds");
  vh_assert(wire_n == before + 1, "one packet per request");
  a0_packet_t* w = &wire[before].pkt;
  const char* t = hdr(w, TYPE);
  const char* u = hdr(w, "user");
  int ok = t && !strcmp(t, T_OPEN) && u && !strcmp(u, "x");
  ok = ok && !memcmp(w->id, id[k], 37) && w->payload.size == 4 && !memcmp(w->payload.data, body, 4);
  vh_assert(ok, "the request is sent as given");
  state[k] = OUT;
}

static void do_cancel(int k) {
  int before = wire_n;
#ifdef PRPC
  a0_err_t err = a0_prpc_client_cancel(&client, id[k]);
#else
  a0_err_t err = a0_rpc_client_cancel(&client, id[k]);
#endif
  vh_assert(err == A0_OK, "cancelling succeeds");
  vh_assert(wire_n == before + 1, "one packet per cancel");
  a0_packet_t* w = &wire[before].pkt;
  const char* t = hdr(w, TYPE);
  const char* r = hdr(w, IDKEY);
  int ok = t && !strcmp(t, T_CANCEL) && r && !strcmp(r, id[k]);
  ok = ok && w->payload.size >= 36 && !memcmp(w->payload.data, id[k], 36);
  vh_assert(ok, "the cancel packet names the request");
  state[k] = GONE;
}

static void got(int slot, a0_packet_t p, int done) {
  calls++;
  call_slot = slot;
  call_done = done;
  vh_assert(cur != NULL, "a callback outside of a delivery");
  call_same = same_packet(&p);
  vh_assert(!mu_held, "the lock is free while a callback runs");
#ifdef REENTER
  if (in_cb_op == 1) {
    in_cb_op = 0;
    if (done) {
      do_open(slot);
    } else {
      do_cancel(slot);
    }
  } else if (in_cb_op == 2) {
    in_cb_op = 0;
    do_cancel(1 - slot);
  }
#endif
}

#ifdef PRPC
static void onopen(void* u, a0_prpc_connection_t r) {
#else
static void onopen(void* u, a0_rpc_request_t r) {
#endif
  opens_seen++;
  int ok = cur != NULL && u == &got_reqs && r.server == &server;
  ok = ok && same_packet(&r.pkt);
  vh_assert(ok, "the handler gets the request");
  vh_assume(got_reqs < 4);
  got_req[got_reqs++] = r;
}
static void oncancel(void* u, a0_uuid_t c) {
  cancels_seen++;
  int ok = cur != NULL && cur->payload.size >= 36 && u == &cancels_seen;
  cancel_same = ok && !memcmp(c, cur->payload.data, 36);
}

static void do_reply(int j, int done) {
  uint8_t body[4] = {9, 8, 7, (uint8_t)(20 + wire_n)};
  char rid[37];
  a0_uuidv4(rid);
  a0_packet_t p = blank(rid);
  a0_packet_header_t h[1] = {{"user", "y"}};
  p.headers_block.headers = h;
  p.headers_block.size = 1;
  p.payload.data = body;
  p.payload.size = 4;
  int before = wire_n;
#ifdef PRPC
  a0_err_t err = a0_prpc_server_send(got_req[j], p, done);
#else
  a0_err_t err = a0_rpc_server_reply(got_req[j], p);
#endif
  vh_assert(err == A0_OK && wire_n == before + 1, "one packet per reply");
  a0_packet_t* w = &wire[before].pkt;
  const char* t = hdr(w, TYPE);
  const char* r = hdr(w, IDKEY);
  const char* u = hdr(w, "user");
  int ok = t && !strcmp(t, done ? T_END : T_MID ? T_MID : T_END) && r && !strcmp(r, got_req[j].pkt.id) && u && !strcmp(u, "y");
  ok = ok && !memcmp(w->id, rid, 37) && w->payload.size == 4 && !memcmp(w->payload.data, body, 4);
  vh_assert(ok, "the reply carries the request's id and the given content");
}

// ---- foreign packets: types and ids of every shape
enum { K_NONE, K_OPEN, K_MID, K_END, K_CANCEL, K_OTHER };
enum { F_NONE, F_ID, F_SHORT, F_LONG };
static void do_foreign(void) {
  char fid[38], text[12];
#ifdef KIND
  int kind = KIND;
  int form = (int)vh_concrete(vh_range(F_NONE, F_LONG));
  int swap = (int)vh_concrete(vh_bool());
  sym_id(fid, (int)vh_concrete(vh_bool()));
#else
  int kind = (int)vh_concrete(vh_range(T_MID ? K_MID : K_END, K_CANCEL)), form = F_ID, swap = 0;
  sym_id(fid, 0);
#endif
  size_t size = 4;
  uint8_t body[40];
  memset(body, 0x55, sizeof(body));
  if (kind == K_CANCEL) {
    static const uint8_t sizes[] = {0, 1, 35, 36, 37, 40};
#ifdef KIND
    size = sizes[vh_concrete(vh_range(0, 5))];
#else
    size = 37;
#endif
    memcpy(body, fid, 37);
  }
  body[3] = (uint8_t)(40 + wire_n);
  char fid_is[37];
  memcpy(fid_is, fid, 37);
  if (form == F_SHORT) {
    fid[35] = 0;
  } else if (form == F_LONG) {
    fid[36] = 'x';
    fid[37] = 0;
  }
  const char* types[] = {NULL, T_OPEN, T_MID, T_END, T_CANCEL};
  if (kind == K_OTHER) {
    // any text that is none of the words, one letter away from each
    const char* words[] = {T_OPEN, T_END, T_CANCEL, T_MID ? T_MID : T_END};
    const char* w = words[vh_concrete(vh_range(0, 3))];
    size_t n = strlen(w);
    memcpy(text, w, n + 1);
    text[n - 1] = (char)vh_u8();
    vh_assume(text[n - 1] != w[n - 1]);
  }
  a0_packet_header_t h[3];
  size_t n = 0;
  if (swap && form != F_NONE) {
    h[n].key = IDKEY;
    h[n++].val = fid;
  }
  h[n].key = "a0_dep";
  h[n++].val = id[0];
  if (kind == K_OTHER || types[kind]) {
    h[n].key = TYPE;
    h[n++].val = kind == K_OTHER ? text : types[kind];
  }
  if (!swap && form != F_NONE) {
    h[n].key = IDKEY;
    h[n++].val = fid;
  }
  char pid[37];
  a0_uuidv4(pid);
  a0_packet_t p = blank(pid);
  p.headers_block.headers = h;
  p.headers_block.size = n;
  p.payload.data = body;
  p.payload.size = size;
  wire_append(p);
}

// ---- delivery, compared with the reference
// The request the packet is for: its number, or -1; *end: no more after it.
static int expects(const a0_packet_t* p, int* end) {
  const char* t = hdr(p, TYPE);
  const char* r = hdr(p, IDKEY);
  if (!t || !r) {
    return -1;
  }
  *end = !strcmp(t, T_END);
  if (!*end && !(T_MID && !strcmp(t, T_MID))) {
    return -1;
  }
  if (strlen(r) != 36) {
    return -1;
  }
  for (int k = 0; k < NREQ; k++) {
    if (state[k] == OUT && same_id(r, id[k])) {
      return k;
    }
  }
  return -1;
}

static int client_pos, server_pos;
static void pump_client(void) {
#ifdef PRPC
  rd_t* r = rd_find(&client._progress_reader);
#else
  rd_t* r = rd_find(&client._response_reader);
#endif
  for (;;) {
    int i = rd_next(r), end;
    int upto = i < 0 ? wire_n : i;
    while (client_pos < upto) {
      vh_assert(expects(&wire[client_pos].pkt, &end) < 0, "no response is passed over");
      client_pos++;
    }
    if (i < 0) {
      return;
    }
    if (client_pos > i) {
      continue;  // seen before: judged by the callbacks below
    }
    client_pos = i + 1;
    int k = expects(&wire[i].pkt, &end);
    if (k >= 0 && end) {
      state[k] = GONE;
    }
    calls = 0;
    cur = &wire[i].pkt;
#ifdef REENTER
    in_cb_op = (int)vh_concrete(vh_range(0, 2));
#endif
    r->cb.fn(r->cb.user_data, wire[i].pkt);
    cur = NULL;
    vh_assert(calls == (k >= 0), "a packet reaches the callback of the request it answers, and nothing else does");
    if (k >= 0) {
      vh_assert(call_slot == k, "the callback of that request");
      vh_assert(call_same, "the packet as it was sent");
      vh_assert(call_done == end, "done exactly on the last packet");
      vh_reach("delivered");
    } else {
      vh_reach("ignored");
    }
  }
}

static int with_cancel;
static void pump_server(void) {
#ifdef PRPC
  rd_t* r = rd_find(&server._connection_reader);
#else
  rd_t* r = rd_find(&server._request_reader);
#endif
  for (;;) {
    int i = rd_next(r);
    int upto = i < 0 ? wire_n : i;
    while (server_pos < upto) {
      const char* t = hdr(&wire[server_pos].pkt, TYPE);
      vh_assert(!t || (strcmp(t, T_OPEN) && strcmp(t, T_CANCEL)), "no request is passed over");
      server_pos++;
    }
    if (i < 0) {
      return;
    }
    opens_seen = cancels_seen = 0;
    cur = &wire[i].pkt;
    r->cb.fn(r->cb.user_data, wire[i].pkt);
    const char* t = hdr(cur, TYPE);
    int fresh = server_pos <= i;
    vh_assert(opens_seen == (fresh && t && !strcmp(t, T_OPEN)), "the handler runs once per request");
    if (t && !strcmp(t, T_CANCEL) && with_cancel && cur->payload.size >= 36) {
      vh_assert(cancels_seen == 1 || cur->payload.size == 36, "the cancel handler runs once per cancel");
      vh_assert(!cancels_seen || cancel_same, "the cancel handler gets the id");
      vh_reach("cancel seen");
    } else {
      vh_assert(!cancels_seen, "the cancel handler runs for cancels only");
    }
    cur = NULL;
    server_pos = i + 1;
  }
}

int main(void) {
  sym_id(id[0], 0);
#ifdef KIND
  sym_id(id[1], (int)vh_concrete(vh_bool()));
#else
  sym_id(id[1], 0);
#endif
  vh_assume(!same_id(id[0], id[1]));
  // what was said before anyone was there
  a0_packet_t old = blank("aaaaaaaa-0000-4000-8000-00000000000a");
  a0_packet_header_t oh[1] = {{TYPE, T_OPEN}};
  old.headers_block.headers = oh;
  old.headers_block.size = 1;
  wire_append(old);
  client_pos = server_pos = 1;

#ifdef KIND
  with_cancel = (int)vh_concrete(vh_bool());
#else
  with_cancel = 1;
#endif
  a0_packet_id_callback_t oc = {&cancels_seen, with_cancel ? oncancel : NULL};
#ifdef PRPC
  a0_prpc_topic_t topic = {"t", NULL};
  a0_prpc_connection_callback_t oo = {&got_reqs, onopen};
  a0_err_t err = a0_prpc_server_init(&server, topic, heap(), oo, oc);
  err |= a0_prpc_client_init(&client, topic, heap());
#else
  a0_rpc_topic_t topic = {"t", NULL};
  a0_rpc_request_callback_t oo = {&got_reqs, onopen};
  a0_err_t err = a0_rpc_server_init(&server, topic, heap(), oo, oc);
  err |= a0_rpc_client_init(&client, topic, heap());
#endif
  vh_assert(err == A0_OK, "starting succeeds");
  pump_server();
  pump_client();

#ifdef PRE
  for (int k = 0; k < PRE; k++) {
    do_open(k);
  }
  pump_server();
  pump_client();
#endif
  for (int s = 0; s < STEPS; s++) {
#ifdef FIRST
    int op = s == 0 ? FIRST : (int)vh_concrete(vh_range(0, 3));
#else
    int op = (int)vh_concrete(vh_range(0, 3));
#endif
    if (op == 0 || op == 1) {
      int k = (int)vh_concrete(vh_range(0, NREQ - 1));
      if (op == 0) {
        vh_assume(state[k] != OUT);
        do_open(k);
      } else {
        do_cancel(k);
      }
    } else if (op == 2) {
      vh_assume(got_reqs > 0);
      int j = (int)vh_concrete(vh_range(0, got_reqs - 1));
      do_reply(j, T_MID ? (int)vh_concrete(vh_bool()) : 1);
    } else {
      do_foreign();
    }
    if (s == STEPS - 1 || vh_concrete(vh_bool())) {
      pump_server();
      pump_client();
    }
  }
  vh_assert(!mu_bad, "the lock is taken and released in pairs");
#ifdef PRPC
  a0_prpc_client_close(&client);
  a0_prpc_server_close(&server);
#else
  a0_rpc_client_close(&client);
  a0_rpc_server_close(&server);
#endif
  vh_assert(!files_open && !writers_open && !rd_n && !mu_live && !mu_bad, "closing gives everything back");
  vh_reach("end");
  return 0;
}
