// Starting and stopping with a failure at any step.
#include <a0/prpc.h>
#include <a0/rpc.h>

#include "wire.h"

#ifdef PRPC
static a0_prpc_server_t server;
static a0_prpc_client_t client;
static void onopen(void* u, a0_prpc_connection_t r) {}
#else
static a0_rpc_server_t server;
static a0_rpc_client_t client;
static void onopen(void* u, a0_rpc_request_t r) {}
#endif

int main(void) {
  int which = (int)vh_concrete(vh_bool());
  int fail = (int)vh_concrete(vh_range(0, 4));
  fail_open = fail == 1;
  fail_writer_init = fail == 2;
  fail_push = fail == 3;
  fail_reader = fail == 4;
  uint64_t live = vh_live_heap();
  a0_file_options_t opts;
  a0_err_t err;
#ifdef PRPC
  a0_prpc_topic_t topic = {"name", vh_concrete(vh_bool()) ? &opts : NULL};
  if (which) {
    err = a0_prpc_client_init(&client, topic, heap());
  } else {
    a0_prpc_connection_callback_t oo = {NULL, onopen};
    a0_packet_id_callback_t oc = {NULL, NULL};
    err = a0_prpc_server_init(&server, topic, heap(), oo, oc);
  }
#else
  a0_rpc_topic_t topic = {"name", vh_concrete(vh_bool()) ? &opts : NULL};
  if (which) {
    err = a0_rpc_client_init(&client, topic, heap());
  } else {
    a0_rpc_request_callback_t oo = {NULL, onopen};
    a0_packet_id_callback_t oc = {NULL, NULL};
    err = a0_rpc_server_init(&server, topic, heap(), oo, oc);
  }
#endif
  if (!fail) {
    vh_assert(err == A0_OK && files_open == 1 && rd_n == 1, "starting succeeds");
    vh_assert(!strcmp(opened_topic, "name") && opened_opts == topic.file_opts, "on the given topic");
#ifdef PRPC
    vh_assert(!strcmp(opened_tmpl, "prpc"), "under the topic template of its kind");
    err = which ? a0_prpc_client_close(&client) : a0_prpc_server_close(&server);
#else
    vh_assert(!strcmp(opened_tmpl, "rpc"), "under the topic template of its kind");
    err = which ? a0_rpc_client_close(&client) : a0_rpc_server_close(&server);
#endif
    vh_assert(err == A0_OK, "stopping succeeds");
    vh_reach("started");
  } else {
    vh_assert(err != A0_OK, "a failure is reported");
    vh_reach("failed");
  }
  vh_assert(!files_open && !writers_open && !rd_n && !mu_live && !mu_bad && vh_live_heap() == live, "nothing is left open");
  return 0;
}
