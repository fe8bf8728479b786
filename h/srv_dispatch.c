/* Which handler runs for a message?  Services are registered and unregistered in any
 * order; then a client sends a message with any service and function number. */
#include "srvlib.h"
#ifndef OPS
#define OPS 2
#endif
#ifndef WORKERS
#define WORKERS 1
#endif
#define NP 2
static int ran, ran_p, ran_f; static uint32_t ran_id; static int cfd;
static uint8_t payload;
static void note(struct gracht_message* m, gracht_buffer_t* b, int p, int f) {
    ran++; ran_p = p; ran_f = f;
    ran_id = get32((uint8_t*)b->data + b->index - HDR);
    VP_ASSERT(m->client == cfd && m->server == server, "the handler is told who called");
    VP_ASSERT((uint8_t)b->data[b->index] == payload, "the handler reads the first argument");
}
#define H(p, f) static void h##p##f(struct gracht_message* m, gracht_buffer_t* b) { note(m, b, p, f); }
H(0,0) H(0,1) H(0,2) H(1,0) H(1,1)
static gracht_protocol_function_t f0[3] = { { 4, h00 }, { 1, h01 }, { 200, h02 } };
static gracht_protocol_function_t f1[2] = { { 1, h10 }, { 4, h11 } };
static gracht_protocol_t protos[NP] = { GRACHT_PROTOCOL_INIT(3, "a", 3, f0), GRACHT_PROTOCOL_INIT(19, "b", 2, f1) };
static int reg[NP];
#ifdef MANY  /* a server with many services: the table grows and shrinks under them */
static gracht_protocol_t many[MANY]; static int there[MANY];
static gracht_protocol_function_t fm[1] = { { 7, h00 } };
static void known(uint8_t sid, int yes) {
    uint8_t msg[HDR + 1]; uint32_t id = vp_u32();
    int before = vp_nsent;
    ran = 0; payload = vp_u8();
    hdr(msg, id, sizeof(msg), sid, 7, 1);
    msg[HDR] = payload;
    vp_stream_data(cfd, msg, sizeof(msg), 0);
    gracht_server_handle_event(server, cfd, EPOLLIN);
    if (yes) VP_ASSERT(ran == 1 && ran_id == id && vp_nsent == before, "a registered function runs, once");
    else VP_ASSERT(ran == 0 && vp_nsent == before + 1, "a function that is not registered does not run and the caller is told");
}
void vp_main(void) {
    srv_create(WORKERS, 1);
    int lfd = srv_addlink(0, 16);
    cfd = srv_connect(lfd);
    int first = (int)vp_pick(0, 2), step = (int)vp_pick(0, 2);
    first = first == 0 ? 1 : first == 1 ? 15 : 30;
    step = step == 0 ? 1 : step == 1 ? 3 : 16;
    for (int i = 0; i < MANY; i++) {
        int id = first + i * step; id = id % 255 + id / 255; if (!id) id = 255;
        many[i] = (gracht_protocol_t)GRACHT_PROTOCOL_INIT((uint8_t)id, "m", 1, fm);
        for (int k = 0; k < i; k++) if (many[k].id == many[i].id) VP_ASSUME(0);
        VP_ASSERT(gracht_server_register_protocol(server, &many[i]) == 0, "every service is registered");
        there[i] = 1;
    }
    int keep = (int)vp_pick(0, 3); keep = keep == 0 ? 0 : keep == 1 ? 3 : keep == 2 ? 7 : MANY;
    int from = (int)vp_pick(0, 1);   /* unregistered from either end */
    for (int i = 0; i < MANY - keep; i++) { int k = from ? MANY - 1 - i : i; gracht_server_unregister_protocol(server, &many[k]); there[k] = 0; }
    int k = (int)vp_pick(0, MANY - 1);
    if (vp_bool()) { VP_ASSERT((gracht_server_register_protocol(server, &many[k]) == 0) == !there[k], "a service is registered once"); there[k] = 1; }
    else { gracht_server_unregister_protocol(server, &many[k]); there[k] = 0; }
    for (int i = 0; i < MANY; i++) known(many[i].id, there[i]);
    VP_WITNESS_IF(keep == MANY && there[k], "all registered");
    VP_WITNESS_IF(keep == 3 && !there[k], "most unregistered");
    gracht_server_request_shutdown(server);
    gracht_server_handle_event(server, lfd, EPOLLIN);
    VP_ASSERT(vp_live_allocs == 0, "shutdown releases all memory");
}
#else
void vp_main(void) {
    uint8_t msg[HDR + 1];
    srv_create(WORKERS, 1);
    int lfd = srv_addlink(0, 16);
#ifdef SAMEHOME  /* both services in the same place of the table, at any position */
    protos[0].id = (uint8_t)vp_pick(1, 20);
    protos[1].id = (uint8_t)(protos[0].id + 16);
#endif
    cfd = srv_connect(lfd);
    for (int k = 0; k < OPS; k++) {
        int p = (int)vp_pick(0, NP - 1);
        if (vp_bool()) {
            int r = gracht_server_register_protocol(server, &protos[p]);
            VP_ASSERT((r == 0) == !reg[p], "a service is registered once");
            reg[p] = 1;
        } else { gracht_server_unregister_protocol(server, &protos[p]); reg[p] = 0; }
    }
    gracht_protocol_t imp = GRACHT_PROTOCOL_INIT(0, "x", 2, f1);
    VP_ASSERT(gracht_server_register_protocol(server, &imp) == -1, "the control service cannot be replaced");
    uint32_t id = vp_u32(); uint8_t sid = vp_u8(), aid = vp_u8(), fl = vp_u8();
    payload = vp_u8();
    hdr(msg, id, sizeof(msg), sid, aid, fl);
    msg[HDR] = payload;
    vp_stream_data(cfd, msg, sizeof(msg), 0);
    gracht_server_handle_event(server, cfd, EPOLLIN);
    VP_ASSERT(vp_mtx_total_held == 0, "no lock is held between events");
    int want = -1, wf = -1;
    for (int p = 0; p < NP; p++)
        if (reg[p] && sid == protos[p].id)
            for (int f = 0; f < protos[p].num_functions; f++) if (protos[p].functions[f].id == aid) { want = p; wf = f; }
    if (want >= 0) {
        VP_ASSERT(ran == 1 && ran_p == want && ran_f == wf, "exactly the addressed function of the addressed service runs, once");
        VP_ASSERT(ran_id == id, "it sees the message of the call");
        VP_ASSERT(vp_nsent == 0, "no error is reported for a call that was executed");
        VP_WITNESS("executed");
    } else {
        VP_ASSERT(ran == 0, "nothing runs for a function that is not registered");
        if (!(sid == 0 && aid < 2)) {
            VP_ASSERT(vp_nsent == 1 && vp_sents[0].fd == cfd, "the caller, and nobody else, is told");
            uint8_t* d = vp_sents[0].data;
            VP_ASSERT(vp_sents[0].n == HDR + 8 && get32(d + 4) == HDR + 8, "the error message is framed");
            VP_ASSERT(d[8] == 0 && d[9] == 2 && (d[10] & 3) == 2, "it is the error event of the control service");
            VP_ASSERT(get32(d + HDR) == id && get32(d + HDR + 4) != 0, "it names the call and an error");
            VP_WITNESS("unknown function");
        } else VP_ASSERT(vp_nsent == 0, "a subscription is not an error");
    }
    VP_ASSERT(n_disconnected == 0, "the caller stays connected");
    gracht_server_request_shutdown(server);
    gracht_server_handle_event(server, lfd, EPOLLIN);
    VP_ASSERT(vp_live_allocs == 0, "shutdown releases all memory");
}
#endif
