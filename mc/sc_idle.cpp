// Idle sessions aborted between commands, with and without background rollbacker.
#include "sim.hpp"
using namespace sim;

namespace
{
typedef std::vector<std::string> SV;
typedef wsrep::streaming_context SC;
const SV IDLE = {"C01", "C02", "C03", "C04", "C15"};

void session(Client& c, int tail, bool keep, bool sr)
{
    c.open();
    c.command([&]() {
        if (sr) c.cs.enable_streaming(SC::row, 1);
        c.begin();
        return c.write('a', "a");
    });
    if (keep && c.trx) c.command(nullptr, true);
    if (tail == 0 && c.trx) c.command([&]() { return c.commit(); });
    if (tail == 1 && c.trx) c.command([&]() { return c.write('b', "b"); });
    if (tail == 2 && c.trx) c.command([&]() { return c.rollback(); });
    if (tail != 3 && !c.trx) c.command(nullptr); // nothing may leak into it
    c.close();
}
void run(bool sync, bool sr, bool with_keep, bool toi, bool spurious = false)
{
    Cfg cfg;
    cfg.rm = sync ? wsrep::server_state::rm_sync : wsrep::server_state::rm_async;
    cfg.mariadb_stmt = vf::pick(2, "dbms variant");
    cfg.lazy_rollback = cfg.mariadb_stmt;
    cfg.spurious = spurious;
    const int tail = vf::pick(4, "tail");
    const bool keep = with_keep && vf::pick(2, "keep");
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        w.start_rollbacker();
        vf::spawn("net", [&]() {
            vf::point("net");
            w.remote('2', toi ? 0 : 1001, toi ? F::isolation | F::start | F::commit
                                              : F::start | F::commit, "a");
        });
        Client* c = w.new_client();
        vf::spawn("session", [&, c]() { session(*c, tail, keep, sr); });
    });
}
vf::Reg r1("idle.sync", IDLE, {{1, 0}}, {{2, 0}}, []() { run(true, false, true, false); });
vf::Reg r2("idle.async", IDLE, {{1, 0}}, {{2, 0}}, []() { run(false, false, true, false); });
vf::Reg r3("idle.sync_sr", {"C03", "C04", "C05", "C15", "C21"}, {{1, 0}}, {{2, 0}},
           []() { run(true, true, false, false); });
vf::Reg r4("idle.sync_toi", {"C03", "C04", "C05", "C12"}, {{1, 0}}, {{2, 0}}, []() {
    const bool sr = vf::pick(2, "streaming");
    run(true, sr, false, true);
});
vf::Reg r5("idle.spurious", {"C04"}, {{1, 1}}, {{2, 1}, {1, 2}},
           []() { run(true, false, false, false, true); });
}
