// Local transactions against conflicting remote write sets: outcome, commit order, BF aborts.
#include "sim.hpp"
using namespace sim;

namespace
{
typedef std::vector<std::string> SV;
const SV TRX = {"C01", "C02", "C03", "C15", "C16", "C17", "C21"};

void variant(Cfg& c)
{
    int v = vf::pick(3, "dbms variant");
    c.two_pc = v & 1;
    c.lazy_rollback = v == 2;
    c.replay_style = v == 1;
    c.mariadb_stmt = v == 2;
}

// One session, autocommit style: begin, write, commit in one command.
void session_auto(Client& c, char row, int rows = 1)
{
    c.open();
    c.command([&]() {
        c.begin();
        int r = 0;
        for (int i = 0; !r && i < rows; ++i) r = c.write(row + i, std::string(1, row + i));
        return r || c.commit();
    });
    c.close();
}
// One session, separate commands for the statement and the commit.
void session_multi(Client& c, char row)
{
    c.open();
    c.command([&]() { c.begin(); return c.write(row, std::string(1, row)); });
    if (c.trx) c.command([&]() { return c.commit(); });
    c.close();
}

vf::Reg r1("trx.bfabort", TRX, {{2, 0}}, {{3, 1}, {4, 0}}, []() {
    Cfg cfg;
    variant(cfg);
    const bool multi = vf::pick(2, "multi command");
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        vf::spawn("net", [&]() { vf::point("net"); w.remote('2', 1001, F::start | F::commit, "a"); });
        Client* c = w.new_client();
        vf::spawn("session", [&, c]() {
            if (multi) session_multi(*c, 'a'); else session_auto(*c, 'a');
        });
    });
});

const std::vector<CertFault> ALL_CERT = {
    {P::error_certification_failed, true}, {P::error_certification_failed, false},
    {P::error_size_exceeded, false}, {P::error_connection_failed, false},
    {P::error_provider_failed, false}, {P::error_warning, false},
    {P::error_transaction_missing, false}, {P::error_not_allowed, false},
    {P::error_not_implemented, false}, {P::error_fatal, false}, {P::error_unknown, false}};

vf::Reg r2("trx.faults", TRX, {{1, 1}}, {{2, 2}}, []() {
    Cfg cfg;
    variant(cfg);
    cfg.cert_faults = ALL_CERT;
    cfg.data_fail = true;
    cfg.append_fail = true;
    cfg.interrupt = true;
    cfg.abort_refuse = true;
    cfg.conn_fail_on_abort = true;
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        vf::spawn("net", [&]() { vf::point("net"); w.remote('2', 1001, F::start | F::commit, "a"); });
        Client* c = w.new_client();
        vf::spawn("session", [&, c]() { session_auto(*c, 'a'); });
    });
});

vf::Reg r3("trx.two_sessions", TRX, {{1, 0}}, {{2, 1}}, []() {
    Cfg cfg;
    variant(cfg);
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        vf::spawn("net", [&]() { vf::point("net"); w.remote('2', 1001, F::start | F::commit, "ab"); });
        Client* c = w.new_client();
        Client* d = w.new_client();
        vf::spawn("s1", [&, c]() { session_auto(*c, 'a'); });
        vf::spawn("s2", [&, d]() { session_auto(*d, 'b'); });
    });
});
}
