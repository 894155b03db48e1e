// Streaming replication: fragment storage, rollback notification, piece contents.
#include "sim.hpp"
using namespace sim;

namespace
{
typedef std::vector<std::string> SV;
const SV SR = {"C01", "C02", "C03", "C05", "C15", "C16", "C17", "C21"};
typedef wsrep::streaming_context SC;

void variant(Cfg& c)
{
    int v = vf::pick(3, "dbms variant");
    c.two_pc = v & 1;
    c.lazy_rollback = v == 2;
    c.replay_style = 0;
    c.mariadb_stmt = v == 2;
    c.requires_globals = v != 1;
}
const std::vector<CertFault> FRAG = {
    {P::error_certification_failed, true}, {P::error_certification_failed, false},
    {P::error_size_exceeded, false}, {P::error_connection_failed, false},
    {P::error_provider_failed, false}, {P::error_warning, false}};
const std::vector<CertFault> CERT = {
    {P::error_certification_failed, true}, {P::error_connection_failed, false}};

struct Prog { enum SC::fragment_unit unit; size_t size; int rows; bool multi; bool rb; };

void session(Client& c, const Prog& p)
{
    c.open();
    auto write = [&](int i) { return c.write('a' + i, std::string(1, 'a' + i)); };
    if (!p.multi)
    {
        c.command([&]() {
            c.cs.enable_streaming(p.unit, p.size);
            c.begin();
            int r = 0;
            for (int i = 0; !r && i < p.rows; ++i) r = write(i);
            if (r) return r;
            return p.rb ? c.rollback() : c.commit();
        });
    }
    else
    {
        c.command([&]() { c.cs.enable_streaming(p.unit, p.size); c.begin(); return write(0); });
        for (int i = 1; c.trx && i < p.rows; ++i) c.command([&]() { return write(i); });
        if (c.trx) c.command([&]() { return p.rb ? c.rollback() : c.commit(); });
    }
    c.close();
}

Prog prog(int rows)
{
    Prog p;
    int u = vf::pick(4, "unit");
    p.unit = u == 0 ? SC::row : u == 1 ? SC::bytes : SC::statement;
    p.size = 1;
    if (u == 3) { p.unit = SC::row; p.size = 2; }
    p.rows = rows;
    p.multi = vf::pick(2, "multi command");
    p.rb = vf::pick(2, "voluntary rollback");
    return p;
}

vf::Reg r1("sr.bfabort", SR, {{1, 0}}, {{2, 1}}, []() {
    Cfg cfg;
    variant(cfg);
    Prog p = prog(2);
    const int at = vf::pick(2, "conflict");
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        w.start_rollbacker();
        vf::spawn("net", [&]() {
            vf::point("net");
            w.remote('2', 1001, F::start | F::commit, at ? "b" : "a");
        });
        Client* c = w.new_client();
        vf::spawn("session", [&, c]() { session(*c, p); });
    });
});

vf::Reg r2("sr.faults", SR, {{0, 1}}, {{1, 2}, {2, 1}}, []() {
    Cfg cfg;
    variant(cfg);
    Prog p = prog(2);
    cfg.cert_faults = CERT;
    cfg.frag_faults = FRAG;
    cfg.storage_fail = cfg.append_fail = cfg.release_fail = cfg.leave_fail = true;
    cfg.data_fail = cfg.remove_frag_fail = cfg.interrupt = cfg.not_allowed_streaming = true;
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        w.start_rollbacker();
        Client* c = w.new_client();
        vf::spawn("session", [&, c]() { session(*c, p); });
    });
});

vf::Reg r3("sr.faults_bfabort", SR, {{1, 1}}, {{2, 2}}, []() {
    Cfg cfg;
    Prog p{SC::row, 1, 2, false, false};
    cfg.requires_globals = vf::pick(2, "globals");
    cfg.cert_faults = CERT;
    cfg.frag_faults = FRAG;
    cfg.storage_fail = cfg.append_fail = cfg.release_fail = cfg.leave_fail = true;
    cfg.data_fail = cfg.remove_frag_fail = cfg.interrupt = cfg.not_allowed_streaming = true;
    cfg.empty_fragment = true;
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        w.start_rollbacker();
        vf::spawn("net", [&]() {
            vf::point("net");
            w.remote('2', 1001, F::start | F::commit, "a");
        });
        Client* c = w.new_client();
        vf::spawn("session", [&, c]() { session(*c, p); });
    });
});

// Total order aborts, accepted and refused, and the transaction after that.
vf::Reg r4("sr.toi", {"C01", "C02", "C03", "C05", "C21"}, {{1, 0}, {0, 1}}, {{2, 1}}, []() {
    Cfg cfg;
    cfg.lazy_rollback = cfg.mariadb_stmt = vf::pick(2, "dbms variant");
    cfg.frag_faults = {{P::error_certification_failed, true}};
    cfg.cert_faults = {{P::error_certification_failed, true}};
    Prog p{SC::row, 1, 1, true, (bool)vf::pick(2, "voluntary rollback")};
    const int kind = vf::pick(3, "abort");
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        w.start_rollbacker();
        Client* c = w.new_client();
        vf::spawn("session", [&, c, p]() {
            session(*c, p);
            Prog q = p;
            q.rb = true;
            if (kind != 1) session(*c, q);
        });
        vf::spawn("net", [&, c]() {
            vf::point("net");
            if (kind < 2) w.remote('2', 0, F::isolation | F::start | F::commit, "a");
            if (kind == 0) return;
            // abort of a session which has no transaction (any more)
            vf::point("stray abort");
            Lock l(c->cs.mtx);
            if (!c->cs.transaction().active())
                VF_CHECK(!c->cs.total_order_bf_abort(l, wsrep::seqno(100)),
                         "abort of a session without transaction accepted");
        });
    });
});
}
