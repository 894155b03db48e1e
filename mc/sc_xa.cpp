// XA transactions: prepared transactions survive until decided.
#include "sim.hpp"
#include <algorithm>
using namespace sim;

namespace
{
typedef std::vector<std::string> SV;
typedef wsrep::streaming_context SC;
const SV XA = {"C14", "C03", "C05", "C17"};

enum Dec { d_commit, d_rollback, d_none };
struct Prog
{
    bool sr = false;      // fragments before prepare
    bool idle = false;    // a command between prepare and decision
    bool gap = false;     // ... which executes nothing
    bool one = false;     // commit in one phase
    Dec dec = d_commit;
    int by_other = 0;     // 1: disconnect and let another session decide
};
struct Out
{
    bool decided = false;
    bool prepared = false;
};

// XA session up to the decision.  Returns what became of it.
void decide(Client& c, Client& owner, Dec d, Out& o)
{
    for (int i = 0; i < 4 && !o.decided; ++i)
    {
        c.command([&]() {
            if (&c != &owner) { c.xid = owner.xid; c.xa_trx = owner.xa_trx; }
            const int r = c.xa_decide(d == d_commit);
            return r;
        });
        const Result& r = c.results.back();
        if (r.ran && r.err == wsrep::e_success) o.decided = true;
    }
    VF_CHECK(o.decided, "decision on a prepared transaction keeps failing");
}
void session(Client& c, const Prog& p, Out& o)
{
    c.open();
    c.xid = wsrep::xid(1, 2, 0, "x1");
    c.command([&]() {
        if (p.sr) c.cs.enable_streaming(SC::row, 1);
        c.begin();
        c.explicit_xa = true;
        c.xa_trx = c.trx;
        c.trx->xa = true;
        c.cs.assign_xid(c.xid);
        return c.write('a', "a");
    });
    Trx* t = c.xa_trx;
    if (p.one && c.trx)
    {
        c.command([&]() {
            t->xa_asked = 1;
            const int r = c.commit();
            if (!r) c.explicit_xa = false;
            else if (c.tstate() == T::s_prepared) t->xa_prepared = true;
            return r;
        });
        const Result& r = c.results.back();
        if (r.ran && r.err == wsrep::e_success) o.prepared = o.decided = true;
        else if (t->xa_prepared) { o.prepared = true; decide(c, c, d_commit, o); }
        if (o.decided) { c.close(); return; }
        t->xa_asked = 0;
    }
    else if (c.trx) c.command([&]() { return c.xa_prepare(); });
    if (!t->xa_prepared)
    {
        // aborted: XA ROLLBACK
        for (int i = 0; i < 3 && c.trx; ++i)
        {
            c.xa_rollback_cmd = true;
            c.command([&]() {
                c.explicit_xa = false;
                return c.trx && c.trx_active() && c.tstate() != T::s_aborted ? c.rollback() : 0;
            });
            c.xa_rollback_cmd = false;
        }
        VF_CHECK(!c.trx, "aborted transaction %llu cannot be rolled back", t->id);
        c.close();
        return;
    }
    o.prepared = true;
    if (p.idle) c.command(p.gap ? std::function<int()>() : [&]() { vf::point("idle"); return 0; });
    if (p.dec != d_none && !p.by_other) decide(c, c, p.dec, o);
    c.close();
    if (p.dec != d_none && p.by_other)
    {
        Client* n = c.w.new_client();
        n->open();
        decide(*n, c, p.dec, o);
        n->close();
    }
}
void verify(World& w, Client& c, const Prog& p, const Out& o)
{
    if (w.node_failed) return;
    Trx& t = *c.xa_trx;
    TrxKey k(w.own_id, t.id);
    const bool sa = w.server->find_streaming_applier(w.own_id, wsrep::transaction_id(t.id));
    vf::outcome(std::string(o.prepared ? "P" : "-") + (o.decided ? "D" : "-") + (sa ? "S" : "-")
                + (w.db.count(k) ? "C" : "-"));
    if (!o.prepared || p.dec == d_rollback)
    {
        VF_CHECK(!w.db.count(k), "rolled back transaction %llu is in the database", t.id);
        VF_CHECK(!sa && !w.frags.count(k), "rolled back transaction %llu left fragments behind",
                 t.id);
        return;
    }
    if (p.dec == d_commit)
    {
        VF_CHECK(w.db.count(k), "transaction %llu is not in the database although its commit"
                 " succeeded", t.id);
        std::string d = w.db[k];
        d.erase(std::remove(d.begin(), d.end(), '\0'), d.end());
        VF_CHECK(d == t.written, "prepared transaction %llu committed '%s' instead of '%s'", t.id,
                 d.c_str(), t.written.c_str());
        VF_CHECK(!sa && !w.frags.count(k), "committed transaction %llu left fragments behind",
                 t.id);
        return;
    }
    c.xa_check_prepared();
}
Prog prog()
{
    Prog p;
    p.sr = vf::pick(2, "fragments");
    p.one = vf::pick(2, "one phase");
    if (p.one) return p;
    p.dec = (Dec)vf::pick(3, "decision");
    if (p.dec == d_none) return p;
    p.by_other = vf::pick(2, "decided by another session");
    p.idle = !p.by_other && vf::pick(2, "idle command");
    p.gap = p.idle && vf::pick(2, "empty command");
    return p;
}
enum { c_none, c_trx, c_toi, c_replay };
void run(Cfg& cfg, const Prog& p, int conflict)
{
    Out o;
    Client* c = nullptr;
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        w.start_rollbacker();
        if (conflict != c_none)
            vf::spawn("net", [&]() {
                vf::point("net");
                // another session is being replayed in the meantime
                if (conflict == c_replay) { ++w.replayers; vf::point("replaying"); }
                if (conflict == c_toi) w.remote('2', 0, F::isolation | F::start | F::commit, "a");
                else w.remote('2', 1001, F::start | F::commit, "a");
                if (conflict == c_replay)
                {
                    vf::block_until([&]() { return w.queue.empty() && !w.applying; }, "replay");
                    --w.replayers;
                }
            });
        c = w.new_client();
        vf::spawn("session", [&]() { session(*c, p, o); });
        vf::join_all();
        w.drain();
        verify(w, *c, p, o);
    });
}
void rm(Cfg& cfg)
{
    cfg.rm = vf::pick(2, "rollback mode") ? wsrep::server_state::rm_sync
                                          : wsrep::server_state::rm_async;
    cfg.lazy_rollback = vf::pick(2, "dbms variant");
}
vf::Reg r1("xa.abort", XA, {{1, 0}}, {{2, 0}}, []() {
    Cfg cfg;
    rm(cfg);
    run(cfg, prog(), c_trx);
});
vf::Reg r2("xa.toi", XA, {{1, 0}}, {{2, 0}}, []() {
    Cfg cfg;
    rm(cfg);
    run(cfg, prog(), c_toi);
});
vf::Reg r3("xa.replayers", XA, {{1, 0}}, {{2, 0}}, []() {
    Cfg cfg;
    rm(cfg);
    Prog p = prog();
    run(cfg, p, c_replay);
});
vf::Reg r4("xa.faults", XA, {{0, 1}}, {{1, 1}, {1, 2}}, []() {
    Cfg cfg;
    rm(cfg);
    cfg.cert_faults = {{P::error_connection_failed, false}};
    cfg.conn_fail_on_abort = true;
    cfg.interrupt = true;
    run(cfg, prog(), c_trx);
});
vf::Reg r5("xa.prepare_faults", XA, {{0, 1}}, {{1, 1}, {1, 2}, {2, 1}}, []() {
    Cfg cfg;
    rm(cfg);
    cfg.frag_faults = {{P::error_certification_failed, true},
                       {P::error_certification_failed, false}, {P::error_size_exceeded, false},
                       {P::error_connection_failed, false}, {P::error_provider_failed, false},
                       {P::error_warning, false}};
    cfg.storage_fail = cfg.append_fail = cfg.release_fail = cfg.leave_fail = true;
    cfg.interrupt = cfg.not_allowed_streaming = true;
    run(cfg, prog(), c_trx);
});
}
