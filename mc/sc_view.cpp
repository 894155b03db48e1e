// View changes: which streaming transactions are closed, disconnecting and recovering.
#include "sim.hpp"
using namespace sim;

namespace
{
typedef wsrep::streaming_context SC;
typedef std::vector<unsigned char> Members;
typedef std::vector<std::string> SV;

// What the views and write sets say about streaming transactions.
struct Model
{
    struct T { bool prepared = false; bool open = true; std::vector<long> frags; };
    std::map<TrxKey, T> t;         // transactions of other servers (and former incarnations)
    std::set<unsigned char> prev;  // members of the last primary view
    bool primary = true;
    bool connected = true;
    int recoveries = 1;
};
bool has(const Members& m, const wsrep::id& id)
{
    for (auto c : m) if (make_id(c) == id) return true;
    return false;
}

struct Env
{
    World& w;
    Model m;
    Client* c = nullptr;      // local session
    bool local_closed = false; // expected to have been rolled back by the view
    int next = 1001;
    std::set<TrxKey> unsent;  // rolled back while disconnected
    std::map<unsigned char, unsigned long long> cur; // open transaction per server
    explicit Env(World& w_) : w(w_) { m.prev = {'1', '2'}; }

    bool local_open() const { return c->trx && !local_closed; }
    bool local_prepared() const { return c->trx && c->trx->xa_prepared; }

    void check(const char* when)
    {
        for (auto& kv : m.t)
        {
            const TrxKey& k = kv.first;
            Model::T& t = kv.second;
            const wsrep::transaction_id tid(k.second);
            wsrep::high_priority_service* sa = w.server->find_streaming_applier(k.first, tid);
            VF_CHECK(!!sa == (t.open && m.connected), "%s: applier of %s %s", when,
                     show(k).c_str(), sa ? "still exists" : "is gone");
            if (sa)
                VF_CHECK((sa->transaction().state() == wsrep::transaction::s_prepared)
                             == t.prepared, "%s: applier of %s is in state %s", when,
                         show(k).c_str(), wsrep::to_c_string(sa->transaction().state()));
            auto it = w.frags.find(k);
            const size_t n = it == w.frags.end() ? 0 : it->second.size();
            if (w.adopt_failed.count(k)) continue; // stale fragments are left for the administrator
            VF_CHECK(n == (t.open ? t.frags.size() : 0), "%s: %zu fragments of %s stored", when, n,
                     show(k).c_str());
        }
        if (c->trx && c->trx->frags_ok)
        {
            const TrxKey k(w.own_id, c->trx->id);
            const bool stored = w.frags.count(k);
            if (local_closed && w.cfg.rm == wsrep::server_state::rm_async)
            {
                // rolled back by the session itself when it gets control
                VF_CHECK(c->tstate() == wsrep::transaction::s_must_abort,
                         "%s: local transaction was not aborted", when);
            }
            else if (local_closed)
            {
                VF_CHECK(!stored, "%s: fragments of local transaction still stored", when);
                VF_CHECK(!c->se.active, "%s: local transaction is still executing", when);
            }
            else
            {
                VF_CHECK(stored, "%s: fragments of local transaction are gone", when);
                VF_CHECK(c->se.active && (c->tstate() == wsrep::transaction::s_executing
                                          || c->tstate() == wsrep::transaction::s_prepared),
                         "%s: local transaction was aborted", when);
            }
        }
        VF_CHECK(w.service.recoveries == m.recoveries, "%s: appliers recovered %d times instead "
                 "of %d", when, w.service.recoveries, m.recoveries);
    }
    void fragment(unsigned char s, bool prepare)
    {
        const bool start = !cur.count(s);
        if (start) cur[s] = next++;
        const TrxKey k(make_id(s), cur[s]);
        if (start) w.xid_of[k] = wsrep::xid(1, 1, 1, show(k).c_str());
        WS x = w.remote(s, cur[s], prepare ? F::prepare | F::pa_unsafe : start ? F::start : 0,
                        prepare ? "" : std::string(1, (char)('p' + w.order.size())));
        w.drain();
        Model::T& t = m.t[k];
        t.frags.push_back(x.seqno);
        t.prepared = prepare;
        if (prepare) cur.erase(s);
    }
    void view(const Members& mem, int own)
    {
        const std::set<unsigned char> s(mem.begin(), mem.end());
        const bool equal = s == m.prev;
        w.primary = true;
        const long seqno = w.order.size() + 1;
        w.cert_floor = m.primary ? w.cert_floor : seqno;
        const bool was_connected = m.connected;
        w.post_event(true, [=](Hps* h) {
            const size_t n = w.service.views.size();
            wsrep::view v = w.make_view(seqno, wsrep::view::primary, mem, own, seqno);
            w.server->on_view(v, h);
            VF_CHECK(w.service.views.size() == n + 1
                         && w.service.views.back().state_id() == v.state_id(),
                     "view was not passed on");
        });
        w.drain();
        if (!was_connected) { m.connected = true; ++m.recoveries; }
        for (auto& kv : m.t)
            if (!kv.second.prepared && (equal || !has(mem, kv.first.first)))
            {
                kv.second.open = false;
                for (auto i = cur.begin(); i != cur.end();)
                    if (i->second == kv.first.second) i = cur.erase(i); else ++i;
            }
        if (c->trx && c->trx->frags_ok && !local_prepared() && (equal || own == -1))
            local_closed = true;
        m.primary = true;
        m.prev = s;
        check("after a primary view");
    }
    void non_primary()
    {
        w.primary = false;
        w.post_event(true, [=](Hps* h) {
            w.server->on_view(w.make_view(w.order.size(), wsrep::view::non_primary, {'1'}, 0), h);
        });
        w.drain();
        m.primary = false;
        check("after a non-primary view");
    }
    void sync()
    {
        w.post_event(false, [=](Hps*) { w.synced(); });
        w.drain();
        // rollback of these is announced and applied now
        for (auto& k : unsent) m.t[k].open = false;
        unsent.clear();
        check("after synced");
    }
    void disconnect()
    {
        const int kind = vf::pick(2, "final view");
        w.server->disconnect();
        w.primary = false;
        w.post_event(true, [=](Hps* h) {
            w.server->on_view(w.make_view(-1, kind ? wsrep::view::non_primary
                                                   : wsrep::view::disconnected, {}, -1), h);
        });
        w.drain();
        m.connected = m.primary = false;
        VF_CHECK(w.server->state() == wsrep::server_state::s_disconnected, "not disconnected");
        check("after disconnecting");
    }
    void reconnect(const Members& mem, int own)
    {
        w.own_id = make_id(mem[own]);
        VF_CHECK(w.server->connect("c", "addr", "", false) == 0, "reconnect failed");
        w.server->on_connect(w.make_view(w.order.size(), wsrep::view::primary, mem, own));
        w.service.on_recover = [=]() {
            for (auto& kv : m.t)
                VF_CHECK(!kv.second.open || w.frags.count(kv.first),
                         "%s closed before recovery", show(kv.first).c_str());
        };
        view(mem, own);
        w.service.on_recover = nullptr;
        sync();
        VF_CHECK(w.server->state() == wsrep::server_state::s_synced, "not synced after reconnect");
    }
};

void sequence(int depth, bool local, bool reconnects, bool adopt = false)
{
    Cfg cfg;
    cfg.adopt_fail = adopt;
    if (local && vf::pick(2, "rollback mode")) cfg.rm = wsrep::server_state::rm_sync;
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        w.start_rollbacker();
        Env e(w);
        e.c = w.new_client();
        e.c->open();
        const Members views[] = {{'1', '2'}, {'1', '2', '3'}, {'2', '1'}, {'1', '3'}, {'1'}};
        bool gone = false;
        for (int i = 0; i < depth && !gone; ++i)
        {
            enum { o_view = 0, o_nonprim = 5, o_out, o_frag2, o_frag3, o_prep2, o_local, o_commit,
                   o_rollback, o_reconnect, o_new_id };
            std::vector<int> ops;
            for (int v = 0; v < 5; ++v) ops.push_back(o_view + v);
            if (e.m.primary)
            {
                ops.push_back(o_nonprim);
                ops.push_back(o_out);
                if (e.m.prev.count('2')) ops.push_back(o_frag2);
                if (e.m.prev.count('3')) ops.push_back(o_frag3);
                if (e.cur.count('2')) ops.push_back(o_prep2);
            }
            if (local)
            {
                if (e.m.primary || e.local_open()) ops.push_back(o_local);
                if (e.local_open()) { ops.push_back(o_commit); ops.push_back(o_rollback); }
            }
            if (reconnects) { ops.push_back(o_reconnect); ops.push_back(o_new_id); }
            const int op = ops[vf::pick((int)ops.size(), "operation")];
            auto finish_local = [&](bool commit) {
                if (!e.c->trx) return;
                e.c->store_globals();
                e.c->command([&]() { return commit ? e.c->commit() : e.c->rollback(); });
                e.local_closed = false;
                w.drain();
            };
            switch (op)
            {
            case o_nonprim: e.non_primary(); break;
            case o_out:
                e.view({'2', '3'}, -1);
                gone = true;
                break;
            case o_frag2: e.fragment('2', false); break;
            case o_frag3: e.fragment('3', false); break;
            case o_prep2: e.fragment('2', true); break;
            case o_local:
            {
                Client* c = e.c;
                c->store_globals();
                const std::string row(1, (char)('a' + i));
                c->command([&]() {
                    if (!c->trx)
                    {
                        c->cs.enable_streaming(SC::row, 1);
                        c->begin();
                    }
                    return c->write(row[0], row);
                });
                if (!c->trx) e.local_closed = false;
                w.drain();
                break;
            }
            case o_commit: case o_rollback: finish_local(op == o_commit); break;
            case o_reconnect: case o_new_id:
            {
                // sessions are closed before or after the connection
                const int late = e.local_open() && !e.local_prepared() && e.c->trx->frags_ok
                    ? vf::pick(4, "close session") : 0;
                if (!late) finish_local(false);
                e.disconnect();
                if (late)
                {
                    const TrxKey k(w.own_id, e.c->trx->id);
                    e.m.t[k];
                    for (auto& x : w.frags[k]) e.m.t[k].frags.push_back(x.seqno);
                    if (late == 3)
                    {
                        Client* c = e.c;
                        c->store_globals();
                        ++c->trx->faults;
                        c->trx->ok_errs.insert({wsrep::e_append_fragment_error, -1});
                        c->command([&]() { return c->write('h', "h"); });
                        VF_CHECK(!c->trx, "fragment replicated while disconnected");
                    }
                    else finish_local(late == 2);
                    e.unsent.insert(k);
                    e.check("after closing the session while disconnected");
                }
                const int v = vf::pick(3, "members");
                Members mem = v == 0 ? Members{'1', '2'} : v == 1 ? Members{'1', '3'}
                                                         : Members{'2', '1', '3'};
                if (op == o_new_id) for (auto& x : mem) if (x == '1') x = '9';
                e.reconnect(mem, v == 2 ? 1 : 0);
                if (op == o_new_id) gone = true;
                break;
            }
            default:
            {
                const Members& mem = views[op];
                const bool was = e.m.primary;
                e.view(mem, mem[0] == '1' ? 0 : 1);
                if (!was) e.sync();
                break;
            }
            }
            vf::outcome(std::to_string(w.frags.size()));
        }
        e.c->store_globals();
        if (e.c->trx) e.c->command([&]() { return e.c->rollback(); });
        e.c->close();
    });
}

// A streaming session works while views are handled by the applier, possibly with a conflicting
// write set or another abort under way.
void concurrent(bool conflict, bool two_sessions, bool spurious)
{
    Cfg cfg;
    const bool sync = vf::pick(2, "rollback mode");
    if (sync) cfg.rm = wsrep::server_state::rm_sync;
    cfg.lazy_rollback = cfg.mariadb_stmt = vf::pick(2, "dbms variant");
    cfg.spurious = spurious;
    cfg.cert_faults = {{P::error_certification_failed, true}, {P::error_connection_failed, false}};
    cfg.frag_faults = {{P::error_certification_failed, true}};
    // 0: lost and regained quorum, 1: equal views in a row, 2: evicted, 3: other server leaves
    const int kind = vf::pick(4, "views");
    const int end = vf::pick(2, "session end");
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        w.start_rollbacker();
        auto view = [&](const Members& mem, int own, bool equal) {
            w.primary = true;
            const long seqno = w.order.size() + 1;
            if (equal || own == -1) w.cert_floor = seqno;
            w.post_event(true, [&w, mem, own, seqno, equal](Hps* h) {
                w.server->on_view(w.make_view(seqno, wsrep::view::primary, mem, own, seqno), h);
                for (size_t n = 0; n < w.trxs.size(); ++n)
                {
                    Trx* t = w.trxs[n].get();
                    long first = 0;
                    for (int i : t->pieces)
                        if (w.order[i].verdict == 1 && w.order[i].passed() && !first)
                            first = w.order[i].seqno;
                    const TrxKey k(w.own_id, t->id);
                    const bool sa = w.server->find_streaming_applier(
                        k.first, wsrep::transaction_id(t->id));
                    if (!t->frags_ok || first > seqno || !first) continue;
                    if (equal || own == -1)
                    {
                        VF_CHECK(!sa, "applier of %llu survived the view", t->id);
                        if (t->commit_seqno && t->commit_seqno < seqno) continue;
                        VF_CHECK(t->bf_accepted || t->faults || t->voluntary_rb || t->done,
                                 "local transaction %llu survived the view", t->id);
                    }
                    else VF_CHECK(!t->to_abort, "transaction %llu aborted by an innocent view",
                                  t->id);
                }
                bool stale = w.frags.count(TrxKey(make_id('2'), 1001));
                if (equal || !has(mem, make_id('2')))
                    VF_CHECK(!stale, "fragments of an orphan are still stored");
                else VF_CHECK(stale, "fragments of a present member are gone");
            });
        };
        w.remote('2', 1001, F::start, "p");
        w.drain();
        vf::spawn("net", [&]() {
            vf::point("net");
            if (conflict)
            {
                w.remote('2', 1002, F::start | F::commit, "a");
                vf::point("net");
            }
            switch (kind)
            {
            case 0:
                w.primary = false;
                w.post_event(true, [&w](Hps* h) {
                    w.server->on_view(w.make_view(w.order.size(), wsrep::view::non_primary, {'1'},
                                                  0), h);
                });
                vf::point("quorum lost");
                view({'1', '2'}, 0, true);
                w.post_event(false, [&w](Hps*) { w.synced(); });
                break;
            case 1: view({'2', '1'}, 1, true); break;
            case 2: view({'2', '3'}, -1, false); break;
            case 3: view({'1'}, 0, false); break;
            }
        });
        auto session = [&, end](Client* c, char row) {
            c->open();
            c->command([&]() {
                c->cs.enable_streaming(SC::row, 1);
                c->begin();
                return c->write(row, std::string(1, row));
            });
            if (c->trx)
                c->command([&]() {
                    return end ? c->rollback() : c->commit();
                });
            c->close();
        };
        Client* c = w.new_client();
        vf::spawn("session", [&, c]() { session(c, 'a'); });
        if (two_sessions)
        {
            Client* d = w.new_client();
            vf::spawn("session2", [&, d]() { session(d, 'b'); });
        }
        vf::join_all();
        w.drain();
    });
}

vf::Reg r1("view.remote", SV({"C08", "C21"}), {{0, 0}}, {{0, 0}},
           []() { sequence(5, false, false); });
vf::Reg r2("view.local", SV({"C08", "C21"}), {{0, 0}}, {}, []() { sequence(4, true, false); });
vf::Reg r3("view.reconnect", SV({"C08", "C21"}), {{0, 0}}, {},
           []() { sequence(3, true, true); });
vf::Reg r4("view.local_deep", SV({"C08"}), {}, {{0, 0}}, []() { sequence(5, true, false); });
vf::Reg r5("view.reconnect_deep", SV({"C08"}), {}, {{0, 0}}, []() { sequence(4, true, true); });
vf::Reg r10("view.adopt", SV({"C08", "C21", "C02"}), {{0, 1}}, {{0, 2}},
            []() { sequence(4, true, false, true); });
vf::Reg r6("view.concurrent", SV({"C08", "C05", "C21"}), {{1, 1}}, {{2, 1}},
           []() { concurrent(false, false, false); });
vf::Reg r7("view.conflict", SV({"C08", "C05"}), {{1, 0}}, {{1, 1}},
           []() { concurrent(true, false, false); });
vf::Reg r8("view.two", SV({"C08"}), {}, {{1, 0}},
           []() { concurrent(false, true, false); });
vf::Reg r9("view.spurious", SV({"C08"}), {{1, 1}}, {{1, 2}},
           []() { concurrent(true, false, true); });
}
