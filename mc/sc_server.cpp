// Server life cycle: provider events, state transfer, initialization, disconnects and waiters.
#include "sim.hpp"
#include "wsrep/exception.hpp"
using namespace sim;

namespace
{
typedef wsrep::server_state SS;
const int N = SS::n_states_;

bool permitted(int a, int b)
{
    if (a == b) return false;
    if (b == SS::s_disconnected) return true;
    if (a == SS::s_disconnecting) return false;
    switch (a)
    {
    case SS::s_disconnected: return b == SS::s_initializing || b == SS::s_connected;
    case SS::s_initializing: return b == SS::s_initialized || b == SS::s_disconnecting;
    case SS::s_initialized:
        return b == SS::s_connected || b == SS::s_joined || b == SS::s_disconnecting;
    case SS::s_connected:
        return b == SS::s_joiner || b == SS::s_synced || b == SS::s_disconnecting;
    case SS::s_joiner:
        return b == SS::s_initializing || b == SS::s_joined || b == SS::s_disconnecting;
    case SS::s_joined:
        return b == SS::s_connected || b == SS::s_donor || b == SS::s_synced
            || b == SS::s_disconnecting;
    case SS::s_donor:
        return b == SS::s_connected || b == SS::s_joined || b == SS::s_disconnecting;
    case SS::s_synced:
        return b == SS::s_connected || b == SS::s_joined || b == SS::s_donor
            || b == SS::s_disconnecting;
    }
    return false;
}
const char* nm(int s) { return wsrep::to_c_string((enum SS::state)s); }

struct Drv
{
    World& w;
    SS& s;
    Provider& p;
    bool leaving = false;        // provider.disconnect() was called
    bool final_seen = false;
    bool rich = true;
    bool boots_too = false;
    bool idle = false;           // no more events until the server leaves
    bool storage_ready = false;  // initialized() was called
    long reached = -1;           // position the node is known to have
    long conn = 0;               // position at connect
    int cur = SS::s_disconnected;
    bool in_donor_end = false;   // fiber inside of sst_sent() / failing start_sst()
    int donor_fiber = -1;
    bool joiner_done = false;
    bool sst_ok = false;
    bool in_sst = false;
    int must_disconnect = 0;
    bool was_joined = false;
    bool boot = false;           // this connection bootstraps the cluster
    int boots = 0;               // times it was bootstrapped
    // waiters
    struct Wt { int target; bool done = false; int ret = -1; size_t from = 0;
                int due = -1; /* change which must be seen */ };
    std::map<int, Wt> wt;
    std::map<int, std::vector<int>> due; // changer -> waiters that must have seen its change
    std::map<int, size_t> due_at;

    explicit Drv(World& w_) : w(w_), s(*w_.server), p(*w_.provider)
    {
        w.scond.now = [this]() { return (long)w.service.changes.size(); };
        p.disconnect_fn = [this]() {
            VF_CHECK(!leaving, "provider disconnected twice");
            leaving = true;
            return 0;
        };
        w.service.on_state_change = [this](int a, int b) { changed(a, b); };
        w.extra_hash = [this]() {
            return (uint64_t)(leaving + 2 * final_seen + 4 * storage_ready + 8 * was_joined
                              + 16 * (reached + 1));
        };
        w.service.sync_fn = [](const char*) { vf::point("debug_sync"); };
        w.service.bootstrap_fn = [this]() {
            ++boots;
            VF_CHECK(boot, "bootstrapped without being asked to");
            VF_CHECK(boots == 1, "bootstrapped twice");
            VF_CHECK(storage_ready, "bootstrapped before the storage is initialized");
            VF_CHECK(cur != SS::s_joined && cur != SS::s_synced, "bootstrapped in state %s",
                     nm(cur));
        };
    }
    // start over after a disconnect
    void again()
    {
        leaving = final_seen = idle = false;
        in_sst = sst_ok = was_joined = false;
        conn = 0;
        boots = 0;
        p.sst_recvs.clear();
        p.sst_sents.clear();
        p.sst_received_fn = nullptr;
        p.sst_sent_fn = nullptr;
        w.service.stored_view = wsrep::view();
        w.service.get_position_fn = nullptr;
    }
    void changed(int a, int b)
    {
        const int me = vf::self();
        vf::trace("  [state] %s -> %s by %s", nm(a), nm(b), vf::self_name());
        VF_CHECK(w.smutex.m.owner == me, "state changed without holding the lock");
        VF_CHECK(a == cur, "state change from %s announced but the state was %s", nm(a), nm(cur));
        VF_CHECK(permitted(a, b), "state changes from %s to %s", nm(a), nm(b));
        if (b == SS::s_joined)
        {
            VF_CHECK(storage_ready, "joined before the storage was initialized");
            VF_CHECK(!in_sst || sst_ok, "joined by a state transfer that failed");
            if (a != SS::s_donor)
                VF_CHECK(reached >= conn, "joined at position %ld, connected at %ld", reached,
                         conn);
            was_joined = true;
        }
        if (a == SS::s_donor && b == SS::s_joined)
            VF_CHECK(in_donor_end && me == donor_fiber, "left donor state before transfer ended");
        if (b == SS::s_donor) VF_CHECK(was_joined, "donor before joined");
        if (b == SS::s_synced) VF_CHECK(storage_ready, "synced before the storage is initialized");
        // waiters of the state this thread brought about last must have observed it
        for (int f : due[me])
            if (due_at[me] == w.service.changes.size() - 1)
                VF_CHECK(!w.scond.waiting.count(f),
                         "state %s left before a thread waiting for it observed it", nm(a));
        due[me].clear();
        cur = b;
        due_at[me] = w.service.changes.size();
        for (auto& kv : wt)
            if (kv.second.target == b && !kv.second.done && w.scond.waiting.count(kv.first))
            {
                due[me].push_back(kv.first);
                kv.second.due = (int)w.service.changes.size();
            }
    }
    void waiter(int target)
    {
        Wt& x = wt[vf::self()];
        x.target = target;
        x.from = w.service.changes.size();
        const int start = cur;
        const int r = s.wait_until_state((enum SS::state)target);
        x.ret = r;
        x.done = true;
        bool seen = start == target, disc = start == SS::s_disconnecting;
        for (size_t i = x.from; i < w.service.changes.size(); ++i)
        {
            if (w.service.changes[i].second == target) seen = true;
            if (w.service.changes[i].second == SS::s_disconnecting
                || w.service.changes[i].second == SS::s_disconnected) disc = true;
        }
        if (r == 0)
            VF_CHECK(seen, "wait for %s succeeded but the state was never reached", nm(target));
        else
        {
            VF_CHECK(disc, "wait for %s failed although the server did not disconnect",
                     nm(target));
            VF_CHECK(target != SS::s_disconnected && target != SS::s_disconnecting,
                     "wait for %s was interrupted", nm(target));
            // reached while waiting, and nothing happened to the state since
            VF_CHECK(!(x.due >= 0 && (size_t)x.due == w.service.changes.size()),
                     "wait for %s failed although the state was reached", nm(target));
        }
    }
    void disconnect()
    {
        const int r = s.disconnect();
        VF_CHECK(r == 0, "disconnect failed");
        VF_CHECK(cur == SS::s_disconnecting || cur == SS::s_disconnected,
                 "state %s after disconnect", nm(cur));
    }
    // ---------------------------------------------------------------- provider events
    Hps* h = nullptr;
    wsrep::view prim(long seqno, long vs)
    {
        return w.make_view(seqno, wsrep::view::primary, {'1', '2'}, 0, vs);
    }
    bool view(const wsrep::view& v)
    {
        const long r0 = reached;
        if (v.status() == wsrep::view::primary && v.state_id().seqno().get() > reached)
            reached = v.state_id().seqno().get();
        h->store_globals();
        try
        {
            s.on_view(v, h);
        }
        catch (const wsrep::runtime_error&)
        {
            VF_CHECK(leaving || cur == SS::s_disconnecting || cur == SS::s_disconnected,
                     "view rejected although the server is not disconnecting");
            reached = r0;
            return false;
        }
        VF_CHECK(w.service.views.size() && w.service.views.back().state_id() == v.state_id()
                     && w.service.views.back().status() == v.status(),
                 "view was not logged");
        if (v.status() == wsrep::view::primary && !leaving && cur != SS::s_disconnecting)
        {
            VF_CHECK(storage_ready, "primary view processed before storage is initialized");
            VF_CHECK(boots == (boot ? 1 : 0), "bootstrapped %d times by the first primary view",
                     boots);
            if (reached >= conn)
                VF_CHECK(cur == SS::s_joined || cur == SS::s_synced || cur == SS::s_donor
                             || cur == SS::s_disconnecting,
                         "complete node is in state %s after primary view", nm(cur));
        }
        if (v.status() == wsrep::view::non_primary && !v.is_final())
            VF_CHECK(cur == SS::s_connected || cur == SS::s_disconnecting,
                     "state is %s after non-primary view", nm(cur));
        return true;
    }
    void connect(long c, bool prim_conn = true)
    {
        conn = c;
        const int how = boots_too ? vf::pick(3, "bootstrap") : 0; // by address, by flag
        boot = how > 0;
        bool asked = false;
        p.connect_fn = [&](const std::string& n, const std::string& a, const std::string& dn,
                           bool b) {
            VF_CHECK(!asked, "connected twice");
            asked = true;
            VF_CHECK(n == "c" && dn == "don" && a == (how == 1 ? "gcomm://" : "addr"),
                     "connection parameters changed");
            VF_CHECK(b == boot, "provider told to bootstrap: %d", b);
            return P::success;
        };
        VF_CHECK(s.connect("c", how == 1 ? "gcomm://" : "addr", "don", how == 2) == 0,
                 "connect failed");
        VF_CHECK(asked, "provider was not connected");
        p.connect_fn = nullptr;
        vf::point("connected");
        if (leaving) return;
        s.on_connect(prim(c, 1));
        VF_CHECK(s.id() == w.own_id, "server id not set on connect");
        VF_CHECK(s.connected_gtid() == make_gtid(c), "connected position is wrong");
    }
    void final_view()
    {
        const bool status_disc = !rich || vf::pick(2, "final view kind");
        wsrep::view v = w.make_view(reached < 0 ? 0 : reached,
                                    status_disc ? wsrep::view::disconnected
                                                : wsrep::view::non_primary, {}, -1, -1);
        view(v);
        final_seen = true;
        VF_CHECK(cur == SS::s_disconnected, "state %s after the final view", nm(cur));
        VF_CHECK(s.id().is_undefined(), "server id survived the disconnect");
    }
    // storage initialization by the main thread
    void initialize(bool sst_first)
    {
        if (sst_first)
        {
            if (s.wait_until_state(SS::s_initializing)) return;
            vf::point("initializing");
        }
        storage_ready = true;
        s.initialized();
        VF_CHECK(s.is_initialized(), "not initialized after initialized()");
    }
    void finish(std::vector<int> fibers, int connections = 1)
    {
        // everything ends by disconnecting
        disconnect();
        for (int f : fibers) vf::join(f);
        VF_CHECK(p.disconnects == connections, "provider disconnected %d times",
                 p.disconnects);
        VF_CHECK(cur == SS::s_disconnected && s.state() == SS::s_disconnected,
                 "final state is %s", nm(cur));
        for (auto& kv : wt)
        {
            if (kv.second.done) continue;
            vf::block_until([&]() { return kv.second.done || vf::in_cond(kv.first); },
                            "waiter");
            if (kv.second.done) continue;
            VF_CHECK(w.scond.waiting[kv.first] == (long)w.service.changes.size(),
                     "thread waiting for %s hangs after disconnect", nm(kv.second.target));
        }
        std::string o;
        for (auto& c : w.service.changes) o += (char)('0' + c.second);
        vf::outcome(o);
    }
};

// Provider events of one connection; every order the group communication may produce.
struct Gcs
{
    Drv& d;
    bool sst_first;
    int steps;
    bool plain = false; // join without transfer only
    bool seed = false;  // may be synced before the first view
    bool rich = true;   // all variants of final views, transfers and donors
    int sst_kind = 0;   // what happens to a state transfer
    Client* sst_client = nullptr;
    bool donor_running = false;

    void sst_thread(long target)
    {
        World& w = d.w;
        Client* c = sst_client;
        c->open();
        c->cs.before_command();
        vf::point("state transfer");
        const int kind = sst_kind;
        const int err = kind == 1 ? 17 : 0;
        const long pos = kind == 2 ? target - 1 : target; // 2: lags behind, IST follows
        int gets = 0;
        w.service.get_position_fn = [&]() {
            ++gets;
            VF_CHECK(d.storage_ready, "position read before the storage is initialized");
            d.reached = pos;
            return make_gtid(pos);
        };
        bool bogus = false;
        if (kind == 3 || kind == 4) // recovered view is ahead / of another group
        {
            w.service.stored_view = kind == 3 ? d.prim(pos + 1, 1)
                : wsrep::view(wsrep::gtid(make_id('X'), wsrep::seqno(pos)), wsrep::seqno(1),
                              wsrep::view::primary, 0, 0, 1, {});
            bogus = true;
        }
        if (kind == 5) w.service.stored_view = d.prim(pos, 1);
        const int rec0 = w.service.recoveries;
        int rec_at = -1;
        d.in_sst = true;
        d.sst_ok = !err && !bogus && pos >= target;
        d.p.sst_received_fn = [&, rec0]() {
            rec_at = w.service.recoveries - rec0;
            if (d.p.sst_recvs.back().err == 0)
                VF_CHECK(pos < target || d.cur == SS::s_joined || d.cur == SS::s_disconnecting,
                         "state transfer reported as complete in state %s", nm(d.cur));
            d.in_sst = false;
            vf::point("sst_received");
            return kind == 6 ? P::error_fatal : P::success;
        };
        const int ret = w.server->sst_received(*c, err);
        VF_CHECK(d.p.sst_recvs.size() == 1, "state transfer reported %zu times",
                 d.p.sst_recvs.size());
        const Provider::SstReport r = d.p.sst_recvs[0];
        VF_CHECK(rec_at == (r.err ? rec_at : 1) && rec_at <= 1,
                 "streaming transactions recovered %d times before the report", rec_at);
        if (err)
        {
            VF_CHECK(r.err != 0 && r.gtid.is_undefined(), "failed transfer reported with error %d",
                     r.err);
            VF_CHECK(gets == 0, "position read after a failed transfer");
            VF_CHECK(ret == 0, "sst_received returned %d", ret);
        }
        else if (r.err == 0)
        {
            VF_CHECK(!bogus, "contradictory position reported as success");
            VF_CHECK(d.storage_ready, "transfer reported before the storage is initialized");
            VF_CHECK(r.gtid == make_gtid(pos), "wrong position reported");
            VF_CHECK((ret != 0) == (kind == 6), "sst_received returned %d", ret);
            if (kind == 5)
                VF_CHECK(w.server->current_view().state_id() == make_gtid(pos),
                         "recovered view was not taken into use");
        }
        else
        {
            VF_CHECK(r.gtid.is_undefined(), "position reported with an error");
            VF_CHECK(ret != 0, "sst_received returned success after reporting an error");
            VF_CHECK(bogus || d.leaving || d.cur == SS::s_disconnecting
                         || d.cur == SS::s_disconnected,
                     "successful transfer reported as error %d", r.err);
        }
        c->cs.after_command_before_result();
        c->cs.after_command_after_result();
        c->close();
        joined_reported = true;
    }
    bool joined_reported = false;

    // returns false if the connection is over
    bool join(long c)
    {
        World& w = d.w;
        SS& s = d.s;
        const int how = plain || d.boot ? (seed ? 3 * vf::pick(2, "join") : 0)
            : rich ? vf::pick(3, "join") : 2 * vf::pick(2, "join");
        if (how == 3) // seed node: synced with itself before anything else
        {
            s.on_sync();
            VF_CHECK(d.cur == SS::s_initializing || d.cur == SS::s_initialized || d.leaving
                         || d.cur == SS::s_disconnecting,
                     "state %s after the first sync of a seed node", nm(d.cur));
            d.reached = c;
            if (!d.view(d.prim(c, 1))) return false;
            if (d.leaving) return true;
            VF_CHECK(d.cur == SS::s_joined || d.cur == SS::s_disconnecting,
                     "state %s of a seed node after the first view", nm(d.cur));
        }
        else if (how == 0) // no transfer needed
        {
            d.reached = c;
            if (!d.view(d.prim(c, 1))) return false;
        }
        else if (how == 1) // incremental transfer
        {
            d.reached = c - 1;
            if (!d.view(d.prim(c - 1, 1))) return false;
            if (d.leaving) return true;
            if (!d.view(d.prim(c, 2))) return false;
        }
        else
        {
            sst_kind = vf::pick(rich ? 7 : 2, "transfer");
            s.prepare_for_sst();
            VF_CHECK(d.cur == SS::s_joiner || d.cur == SS::s_disconnecting,
                     "state %s when waiting for state transfer", nm(d.cur));
            sst_client = w.new_client();
            const int f = vf::spawn("sst", [this, c]() { sst_thread(c); });
            vf::block_until([&]() { return d.p.sst_recvs.size() > 0; }, "state transfer");
            const bool ok = d.p.sst_recvs[0].err == 0 && sst_kind != 6;
            vf::join(f);
            if (!ok || d.leaving) return !ok ? false : true;
            if (sst_kind == 2 && !d.view(d.prim(c - 1, 1))) return false;
            if (d.leaving) return true;
            if (!d.view(d.prim(c, 2))) return false;
        }
        if (d.leaving) return true;
        d.s.on_sync();
        VF_CHECK(d.cur == SS::s_synced || d.cur == SS::s_disconnecting, "state %s after sync",
                 nm(d.cur));
        return true;
    }
    void steady()
    {
        World& w = d.w;
        long pos = d.conn;
        long vs = 3;
        bool primary = true, synced = true;
        int donor = -1;
        bool sent = false;
        for (int i = 0; i < steps; ++i)
        {
            vf::point("event");
            if (d.leaving && vf::pick(2, "events are still queued") == 0) break;
            enum { e_nonprim, e_prim, e_sync, e_donor, e_stop };
            std::vector<int> ev;
            ev.push_back(e_stop);
            if (primary)
            {
                ev.push_back(e_nonprim);
                ev.push_back(e_prim);
                if (synced && donor < 0) { ev.push_back(e_donor); ev.push_back(e_sync); }
                if (!synced && (donor < 0 || sent)) ev.push_back(e_sync);
            }
            else ev.push_back(e_prim);
            switch (ev[vf::pick((int)ev.size(), "event")])
            {
            case e_stop: i = steps; break;
            case e_nonprim:
                d.view(w.make_view(pos, wsrep::view::non_primary, {'1'}, 0, ++vs));
                primary = synced = false;
                break;
            case e_prim:
                ++pos;
                if (!d.view(d.prim(pos, ++vs))) return;
                primary = true;
                break;
            case e_sync:
                d.s.on_sync();
                if (!d.leaving)
                    VF_CHECK(d.cur == SS::s_synced || d.cur == SS::s_disconnecting
                                 || d.cur == SS::s_disconnected,
                             "state %s after sync", nm(d.cur));
                synced = true;
                break;
            case e_donor:
            {
                const bool fail = vf::pick(2, "donor script fails");
                const int serr = fail || !rich ? 0 : vf::pick(2, "transfer fails");
                const int rerr = fail || !rich ? 0 : vf::pick(2, "report fails");
                w.service.start_sst_fn = [&]() {
                    VF_CHECK(d.cur == SS::s_donor || d.cur == SS::s_disconnecting,
                             "transfer started in state %s", nm(d.cur));
                    vf::point("start_sst");
                    d.in_donor_end = fail;
                    return fail;
                };
                d.donor_fiber = vf::self();
                const int r = d.s.start_sst("req", make_gtid(pos), false);
                d.in_donor_end = false;
                VF_CHECK((r != 0) == fail, "start_sst returned %d", r);
                if (fail)
                {
                    VF_CHECK(d.cur != SS::s_donor, "still donor after transfer failed to start");
                    VF_CHECK(d.p.sst_sents.empty(), "transfer that never started was reported");
                    synced = false;
                    break;
                }
                d.p.sst_sent_fn = [rerr]() { return rerr ? P::error_fatal : P::success; };
                synced = false;
                donor = vf::spawn("donor", [this, pos, serr, &sent]() {
                    vf::point("transferring");
                    d.donor_fiber = vf::self();
                    d.in_donor_end = true;
                    const size_t n = d.p.sst_sents.size();
                    d.s.sst_sent(make_gtid(pos), serr);
                    d.in_donor_end = false;
                    VF_CHECK(d.p.sst_sents.size() == n + 1, "transfer reported %zu times",
                             d.p.sst_sents.size() - n);
                    VF_CHECK(d.p.sst_sents[n].err == serr && d.p.sst_sents[n].gtid
                                 == make_gtid(pos),
                             "transfer result reported wrongly");
                    VF_CHECK(d.cur != SS::s_donor, "still donor after the transfer");
                    sent = true;
                });
                break;
            }
            }
        }
        if (donor >= 0) vf::join(donor);
    }
    void run(long c)
    {
        d.h = d.w.new_hps("gcs");
        d.connect(c);
        if (!d.leaving && join(c) && !d.leaving) steady();
        d.idle = true;
        vf::block_until([&]() { return d.leaving; }, "leave");
        d.final_view();
        d.w.service.release_high_priority_service(d.h);
    }
};

void scenario(bool rich, int steps, int early, int waiters, bool spurious = false)
{
    Cfg cfg;
    cfg.spurious = spurious;
    cfg.sst_before_init = vf::pick(2, "sst first");
    std::vector<int> waits;
    if (spurious)
    {
        const int t[] = {SS::s_initializing, SS::s_joined, SS::s_synced};
        waits.push_back(t[vf::pick(3, "wait for")]);
    }
    else
        for (int i = 0, lo = 0; i < waiters; ++i)
        {
            const int few[] = {SS::s_connected, SS::s_joined, SS::s_synced, SS::s_disconnected};
            lo += vf::pick((waiters > 1 ? 4 : N) - lo, "wait for");
            waits.push_back(waiters > 1 ? few[lo] : lo);
        }
    // a disconnect at any moment, at best effort after so many state changes
    const int after = early ? vf::pick(early, "disconnect after") : 0;
    std::unique_ptr<Drv> d;
    std::unique_ptr<Gcs> g;
    with_world(cfg, [&](World& w) {
        d.reset(new Drv(w));
        g.reset(new Gcs{*d, cfg.sst_before_init, steps});
        g->rich = d->rich = rich;
        g->plain = waiters > 1;
        std::vector<int> f;
        for (int t : waits) vf::spawn("waiter", [&, t]() { d->waiter(t); }, true);
        if (!cfg.sst_before_init) d->initialize(false);
        else vf::spawn("dbms", [&]() { d->initialize(true); }, true);
        f.push_back(vf::spawn("gcs", [&]() { g->run(5); }));
        if (early)
            f.push_back(vf::spawn("admin", [&]() {
                vf::block_until([&]() {
                    return d->idle
                        || (d->cur != SS::s_disconnected && d->cur != SS::s_initialized
                            && (int)w.service.changes.size() > after);
                }, "admin");
                d->disconnect();
            }));
        vf::block_until([&]() { return d->idle; }, "idle");
        d->finish(f);
    });
}

// Bootstrap, seed nodes, and a second connection after the first is over at any state.
void reconnect(int early, bool rich, int steps)
{
    Cfg cfg;
    cfg.sst_before_init = vf::pick(2, "sst first");
    const bool interrupted = early && vf::pick(2, "first connection interrupted");
    const int after = interrupted ? vf::pick(early, "disconnect after") : 0;
    std::unique_ptr<Drv> d;
    std::unique_ptr<Gcs> g, g2;
    with_world(cfg, [&](World& w) {
        d.reset(new Drv(w));
        d->rich = false;
        d->boots_too = true;
        g.reset(new Gcs{*d, cfg.sst_before_init, 0});
        g->rich = false;
        g->plain = true;
        g->seed = cfg.sst_before_init;
        int init = -1;
        if (!cfg.sst_before_init) d->initialize(false);
        else init = vf::spawn("dbms", [&]() { d->initialize(true); }, true);
        const int f = vf::spawn("gcs", [&]() { g->run(5); });
        if (interrupted)
            vf::block_until([&]() {
                return d->idle || (d->cur != SS::s_disconnected && d->cur != SS::s_initialized
                                   && (int)w.service.changes.size() > after);
            }, "first connection");
        else
            vf::block_until([&]() { return d->idle; }, "first connection");
        d->disconnect();
        vf::join(f);
        VF_CHECK(d->p.disconnects == 1, "provider disconnected %d times", d->p.disconnects);
        VF_CHECK(d->s.state() == SS::s_disconnected, "state %s between the connections",
                 nm(d->s.state()));
        // the database system starts once; if the first attempt was cut short it does so now
        if (init >= 0)
            vf::block_until([&]() { return vf::finished(init) || vf::in_cond(init); }, "dbms");
        if (init >= 0 && !vf::finished(init)) vf::outcome("w");
        else if (!d->storage_ready)
        {
            vf::spawn("dbms", [&]() { d->initialize(true); }, true);
            vf::outcome("i");
        }
        d->again();
        d->rich = rich;
        g2.reset(new Gcs{*d, cfg.sst_before_init, steps});
        g2->rich = rich;
        const int f2 = vf::spawn("gcs2", [&]() { g2->run(9); });
        vf::block_until([&]() { return d->idle; }, "idle");
        d->finish({f2}, 2);
    });
}
typedef std::vector<std::string> SV;
vf::Reg r9("server.reconnect", SV({"C09", "C22"}), {{1, 0}}, {{2, 0}},
           []() { reconnect(6, false, 1); });
vf::Reg r10("server.reconnect_deep", SV({"C09", "C22"}), {}, {{1, 0}},
           []() { reconnect(6, true, 2); });
vf::Reg r1("server.life", SV({"C09", "C22"}), {{1, 0}}, {{2, 0}},
           []() { scenario(true, 3, 0, 0); });
vf::Reg r2("server.leave", SV({"C09", "C10", "C22"}), {{1, 0}}, {{2, 0}},
           []() { scenario(true, 0, 7, 0); });
vf::Reg r3("server.leave_events", SV({"C09", "C10", "C22"}), {{0, 0}}, {{1, 0}},
           []() { scenario(false, 2, 7, 0); });
vf::Reg r4("server.wait", SV({"C10"}), {{1, 0}}, {{1, 0}},
           []() { scenario(false, 0, 0, 1); });
vf::Reg r5("server.wait_events", SV({"C10"}), {{0, 0}}, {{1, 0}},
           []() { scenario(false, 2, 0, 1); });
vf::Reg r6("server.wait_leave", SV({"C10"}), {{0, 0}}, {{1, 0}},
           []() { scenario(false, 0, 5, 1); });
vf::Reg r7("server.wait_two", SV({"C10"}), {{0, 0}}, {{1, 0}},
           []() { scenario(false, 0, 0, 2); });
vf::Reg r8("server.spurious", SV({"C10"}), {{0, 1}}, {{1, 1}},
           []() { scenario(false, 0, 0, 1, true); });
}
