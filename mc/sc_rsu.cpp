// Sessions pausing, desyncing and running rolling schema upgrades at the same time.
#include "sim.hpp"
#include "wsrep/exception.hpp"
using namespace sim;

namespace
{
typedef wsrep::server_state SS;

struct Acct // what the provider did on behalf of one thread
{
    int desync = 0, resync = 0, pause = 0, resume = 0;
    int resync_failed = 0, resume_failed = 0;
};

struct Mon
{
    World& w;
    std::map<int, Acct> a;
    int paused_by = -1;
    bool broken = false; // the provider failed to resume: it stays paused
    bool faults[5] = {false, false, false, false, false};
    explicit Mon(World& w_) : w(w_)
    {
        Provider* p = w.provider;
        p->desync_fn = [this]() {
            if (vf::env_if(faults[0], 2, "desync fails")) return 1;
            ++a[vf::self()].desync;
            return 0;
        };
        p->pause_fn = [this]() {
            VF_CHECK(paused_by == -1, "provider paused while already paused");
            if (vf::env_if(faults[1], 2, "pause fails")) return 1;
            ++a[vf::self()].pause;
            paused_by = vf::self();
            return 0;
        };
        p->resync_fn = [this]() {
            Acct& x = a[vf::self()];
            ++x.resync;
            VF_CHECK(x.resync <= x.desync, "%s resyncs the provider without having desynced it",
                     vf::self_name());
            if (vf::env_if(faults[2], 2, "resync fails")) { ++x.resync_failed; return 1; }
            return 0;
        };
        p->resume_fn = [this]() {
            Acct& x = a[vf::self()];
            VF_CHECK(paused_by == vf::self(), "%s resumes the provider paused by another thread",
                     vf::self_name());
            if (vf::env_if(faults[3], 2, "resume fails"))
            {
                ++x.resume_failed;
                broken = true;
                return 1;
            }
            ++x.resume;
            paused_by = -1;
            return 0;
        };
        w.service.wait_committing_fn = [this]() {
            vf::point("wait_committing");
            return vf::env_if(faults[4], 2, "transactions do not finish");
        };
    }
    void balanced(const char* what)
    {
        Acct& x = a[vf::self()];
        VF_CHECK(x.pause == x.resume, "%s left %d pause behind", what, x.pause - x.resume);
        VF_CHECK(x.desync == x.resync, "%s left %d desync behind", what, x.desync - x.resync);
    }
    void held(const char* what, bool pause, bool desync)
    {
        Acct& x = a[vf::self()];
        VF_CHECK((x.pause - x.resume == 1) == pause && (paused_by == vf::self()) == pause,
                 "%s succeeded but the provider is %spaused", what, pause ? "not " : "");
        if (desync)
            VF_CHECK(x.desync - x.resync == 1, "%s succeeded without desync", what);
    }
};

enum { o_rsu, o_dp, o_pause, o_desync, n_ops };

bool run_op(World& w, Mon& m, Client* c, int op)
{
    SS& s = *w.server;
    m.a[vf::self()] = Acct();
    auto dead = [&]() { // the provider stays paused for good, everybody else may block
        return m.broken;
    };
    switch (op)
    {
    case o_rsu:
    {
        c->open();
        c->cs.before_command();
        c->cs.before_statement();
        int ret;
        try { ret = c->cs.begin_rsu(1); }
        catch (const wsrep::runtime_error&)
        {
            VF_CHECK(m.a[vf::self()].resync_failed, "begin_rsu threw without cause");
            ret = 2;
        }
        if (ret)
        {
            VF_CHECK(c->cs.mode() == wsrep::client_state::m_local,
                     "failed begin_rsu left the session in mode %d", (int)c->cs.mode());
            m.balanced("failed begin_rsu");
        }
        else
        {
            VF_CHECK(c->cs.mode() == wsrep::client_state::m_rsu, "session is not in RSU mode");
            m.held("begin_rsu", true, true);
            VF_CHECK(s.pause_seqno().get() == 7, "pause position is not exposed");
            vf::point("upgrading");
            m.held("begin_rsu", true, true);
            const int e = c->cs.end_rsu();
            Acct& x = m.a[vf::self()];
            VF_CHECK((e != 0) == (x.resume_failed || x.resync_failed),
                     "end_rsu returned %d, provider failures %d", e,
                     x.resume_failed + x.resync_failed);
            VF_CHECK(c->cs.mode() == wsrep::client_state::m_local,
                     "mode not restored after RSU: %d", (int)c->cs.mode());
            if (!x.resume_failed) m.balanced("end_rsu");
        }
        if (dead()) return false;
        c->cs.after_statement();
        c->cs.after_command_before_result();
        c->cs.after_command_after_result();
        c->close();
        break;
    }
    case o_dp:
    {
        wsrep::seqno r;
        try { r = s.desync_and_pause(); }
        catch (const wsrep::runtime_error&)
        {
            VF_CHECK(m.a[vf::self()].resync_failed, "desync_and_pause threw without cause");
        }
        if (r.is_undefined()) { m.balanced("failed desync_and_pause"); break; }
        VF_CHECK(r.get() == 7, "desync_and_pause returned a wrong position");
        m.held("desync_and_pause", true, false);
        VF_CHECK(s.desynced_on_pause() == (m.a[vf::self()].desync > 0),
                 "desynced_on_pause does not tell what happened");
        vf::point("paused");
        m.held("desync_and_pause", true, false);
        s.resume_and_resync();
        if (!m.a[vf::self()].resume_failed) m.balanced("resume_and_resync");
        break;
    }
    case o_pause:
    {
        wsrep::seqno r = s.pause();
        if (r.is_undefined()) { m.balanced("failed pause"); break; }
        m.held("pause", true, false);
        VF_CHECK(s.pause_seqno() == r, "pause position is not exposed");
        vf::point("paused");
        m.held("pause", true, false);
        try { s.resume(); }
        catch (const wsrep::runtime_error&)
        {
            VF_CHECK(m.a[vf::self()].resume_failed, "resume threw without cause");
            break;
        }
        VF_CHECK(!m.a[vf::self()].resume_failed, "failure to resume was swallowed");
        m.balanced("resume");
        break;
    }
    case o_desync:
    {
        const int r = s.desync();
        VF_CHECK((r != 0) == (m.a[vf::self()].desync == 0), "desync result %d is wrong", r);
        if (r) { m.balanced("failed desync"); break; }
        m.held("desync", false, true);
        vf::point("desynced");
        m.held("desync", false, true);
        try { s.resync(); }
        catch (const wsrep::runtime_error&)
        {
            VF_CHECK(m.a[vf::self()].resync_failed, "resync threw without cause");
        }
        m.balanced("resync");
        break;
    }
    }
    return !dead();
}

void run(int threads, int rounds, bool resume_fail, bool spurious)
{
    Cfg cfg;
    cfg.spurious = spurious;
    // unordered choice of what the threads do
    std::vector<int> ops;
    for (int i = 0, lo = 0; i < threads; ++i)
    {
        lo += vf::pick(n_ops - lo, "operation");
        ops.push_back(lo);
    }
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        std::unique_ptr<Mon> m(new Mon(w));
        for (int i : {0, 1, 2, 4}) m->faults[i] = !resume_fail;
        m->faults[3] = resume_fail;
        std::vector<int> fibers;
        if (resume_fail)
        {
            // alone: a provider that can not resume blocks everything else legitimately
            w.node_failed = true;
            Client* c = w.new_client();
            run_op(w, *m, c, ops[0]);
            return;
        }
        for (int i = 0; i < threads; ++i)
        {
            Client* c = w.new_client();
            const int op = ops[i];
            fibers.push_back(vf::spawn(("s" + std::to_string(i)).c_str(), [&, c, op]() {
                for (int k = 0; k < rounds; ++k) run_op(w, *m, c, op);
            }));
        }
        for (int f : fibers) vf::join(f);
        int d = 0, r = 0, p = 0, u = 0;
        for (auto& kv : m->a)
        {
            d += kv.second.desync; r += kv.second.resync;
            p += kv.second.pause; u += kv.second.resume;
        }
        VF_CHECK(d == r && p == u, "desync %d resync %d pause %d resume %d at the end", d, r, p, u);
        VF_CHECK(w.server->pause_seqno().is_undefined(), "pause position left behind");
        VF_CHECK(!w.server->desynced_on_pause(), "desynced_on_pause left behind");
        for (auto& kv : m->a)
            vf::outcome("d" + std::to_string(kv.second.desync) + "p"
                        + std::to_string(kv.second.pause));
    });
}

vf::Reg r1("rsu.two", {"C11"}, {{2, 2}}, {{3, 2}, {2, 3}}, []() { run(2, 1, false, false); });
vf::Reg r2("rsu.three", {"C11"}, {{1, 2}}, {{2, 2}, {1, 3}},
           []() { run(3, 1, false, false); });
vf::Reg r3("rsu.repeat", {"C11"}, {{2, 1}}, {{2, 2}}, []() { run(2, 2, false, false); });
vf::Reg r4("rsu.spurious", {"C11"}, {{1, 1}}, {{2, 2}}, []() { run(3, 1, false, true); });
vf::Reg r5("rsu.broken", {"C11"}, {{0, 1}}, {{0, 1}}, []() { run(1, 1, true, false); });
}
