// Total order isolation and non-blocking operations.
#include "sim.hpp"
using namespace sim;

namespace
{
typedef wsrep::client_state CS;
typedef std::chrono::time_point<wsrep::clock> TP;
typedef std::vector<std::string> SV;

const CertFault FAULTS[] = {
    {P::success, false},
    {P::error_certification_failed, false},
    {P::error_certification_failed, true},
    {P::error_connection_failed, false},
    {P::error_provider_failed, false},
    {P::error_connection_failed, true},
    {P::error_not_allowed, false},
    {P::error_bf_abort, true},
};
bool retriable(Status s)
{
    return s == P::error_certification_failed || s == P::error_connection_failed;
}

struct Iso // isolation attempts of one session
{
    World& w;
    Client* c;
    int nfaults;
    // current call
    bool active = false;
    std::vector<CertFault> att;
    TP deadline;
    bool has_deadline = false;
    int flags = 0;
    long ref = 0;
    std::string data;
    long seq = 0;
    int fiber = -1;
    std::function<Status()> on_leave;

    CertFault attempt()
    {
        VF_CHECK(active, "isolation requested out of the blue");
        if (!att.empty())
        {
            VF_CHECK(retriable(att.back().st), "retried after status %d", (int)att.back().st);
            VF_CHECK(has_deadline && wsrep::clock::now() < deadline, "retried after the deadline");
            VF_CHECK(!c->interrupt_now, "retried after an interrupt");
            for (auto& t : w.provider->tois)
                VF_CHECK(!(t.client == c->id && t.in),
                         "previous attempt at seqno %ld was not left before retrying", t.seqno);
        }
        CertFault f = FAULTS[nfaults > 1 ? vf::env(nfaults, "enter_toi") : 0];
        att.push_back(f);
        if (f.st != P::success && has_deadline && vf::env_if(nfaults > 1, 2, "interrupt"))
            c->interrupt_now = true;
        return f;
    }
    // Runs one entry call and judges it.
    int enter(std::function<int(TP)> fn, int fl, long rf, const std::string& dt, int dl,
              bool phase_two)
    {
        att.clear();
        active = true;
        fiber = vf::self();
        c->interrupt_now = false;
        has_deadline = dl != 0;
        deadline = dl ? wsrep::clock::now() + std::chrono::milliseconds(dl == 1 ? 500 : -500)
                      : TP();
        flags = fl; ref = rf; data = dt;
        const size_t n0 = w.provider->tois.size();
        const wsrep::gtid lw = c->cs.last_written_gtid();
        const enum wsrep::client_error e0 = c->cs.current_error();
        const enum CS::mode m0 = c->cs.mode();
        const int ret = fn(deadline);
        active = false;
        VF_CHECK(!att.empty(), "provider was not asked for isolation");
        const CertFault last = att.back();
        VF_CHECK((ret == 0) == (last.st == P::success), "enter returned %d, provider status %d",
                 ret, (int)last.st);
        const bool late = has_deadline && !(wsrep::clock::now() < deadline);
        int in = 0;
        for (size_t i = n0; i < w.provider->tois.size(); ++i)
        {
            Provider::Toi& t = w.provider->tois[i];
            if (t.client != c->id) continue;
            VF_CHECK(t.flags == fl, "isolation entered with flags 0x%x instead of 0x%x", t.flags,
                     fl);
            VF_CHECK(t.data == dt, "isolation entered with wrong data");
            if (phase_two)
                VF_CHECK(t.begin_ref == rf, "end phase refers to position %ld instead of %ld",
                         t.begin_ref, rf);
            if (t.in) { ++in; seq = t.seqno; }
        }
        vf::outcome(ret ? "-" : "+");
        if (ret == 0)
        {
            VF_CHECK(in == 1, "%d isolated operations in progress", in);
            VF_CHECK(c->cs.in_toi() && c->cs.toi_meta().seqno().get() == seq,
                     "session does not know its isolation position");
            VF_CHECK(c->cs.current_error() == e0,
                     "error %d after isolation was entered", (int)c->cs.current_error());
            return 0;
        }
        VF_CHECK(in == 0, "failed attempt was not left");
        VF_CHECK(!c->cs.in_toi(), "session is in isolation after a failure");
        VF_CHECK(c->cs.mode() == (phase_two ? CS::m_local : m0), "mode %d after failed enter",
                 (int)c->cs.mode());
        VF_CHECK(c->cs.last_written_gtid() == lw, "last written position changed by a failure");
        if (retriable(last.st) && !c->interrupt_now)
            VF_CHECK(!has_deadline || late, "gave up before the deadline");
        const enum wsrep::client_error e = c->cs.current_error();
        if (phase_two && last.st == P::error_provider_failed)
            VF_CHECK(e == wsrep::e_interrupted_error, "error %d for a failed provider", (int)e);
        else if (last.st == P::error_certification_failed && !phase_two)
            VF_CHECK(e == wsrep::e_deadlock_error, "error %d after certification failure", (int)e);
        else if (has_deadline && !late)
            VF_CHECK(e == wsrep::e_error_during_commit, "error %d before the deadline", (int)e);
        else if (has_deadline)
            VF_CHECK(e == wsrep::e_timeout_error, "error %d after the deadline", (int)e);
        else
            VF_CHECK(e == wsrep::e_timeout_error || e == wsrep::e_error_during_commit,
                     "error %d", (int)e);
        c->cmd_err = e;
        c->interrupt_now = false;
        return ret;
    }
    int leave(std::function<int(const wsrep::mutable_buffer&)> fn, bool can_fail)
    {
        int failed = 0;
        size_t left = 0;
        const long s = seq;
        on_leave = [&]() {
            ++left;
            failed = vf::env_if(can_fail && nfaults > 1, 2, "leave_toi fails");
            return failed ? P::error_fatal : P::success;
        };
        const bool err = vf::env_if(nfaults > 1, 2, "operation fails");
        wsrep::mutable_buffer b;
        if (err) b.push_back(std::string("ddl error"));
        const int ret = fn(b);
        on_leave = nullptr;
        VF_CHECK(left == 1 && w.piece(s).left, "isolation at %ld was not left", s);
        VF_CHECK(w.piece(s).err == (err ? "ddl error" : ""), "error detail lost on leaving");
        VF_CHECK((ret != 0) == (failed != 0), "leave returned %d, provider %d", ret, failed);
        VF_CHECK(!c->cs.in_toi(), "session still in isolation after leaving");
        return ret;
    }
};

void one_toi(World& w, Client* c, Iso& i, int deadline)
{
    wsrep::key_array keys;
    wsrep::key k(wsrep::key::exclusive);
    k.append_key_part("t", 1);
    keys.push_back(k);
    const std::string d = "ddl";
    c->command([&]() {
        if (i.enter([&](TP t) {
                return c->cs.enter_toi_local(keys, wsrep::const_buffer(d.data(), d.size()), t);
            }, F::start | F::commit, 0, d, deadline, false)) return 1;
        const long s = i.seq;
        VF_CHECK(c->cs.mode() == CS::m_toi, "mode %d in isolation", (int)c->cs.mode());
        vf::point("ddl");
        VF_CHECK(w.provider->in_toi_now == 1, "isolation lost");
        i.leave([&](const wsrep::mutable_buffer& b) { return c->cs.leave_toi_local(b); }, true);
        VF_CHECK(c->cs.mode() == CS::m_local, "mode %d after isolation", (int)c->cs.mode());
        VF_CHECK(c->cs.last_written_gtid() == make_gtid(s),
                 "last written position is not that of the isolated operation");
        c->expect_last_written = s;
        return 0;
    });
}

// Both phases; starts in the middle if meta is given (applied on behalf of another server).
void phase_two(World& w, Client* c, Iso& i, int deadline, long begin)
{
    wsrep::key_array keys;
    VF_CHECK(c->cs.mode() == CS::m_nbo && !c->cs.in_toi(), "mode %d between the phases",
             (int)c->cs.mode());
    vf::point("nbo");
    if (i.enter([&](TP t) { return c->cs.begin_nbo_phase_two(keys, t); }, F::commit, begin, "",
                deadline, true)) return;
    VF_CHECK(c->cs.mode() == CS::m_nbo, "mode %d in the end phase", (int)c->cs.mode());
    VF_CHECK(i.seq != begin, "end phase reuses the position of the begin phase");
    const int r = i.leave([&](const wsrep::mutable_buffer& b) {
        return c->cs.end_nbo_phase_two(b);
    }, true);
    VF_CHECK(c->cs.mode() == CS::m_local, "mode %d after the operation", (int)c->cs.mode());
    if (r)
    {
        VF_CHECK(c->cs.current_error() == wsrep::e_error_during_commit,
                 "failure to leave the end phase not reported");
        c->cmd_err = wsrep::e_error_during_commit;
    }
    (void)w;
}
void one_nbo(World& w, Client* c, Iso& i, int deadline)
{
    wsrep::key_array keys;
    const std::string d = "nbo";
    c->command([&]() {
        if (i.enter([&](TP t) {
                return c->cs.begin_nbo_phase_one(keys, wsrep::const_buffer(d.data(), d.size()),
                                                 t);
            }, F::start, 0, d, deadline, false)) return 1;
        const long begin = i.seq;
        VF_CHECK(c->cs.mode() == CS::m_nbo, "mode %d in the begin phase", (int)c->cs.mode());
        const int r = i.leave([&](const wsrep::mutable_buffer& b) {
            return c->cs.end_nbo_phase_one(b);
        }, true);
        if (r)
        {
            VF_CHECK(c->cs.current_error() == wsrep::e_error_during_commit,
                     "failure to leave the begin phase not reported");
            c->cmd_err = wsrep::e_error_during_commit;
        }
        phase_two(w, c, i, deadline, begin);
        return 0;
    });
}

struct Ops { int kind; int deadline; };

void run(int sessions, int ops, int nfaults, bool nbo, bool remote, bool deadlines)
{
    Cfg cfg;
    std::vector<std::vector<Ops>> prog(sessions);
    for (auto& p : prog)
        for (int i = 0; i < ops; ++i)
            p.push_back({nbo ? vf::pick(2, "operation") : 0,
                         deadlines ? vf::pick(3, "deadline") : 0});
    std::vector<std::unique_ptr<Iso>> iso;
    std::vector<std::unique_ptr<Iso>> riso;
    long nbo_end = 0;
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        for (int k = 0; k < sessions; ++k)
        {
            Client* c = w.new_client();
            iso.emplace_back(new Iso{w, c, nfaults});
        }
        auto find = [&]() -> Iso* {
            for (auto& i : iso) if (i->fiber == vf::self()) return i.get();
            for (auto& i : riso) if (i->fiber == vf::self()) return i.get();
            vf::fail("isolation requested by nobody");
        };
        w.provider->toi_fn = [&, find](int) { return find()->attempt(); };
        w.provider->leave_toi_fn = [&, find]() {
            Iso* i = find();
            return i->on_leave ? i->on_leave() : P::success;
        };
        if (remote)
        {
            // non-blocking operation of another server: a thread of its own executes it
            w.nbo_fn = [&](const wsrep::ws_meta& m, const std::string&) {
                Client* c = w.new_client();
                riso.emplace_back(new Iso{w, c, 1});
                Iso* i = riso.back().get();
                const long begin = m.seqno().get();
                bool* started = new bool(false);
                vf::spawn("nbo", [&w, c, i, m, begin, started]() {
                    c->open();
                    c->cs.before_command();
                    VF_CHECK(c->cs.enter_nbo_mode(m) == 0, "enter_nbo_mode failed");
                    *started = true;
                    phase_two(w, c, *i, 0, begin);
                    c->cs.after_command_before_result();
                    VF_CHECK(c->cs.current_error() == wsrep::e_success, "error %d",
                             (int)c->cs.current_error());
                    c->cs.after_command_after_result();
                    c->close();
                });
                vf::block_until([started]() { return *started; }, "nbo started");
                delete started;
                return 0;
            };
            vf::spawn("net", [&]() {
                vf::point("net");
                w.remote('2', 0, F::isolation | F::start, "x");
                vf::point("net2");
                // end of the same operation as seen by an applier: ordered, nothing to execute
                nbo_end = w.remote('2', 0, F::isolation | F::commit, "").seqno;
                vf::point("net3");
                w.remote('2', 0, F::isolation | F::start | F::commit, "y");
            });
        }
        for (int k = 0; k < sessions; ++k)
        {
            Iso* i = iso[k].get();
            std::vector<Ops> p = prog[k];
            vf::spawn("session", [&w, i, p]() {
                Client* c = i->c;
                c->open();
                for (auto& o : p)
                {
                    if (o.kind == 0) one_toi(w, c, *i, o.deadline);
                    else one_nbo(w, c, *i, o.deadline);
                    VF_CHECK(c->cs.mode() == CS::m_local && !c->cs.in_toi(),
                             "session left in mode %d", (int)c->cs.mode());
                }
                // an ordinary transaction works afterwards
                c->command([&]() {
                    c->begin();
                    c->write('a', "a");
                    return c->commit();
                });
                c->close();
            });
        }
        vf::join_all();
        w.drain();
        vf::join_all();
        w.drain();
        VF_CHECK(w.provider->in_toi_now == 0, "isolation never left");
        if (remote)
        {
            VF_CHECK(w.piece(nbo_end).passed(), "end event at %ld did not pass", nbo_end);
            for (long a : w.toi_applied) VF_CHECK(a != nbo_end, "end event was executed");
            for (long a : w.nbo_applied) VF_CHECK(a != nbo_end, "end event was executed");
            VF_CHECK(w.nbo_applied.size() == 1 && w.toi_applied.size() == 1,
                     "%zu and %zu operations executed", w.nbo_applied.size(),
                     w.toi_applied.size());
        }
        for (auto& t : w.provider->tois)
            VF_CHECK(!t.in, "isolation at %ld never left", t.seqno);
    });
}

vf::Reg r1("toi.faults", SV({"C12", "C15", "C16"}), {{0, 5}}, {{0, 6}},
           []() { run(1, 2, 8, false, false, true); });
vf::Reg r2("toi.two", SV({"C02", "C12"}), {{1, 1}}, {{2, 0}, {1, 2}},
           []() { run(2, 1, 4, false, true, false); });
vf::Reg r3("nbo.faults", SV({"C13", "C15"}), {{0, 3}}, {{0, 4}},
           []() { run(1, 2, 8, true, false, true); });
vf::Reg r4("nbo.two", SV({"C02", "C13"}), {{1, 0}}, {{1, 1}},
           []() { run(2, 1, 4, true, true, false); });
}
