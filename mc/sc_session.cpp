// Whole sessions: all short sequences of commands of one session, with a conflicting write set
// arriving at any moment.
#include "sim.hpp"
using namespace sim;

namespace
{
typedef std::vector<std::string> SV;
typedef wsrep::client_state CS;
const SV SESS = {"C15", "C16", "C01", "C04"};

enum Cmd { x_auto, x_begin, x_read, x_sync, x_toi, x_keep, x_trx_n,
           x_write = x_trx_n, x_commit, x_rollback, x_n };

struct Session
{
    World& w;
    Client& c;
    bool sr, acquire;
    int faults;
    bool reopen = false;
    Session(World& w_, Client& c_, bool s, bool a, int f) : w(w_), c(c_), sr(s), acquire(a), faults(f) { }

    static void keys(wsrep::key_array& ks)
    {
        wsrep::key k(wsrep::key::exclusive);
        k.append_key_part("t", 1);
        ks.push_back(k);
    }
    // one consistency wait inside the running command
    int sync_wait()
    {
        const wsrep::gtid before = c.cs.sync_wait_gtid();
        const long lw = c.expect_last_written;
        static const Status st[] = {P::success, P::error_unknown, P::error_not_implemented,
                                    P::error_connection_failed, P::error_not_allowed};
        static int serial;
        serial = 100 + (int)w.order.size();
        const int k = faults > 1 ? vf::pick(5, "consistency wait")
            : faults ? vf::pick(3, "consistency wait") : 0;
        int calls = 0, timeout = 0;
        w.provider->causal_fn = [&](int t) {
            ++calls;
            timeout = t;
            vf::point("waiting");
            return std::make_pair(st[k] == P::success ? make_gtid(serial) : make_gtid(7), st[k]);
        };
        const int ret = c.cs.sync_wait(5);
        w.provider->causal_fn = nullptr;
        VF_CHECK(calls == 1 && timeout == 5, "provider asked %d times, timeout %d", calls, timeout);
        VF_CHECK((ret == 0) == (k == 0), "consistency wait returned %d, provider %d", ret, (int)st[k]);
        if (k == 0)
            VF_CHECK(c.cs.sync_wait_gtid() == make_gtid(serial),
                     "consistency wait position is not the provider's");
        else
        {
            VF_CHECK(c.cs.sync_wait_gtid() == before, "failed consistency wait exposes a position");
            c.cmd_err = st[k] == P::error_not_implemented ? wsrep::e_not_supported_error
                                                           : wsrep::e_timeout_error;
            VF_CHECK(c.cs.current_error() == c.cmd_err, "failed consistency wait reports %s",
                     wsrep::to_c_string(c.cs.current_error()));
        }
        const wsrep::gtid g = c.cs.last_written_gtid();
        VF_CHECK((g.is_undefined() ? 0 : g.seqno().get()) == lw,
                 "consistency wait changed the last written position");
        return ret;
    }
    int toi()
    {
        wsrep::key_array ks;
        keys(ks);
        if (c.cs.enter_toi_local(ks, wsrep::const_buffer("ddl", 3)))
        {
            vf::fail("isolation failed");
            return 1;
        }
        const long s = c.cs.toi_meta().seqno().get();
        vf::point("ddl");
        VF_CHECK(c.cs.leave_toi_local(wsrep::mutable_buffer()) == 0, "leaving isolation failed");
        c.expect_last_written = s;
        return 0;
    }
    int begin()
    {
        if (sr) c.cs.enable_streaming(wsrep::streaming_context::row, 1);
        return c.begin();
    }
    void run(int n, bool full)
    {
        c.open();
        for (int i = 0; i < n; ++i)
        {
            if (reopen && i && vf::pick(2, "open again"))
            {
                // the same client object serves another session
                c.close();
                vf::point("between sessions");
                c.open();
                VF_CHECK(c.cs.current_error() == wsrep::e_success,
                         "new session starts with error %s of an earlier one",
                         wsrep::to_c_string(c.cs.current_error()));
            }
            const bool in = c.trx != nullptr;
            static const int out_cmds[] = {x_auto, x_begin, x_toi, x_sync, x_keep, x_read};
            static const int in_cmds[] = {x_write, x_commit, x_rollback, x_read, x_sync, x_keep};
            const int k = (in ? in_cmds : out_cmds)[vf::pick(i || full ? 6 : 3, "command")];
            VF_CHECK(c.cs.sync_wait_gtid().is_undefined(),
                     "consistency wait position left over from an earlier command");
            if (!in) // an open transaction may be reported aborted
                VF_CHECK(c.cs.current_error() == wsrep::e_success,
                         "error left over from an earlier command");
            if (acquire)
            {
                vf::point("acquire");
                c.cs.wait_rollback_complete_and_acquire_ownership();
                c.store_globals();
            }
            switch (k)
            {
            case x_auto:
                c.command([&]() {
                    begin();
                    return c.write('a', "a") || c.commit();
                });
                break;
            case x_begin: c.command([&]() { begin(); return c.write('a', "b"); }); break;
            case x_read: c.command([&]() { vf::point("read"); return 0; }); break;
            case x_sync: c.command([&]() { return sync_wait(); }); break;
            case x_toi: c.command([&]() { return toi(); }); break;
            case x_keep: c.command(nullptr, true); break;
            case x_write: c.command([&]() { return c.write('c', "c"); }); break;
            case x_commit: c.command([&]() { return c.commit(); }); break;
            case x_rollback: c.command([&]() { return c.rollback(); }); break;
            }
            const wsrep::gtid g = c.cs.last_written_gtid();
            VF_CHECK((g.is_undefined() ? 0 : g.seqno().get()) == c.expect_last_written,
                     "last written position is %lld after the command, expected %ld",
                     g.is_undefined() ? 0LL : (long long)g.seqno().get(), c.expect_last_written);
        }
        c.close();
    }
};

void sess(int n, bool sr, int faults, bool full, bool reopen = false)
{
    Cfg cfg;
    // session takes control before its command, or not; background rollbacker or not
    const int variant = vf::pick(full ? 8 : 3, "variant");
    cfg.rm = variant == 2 || variant > 4 ? wsrep::server_state::rm_async
                                         : wsrep::server_state::rm_sync;
    const bool acquire = variant == 1 || variant == 4 || variant > 5;
    cfg.mariadb_stmt = variant == 1 || variant == 3 || variant == 5 || variant == 7;
    cfg.lazy_rollback = cfg.mariadb_stmt;
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        w.start_rollbacker();
        vf::spawn("net", [&]() { vf::point("net"); w.remote('2', 1001, F::start | F::commit, "a"); });
        Client* c = w.new_client();
        vf::spawn("session", [&, c]() {
            Session s(w, *c, sr, acquire, faults);
            s.reopen = reopen;
            s.run(n, full);
        });
    });
}
vf::Reg r1("session.commands", SESS, {{1, 0}}, {{1, 0}}, []() { sess(3, false, 1, false); });
vf::Reg r2("session.commands_deep", {"C15", "C16"}, {}, {{1, 0}}, []() { sess(3, false, 2, true); });
vf::Reg r3("session.long", {"C15", "C16"}, {}, {{0, 0}, {1, 0}}, []() { sess(4, false, 1, true); });
vf::Reg r5("session.reopen", SESS, {{1, 0}}, {{2, 0}}, []() { sess(2, false, 1, false, true); });
vf::Reg r6("session.reopen_streaming", {"C15", "C16", "C05"}, {{1, 0}}, {{1, 0}}, []() { sess(2, true, 0, false, true); });
vf::Reg r7("session.reopen_deep", {"C15", "C16"}, {}, {{1, 0}}, []() { sess(3, false, 1, false, true); });
vf::Reg r4("session.streaming", {"C15", "C16", "C05"}, {{1, 0}}, {{1, 0}}, []() { sess(2, true, 1, false); });
}
