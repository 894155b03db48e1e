// Applying received write sets: every sequence of pieces of two streaming transactions.
#include "sim.hpp"
using namespace sim;

namespace
{
struct Model
{
    struct T { bool used = false, live = false, prepared = false, ended = false; std::string data;
               std::vector<Frag> frags; };
    std::map<TrxKey, T> t;
    std::map<TrxKey, std::string> db;
};

struct Op { TrxKey k; int flags; bool fail; bool silent; };

void check(World& w, Model& m)
{
    for (auto& kv : m.t)
    {
        const TrxKey& k = kv.first;
        Model::T& t = kv.second;
        wsrep::high_priority_service* sa =
            w.server->find_streaming_applier(k.first, wsrep::transaction_id(k.second));
        VF_CHECK(!!sa == t.live, "applier of %s %s", show(k).c_str(),
                 sa ? "exists although its transaction is over" : "is missing");
        if (sa)
        {
            Hps* h = static_cast<Hps*>(sa);
            VF_CHECK(h->c->se.data == t.data, "applier of %s holds '%s' instead of '%s'",
                     show(k).c_str(), h->c->se.data.c_str(), t.data.c_str());
            VF_CHECK((h->transaction().state() == wsrep::transaction::s_prepared) == t.prepared,
                     "applier of %s is in state %s", show(k).c_str(),
                     wsrep::to_c_string(h->transaction().state()));
        }
        auto it = w.frags.find(k);
        const size_t n = it == w.frags.end() ? 0 : it->second.size();
        VF_CHECK(n == t.frags.size(), "%zu fragments of %s stored, expected %zu", n,
                 show(k).c_str(), t.frags.size());
        for (size_t i = 0; i < n; ++i)
            VF_CHECK(it->second[i].seqno == t.frags[i].seqno
                         && it->second[i].data == t.frags[i].data
                         && it->second[i].flags == t.frags[i].flags,
                     "fragment %zu of %s stored wrongly", i, show(k).c_str());
    }
    VF_CHECK(w.db == m.db, "database contents differ from the received write sets");
}

void apply_seq(int depth, int nkeys, bool xa, bool storage = false)
{
    Cfg cfg;
    cfg.two_pc = vf::pick(2, "dbms variant");
    cfg.hps_fail = storage;
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        Model m;
        // same transaction id on two servers, another id on the first
        std::vector<TrxKey> keys = {TrxKey(make_id('2'), 1001), TrxKey(make_id('3'), 1001),
                                    TrxKey(make_id('2'), 1002)};
        keys.resize(nkeys);
        for (auto& k : keys)
        {
            m.t[k];
            w.xid_of[k] = wsrep::xid(1, 1, 1, show(k).c_str());
        }
        bool stopped = false;
        int last = 0;
        w.on_applied = [&](const WS&, int ret) { last = ret; };
        for (int i = 0; i < depth && !stopped; ++i)
        {
            const TrxKey k = keys[nkeys > 1 ? vf::pick(nkeys, "transaction") : 0];
            Model::T& t = m.t[k];
            enum { o_start, o_frag, o_frag_unsafe, o_commit, o_rollback, o_start_rb, o_plain,
                   o_prepare };
            std::vector<int> ops;
            if (!t.used) { ops.push_back(o_start); ops.push_back(o_plain); ops.push_back(o_start_rb); }
            if (!t.prepared) { ops.push_back(o_frag); ops.push_back(o_frag_unsafe); }
            ops.push_back(o_commit);
            ops.push_back(o_rollback);
            if (xa && t.live && !t.prepared) ops.push_back(o_prepare);
            const int op = ops[vf::pick((int)ops.size(), "piece")];
            const int flags[] = {F::start, 0, F::pa_unsafe, F::commit | F::pa_unsafe,
                                 F::rollback | F::pa_unsafe, F::start | F::rollback,
                                 F::start | F::commit, F::prepare | F::pa_unsafe};
            const bool carries = op != o_rollback && op != o_start_rb;
            const bool known = t.live || op == o_start || op == o_plain;
            int f = 0;
            // applying the commit of a prepared transaction does not fail
            if (carries && known && !(t.prepared && op == o_commit) && op != o_prepare)
                f = vf::env(3, "applying fails");
            // rows are distinct per transaction
            const std::string d = (op == o_prepare || !carries) ? ""
                : std::string(1, (char)('p' + i));
            WS x = w.remote(((const char*)k.first.data())[0], k.second, flags[op],
                            (xa && t.prepared && op == o_commit) ? "" : d);
            w.fail_seqno = f ? x.seqno : 0;
            w.fail_silent = f == 2;
            w.drain();
            Piece& p = w.piece(x.seqno);
            if (last)
            {
                VF_CHECK(w.hps_faulted || f == 2 || (f == 1 && w.provider->vote == 1),
                         "applying seqno %ld failed without cause", x.seqno);
                stopped = true;
                break;
            }
            VF_CHECK(!w.hps_faulted, "failure of the storage while applying seqno %ld was swallowed",
                     x.seqno);
            VF_CHECK(f != 2, "failure to apply seqno %ld was swallowed", x.seqno);
            VF_CHECK(f == 0 || w.provider->vote == 0, "the cluster's vote on seqno %ld was ignored",
                     x.seqno);
            VF_CHECK(p.passed(), "seqno %ld did not pass the commit order", x.seqno);
            VF_CHECK(p.err == (f ? "apply error" : ""), "error detail of seqno %ld is '%s'",
                     x.seqno, p.err.c_str());
            t.used = true;
            const std::string data = x.data;
            auto end = [&]() { t.live = t.prepared = false; t.ended = true; t.data.clear();
                               t.frags.clear(); };
            switch (op)
            {
            case o_start: case o_frag: case o_frag_unsafe: case o_prepare:
                if (op != o_start && !t.live) break;
                if (f) { end(); break; }
                t.live = true;
                t.data += data;
                t.frags.push_back(Frag{x.seqno, x.flags, data, ""});
                if (op == o_prepare) t.prepared = true;
                break;
            case o_commit:
                if (!t.live) break;
                if (!f) m.db[k] = t.data + data;
                end();
                break;
            case o_plain:
                if (!f) m.db[k] = data;
                t.ended = true;
                break;
            default:
                end();
                break;
            }
            check(w, m);
        }
        if (!stopped) check(w, m);
    });
}

vf::Reg r1("apply.one", {"C02", "C05", "C07", "C21"}, {{0, 2}}, {{0, 2}},
           []() { apply_seq(5, 1, true); });
vf::Reg r2("apply.two", {"C02", "C05", "C07", "C21"}, {{0, 1}}, {{0, 3}},
           []() { apply_seq(4, 2, true); });
vf::Reg r4("apply.storage_faults", {"C07"}, {{0, 2}}, {{0, 3}},
           []() { apply_seq(4, 1, false, true); });
vf::Reg r3("apply.three", {"C07"}, {}, {{0, 1}}, []() { apply_seq(5, 3, false); });
}
