// Streaming transactions of other servers aborted by conflicting write sets and operations in total
// order while their pieces keep coming.
#include "sim.hpp"
using namespace sim;

namespace
{
struct Tr
{
    enum { none, live, aborted, ended } st = none;
    std::string data;
    std::vector<long> frags;
    bool holds(char row) const { return st == live && data.find(row) != std::string::npos; }
};
struct Model
{
    std::map<TrxKey, Tr> t;
    std::map<TrxKey, std::string> db;
    bool gone = false; // server 2 has left
    // a write set or operation touches a row: whoever is in the way has to go
    void touch(const TrxKey* by, char row)
    {
        for (auto& kv : t)
            if (kv.second.holds(row) && (!by || kv.first != *by))
            {
                kv.second.st = Tr::aborted;
                kv.second.data.clear();
                kv.second.frags.clear();
            }
    }
};
void check(World& w, Model& m)
{
    for (auto& kv : m.t)
    {
        const TrxKey& k = kv.first;
        Tr& t = kv.second;
        wsrep::high_priority_service* sa =
            w.server->find_streaming_applier(k.first, wsrep::transaction_id(k.second));
        VF_CHECK(!!sa == (t.st == Tr::live), "applier of %s %s", show(k).c_str(),
                 sa ? "exists although its transaction is over" : "is missing");
        if (sa)
            VF_CHECK(static_cast<Hps*>(sa)->c->se.data == t.data, "applier of %s holds '%s' "
                     "instead of '%s'", show(k).c_str(),
                     static_cast<Hps*>(sa)->c->se.data.c_str(), t.data.c_str());
        auto it = w.frags.find(k);
        const size_t n = it == w.frags.end() ? 0 : it->second.size();
        VF_CHECK(n == t.frags.size(), "%zu fragments of %s stored, expected %zu", n,
                 show(k).c_str(), t.frags.size());
        for (size_t i = 0; i < n; ++i)
            VF_CHECK(it->second[i].seqno == t.frags[i], "fragment %zu of %s stored wrongly", i,
                     show(k).c_str());
    }
    VF_CHECK(w.db == m.db, "database contents differ from the received write sets");
}
void run(int depth)
{
    Cfg cfg;
    const bool step = vf::pick(2, "wait after each event");
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        w.start_rollbacker();
        Model m;
        const TrxKey keys[] = {TrxKey(make_id('2'), 1001), TrxKey(make_id('3'), 1001)};
        for (auto& k : keys) m.t[k];
        std::vector<long> positions;
        w.on_applied = [](const WS& x, int ret) {
            VF_CHECK(!ret, "applying seqno %ld failed without cause", x.seqno);
        };
        for (int i = 0; i < depth; ++i)
        {
            // (transaction, operation, row)
            struct Op { int k, op; char row; };
            enum { o_frag, o_commit, o_rollback, o_plain, o_toi, o_view };
            std::vector<Op> ops;
            for (int k = m.gone; k < 2; ++k)
            {
                Tr& t = m.t[keys[k]];
                if (t.st == Tr::none || t.st == Tr::live)
                    for (char r : {'a', 'b'}) ops.push_back({k, o_frag, r});
                if (t.st == Tr::live) ops.push_back({k, o_commit, 0});
                if (t.st == Tr::live || t.st == Tr::aborted) ops.push_back({k, o_rollback, 0});
            }
            ops.push_back({1, o_plain, 'a'});
            ops.push_back({1, o_toi, 'a'});
            if (!m.gone) ops.push_back({0, o_view, 0});
            const Op o = ops[vf::pick((int)ops.size(), "event")];
            const TrxKey k = keys[o.k];
            const unsigned char srv = o.k ? '3' : '2';
            Tr& t = m.t[k];
            switch (o.op)
            {
            case o_frag:
            {
                const std::string d(1, o.row);
                WS x = w.remote(srv, k.second, t.st == Tr::none ? F::start : 0, d);
                m.touch(&k, o.row);
                t.st = Tr::live;
                t.data += d;
                t.frags.push_back(x.seqno);
                positions.push_back(x.seqno);
                break;
            }
            case o_commit:
                positions.push_back(w.remote(srv, k.second, F::commit | F::pa_unsafe, "").seqno);
                m.db[k] = t.data;
                t = Tr();
                t.st = Tr::ended;
                break;
            case o_rollback:
                positions.push_back(w.remote(srv, k.second, F::rollback | F::pa_unsafe, "").seqno);
                t = Tr();
                t.st = Tr::ended;
                break;
            case o_plain:
                positions.push_back(w.remote('3', 2000 + i, F::start | F::commit, "a").seqno);
                m.touch(nullptr, 'a');
                m.db[TrxKey(make_id('3'), 2000 + i)] = "a";
                break;
            case o_toi:
                positions.push_back(
                    w.remote('3', 0, F::isolation | F::start | F::commit, "a").seqno);
                m.touch(nullptr, 'a');
                break;
            case o_view:
            {
                const long seqno = w.order.size() + 1;
                w.post_event(true, [&w, seqno](Hps* h) {
                    w.server->on_view(w.make_view(seqno, wsrep::view::primary, {'1', '3'}, 0,
                                                  seqno), h);
                });
                m.gone = true;
                Tr& g = m.t[keys[0]];
                if (g.st == Tr::live) { g = Tr(); g.st = Tr::ended; }
                break;
            }
            }
            if (step)
            {
                w.drain();
                check(w, m);
            }
        }
        w.drain();
        check(w, m);
        for (long s : positions)
            VF_CHECK(w.piece(s).passed(), "seqno %ld did not pass the commit order", s);
        std::string out;
        for (auto& kv : m.t) out += std::to_string((int)kv.second.st);
        vf::outcome(out + "d" + std::to_string(m.db.size()));
    });
}
const std::vector<std::string> CF = {"C02", "C05", "C07", "C08", "C21"};
vf::Reg r1("conflict.events", CF, {{0, 0}}, {{0, 0}}, []() { run(4); });
vf::Reg r2("conflict.threads", CF, {{1, 0}}, {{2, 0}}, []() { run(3); });
vf::Reg r3("conflict.events_deep", {"C07", "C08"}, {}, {{0, 0}}, []() { run(5); });
}
