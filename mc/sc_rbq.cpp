// Rollback notifications which could not be sent.
#include "sim.hpp"
using namespace sim;

namespace
{
typedef wsrep::streaming_context SC;

void op(Client& c, int kind, char row)
{
    // 0: streaming, rolled back; 1: streaming, committed; 2: ordinary, committed
    c.command([&]() {
        if (kind < 2) c.cs.enable_streaming(SC::row, 1);
        else c.cs.disable_streaming();
        c.begin();
        if (c.write(row, std::string(1, row))) return 1;
        return kind == 0 ? c.rollback() : c.commit();
    });
}

vf::Reg r1("rbq.sequence", {"C01", "C05", "C06", "C15", "C21"}, {{0, 3}}, {{0, 5}, {1, 3}}, []() {
    Cfg cfg;
    cfg.rollback_fail = true;
    cfg.two_pc = vf::pick(2, "two phase");
    cfg.lazy_rollback = !cfg.two_pc;
    const int n = 4;
    int kinds[n];
    kinds[0] = 0;
    for (int i = 1; i < n; ++i) kinds[i] = vf::pick(4, "operation");
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        Client* c = w.new_client();
        vf::spawn("session", [&, c]() {
            c->open();
            for (int i = 0; i < n; ++i)
            {
                if (kinds[i] < 3) op(*c, kinds[i], 'a' + i);
                else
                {
                    // the node catches up again
                    w.synced();
                }
            }
            c->close();
        });
    });
});

vf::Reg r2("rbq.concurrent", {"C06", "C05"}, {{1, 1}}, {{2, 2}}, []() {
    Cfg cfg;
    cfg.rollback_fail = true;
    const int k = vf::pick(3, "second session");
    const int sync = vf::pick(2, "synced event");
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        Client* c = w.new_client();
        Client* d = w.new_client();
        vf::spawn("s1", [&, c]() { c->open(); op(*c, 0, 'a'); c->close(); });
        vf::spawn("s2", [&, d]() {
            d->open();
            op(*d, 0, 'b');
            if (k) op(*d, k, 'c');
            d->close();
        });
        if (sync) vf::spawn("sync", [&]() { vf::point("sync"); w.synced(); });
    });
});

// Several open streaming transactions, so that several notifications can be waiting.
vf::Reg r3("rbq.multi", {"C05", "C06", "C15"}, {{0, 4}}, {{0, 6}, {1, 4}}, []() {
    Cfg cfg;
    cfg.rollback_fail = true;
    cfg.lazy_rollback = vf::pick(2, "dbms variant");
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        vf::spawn("sessions", [&]() {
            Client* c[4];
            for (int i = 0; i < 4; ++i)
            {
                c[i] = w.new_client();
                c[i]->open();
                if (i == 3) break;
                c[i]->store_globals();
                c[i]->command([&]() {
                    c[i]->cs.enable_streaming(SC::row, 1);
                    c[i]->begin();
                    return c[i]->write('a' + i, std::string(1, 'a' + i));
                });
            }
            bool done[3] = {};
            int plain = 0;
            for (int n = 0; n < 5; ++n)
            {
                std::vector<int> ops;
                for (int i = 0; i < 3; ++i) if (!done[i] && (i == 0 || done[i - 1])) ops.push_back(i);
                ops.push_back(3);                        // ordinary transaction
                ops.push_back(4);                        // synced event
                if (!done[2]) ops.push_back(5);          // third transaction commits
                const int o = ops[vf::pick((int)ops.size(), "operation")];
                if (o < 3)
                {
                    done[o] = true;
                    if (c[o]->trx) c[o]->command([&]() { return c[o]->rollback(); });
                }
                else if (o == 3) { if (plain++ < 2) op(*c[3], 2, (char)('d' + plain)); }
                else if (o == 4) w.synced();
                else
                {
                    done[2] = true;
                    if (c[2]->trx) c[2]->command([&]() { return c[2]->commit(); });
                }
            }
            for (int i = 0; i < 4; ++i) c[i]->close();
        });
    });
});
}
