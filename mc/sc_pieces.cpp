// What the pieces of a transaction carry and where they are cut: every short program of one
// session against a reference model of the configured unit and size.
#include "sim.hpp"
#include <algorithm>
using namespace sim;

namespace
{
typedef wsrep::streaming_context SC;

enum Op { o_w0, o_w1, o_w2, o_cmd, o_size, o_unit, o_params, o_disable, o_unsafe, o_implicit, o_n };
enum End { e_commit, e_rollback, e_xa };

struct Model
{
    int unit;
    size_t size;       // 0: off
    size_t cnt = 0;
    std::string pending;
    size_t cuts = 0;
    bool xa = false;
    std::vector<std::string> pieces;
    bool partial = false;
    void cut()
    {
        ++cuts;
        const size_t n = partial && pending.size() > 1 ? 1 : pending.size();
        pieces.push_back(pending.substr(0, n));
        pending.erase(0, n);
        cnt = 0;
    }
    void step()
    {
        if (unit == SC::bytes) cnt = pending.size(); else ++cnt;
        if (!pending.empty() && cnt >= size) cut();
    }
};

void pieces(int depth, bool reconf)
{
    static const enum SC::fragment_unit U[] = {SC::row, SC::bytes, SC::statement};
    Cfg cfg;
    cfg.partial_fragment = !reconf && vf::pick(2, "fragments are partial");
    const int unit = vf::pick(3, "unit");
    const size_t size = vf::pick(reconf ? 3 : 4, "size");
    const int end = vf::pick(3, "end");
    std::vector<int> ops(1, o_w0);
    static const int plain[] = {o_w0, o_w1, o_w2, o_cmd, o_unsafe, o_implicit};
    for (int i = 0; i < depth; ++i)
        ops.push_back(reconf ? vf::pick(o_disable + 1, "operation")
                             : plain[vf::pick(6, "operation")]);
    with_world(cfg, [&](World& w) {
        w.join_cluster();
        w.start_applier();
        Client* c = w.new_client();
        c->open();
        Model m;
        m.partial = cfg.partial_fragment;
        m.unit = U[unit];
        m.size = size;
        // two transactions: nothing of the first may show in the second
        for (int round = 0; round < 2; ++round)
        {
            const bool xa = end == e_xa && round == 0;
            m.xa = xa;
            m.cnt = 0;
            m.pending.clear();
            m.pieces.clear();
            m.cuts = 0;
            const std::vector<int> prog = round ? std::vector<int>{o_w1, o_cmd, o_w1, o_w1} : ops;
            Trx* t = nullptr;
            size_t i = 0;
            int row = 0;
            auto check = [&]() {
                std::vector<std::string> got;
                for (int k : t->pieces) got.push_back(w.order[k].data);
                for (auto& g : got) g.erase(std::remove(g.begin(), g.end(), '\0'), g.end());
                VF_CHECK(got == m.pieces, "%zu pieces replicated, the last being '%s', instead of"
                         " %zu, the last being '%s'", got.size(),
                         got.empty() ? "" : got.back().c_str(), m.pieces.size(),
                         m.pieces.empty() ? "" : m.pieces.back().c_str());
            };
            auto body = [&]() {
                if (!t)
                {
                    if (!round && size)
                        VF_CHECK(c->cs.enable_streaming(U[unit], size) == 0,
                                 "streaming cannot be enabled");
                    c->begin();
                    t = c->trx;
                    if (xa)
                    {
                        c->xid = wsrep::xid(1, 2, 0, "x1");
                        c->explicit_xa = true;
                        c->xa_trx = t;
                        t->xa = true;
                        c->cs.assign_xid(c->xid);
                    }
                }
                for (; i < prog.size() && prog[i] != o_cmd; ++i)
                {
                    const int o = prog[i];
                    const bool streaming = m.cuts > 0;
                    switch (o)
                    {
                    case o_w0: case o_w1: case o_w2:
                    {
                        std::string d;
                        for (int k = 0; k < o - o_w0; ++k) d += (char)('p' + (int)i * 2 + k);
                        m.pending += d;
                        if (m.size && m.unit != SC::statement) m.step();
                        VF_CHECK(c->write('a' + row++ % 4, d) == 0, "write failed");
                        check();
                        break;
                    }
                    case o_size:
                        m.size = m.size == 1 ? 2 : 1;
                        VF_CHECK(c->cs.enable_streaming((enum SC::fragment_unit)m.unit, m.size)
                                     == 0, "fragment size cannot be changed");
                        break;
                    case o_unit:
                    {
                        const int n = m.unit == SC::row ? SC::bytes : SC::row;
                        const int r = c->cs.enable_streaming((enum SC::fragment_unit)n, 1);
                        VF_CHECK((r != 0) == streaming, "changing the unit returned %d with"
                                 " %zu fragments out", r, m.cuts);
                        if (!r) { m.unit = n; m.size = 1; }
                        break;
                    }
                    case o_params:
                        m.size = 2;
                        m.cnt = 0;
                        c->cs.streaming_params((enum SC::fragment_unit)m.unit, 2);
                        break;
                    case o_disable: m.size = 0; c->cs.disable_streaming(); break;
                    case o_unsafe:
                        VF_CHECK(c->cs.mark_transaction_pa_unsafe() == 0, "cannot mark unsafe");
                        c->want_pa_unsafe = true;
                        break;
                    case o_implicit:
                        const_cast<T&>(c->cs.transaction()).implicit_deps(true);
                        c->want_implicit = true;
                        break;
                    }
                }
                if (i < prog.size()) return 0;
                if (end == e_rollback && !round) return c->rollback();
                if (xa)
                {
                    m.partial = false; // everything goes out with the prepare
                    c->whole_fragment = true;
                    m.cut();
                    VF_CHECK(c->xa_prepare() == 0, "prepare failed");
                    check();
                    return 0;
                }
                m.pieces.push_back(m.pending);
                return c->commit();
            };
            for (;;)
            {
                c->command(body);
                if (i >= prog.size()) break;
                ++i;
                if (m.size && m.unit == SC::statement) m.step();
                check();
            }
            if (xa)
            {
                m.pieces.push_back("");
                c->command([&]() { return c->xa_decide(true); });
                c->whole_fragment = false;
                m.partial = cfg.partial_fragment;
            }
            VF_CHECK(!c->trx, "transaction %llu did not end", t->id);
            check();
            VF_CHECK(c->results.back().err == wsrep::e_success, "command failed with %s",
                     wsrep::to_c_string(c->results.back().err));
            std::string o;
            for (auto& p : m.pieces) o += (char)('0' + p.size());
            vf::outcome(o);
        }
        c->close();
    });
}
vf::Reg r1("pieces.flags", {"C17", "C05"}, {{0, 0}}, {{0, 0}}, []() { pieces(4, false); });
vf::Reg r2("pieces.cut", {"C17", "C05"}, {{0, 0}}, {{0, 0}}, []() { pieces(4, true); });
vf::Reg r3("pieces.flags_deep", {"C17"}, {}, {{0, 0}}, []() { pieces(6, false); });
vf::Reg r4("pieces.cut_deep", {"C17"}, {}, {{0, 0}}, []() { pieces(6, true); });
}
