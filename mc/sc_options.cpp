// C20: the provider options proxy against a reference table.  The provider (declarations and
// answers to assignments) is played by this file.
#include "sim.hpp"
#include "wsrep/provider_options.hpp"
#include <cmath>
#include <cstring>

namespace
{
typedef wsrep::provider_options PO;
typedef PO::option_value Val;
typedef sim::Status Status;

struct Decl { std::string name; int value; int flags; };
struct ProviderStub : wsrep::provider
{
    using wsrep::provider::provider;
    Status answer = P::success;
    std::vector<std::string> got;
    std::vector<Decl> decls;
    bool config_ok = true;
    std::vector<Status> decl_results;
    typedef wsrep::provider P;

    Status connect(const std::string&, const std::string&, const std::string&, bool) override { return success; }
    int disconnect() override { return 0; }
    int capabilities() const override { return 0; }
    int desync() override { return 0; }
    int resync() override { return 0; }
    wsrep::seqno pause() override { return wsrep::seqno(0); }
    int resume() override { return 0; }
    Status run_applier(wsrep::high_priority_service*) override { return success; }
    int start_transaction(wsrep::ws_handle&) override { return 0; }
    Status assign_read_view(wsrep::ws_handle&, const wsrep::gtid*) override { return success; }
    int append_key(wsrep::ws_handle&, const wsrep::key&) override { return 0; }
    Status append_data(wsrep::ws_handle&, const wsrep::const_buffer&) override { return success; }
    Status certify(wsrep::client_id, wsrep::ws_handle&, int, wsrep::ws_meta&, const seq_cb_t*) override { return success; }
    Status bf_abort(wsrep::seqno, wsrep::transaction_id, wsrep::client_service&, wsrep::seqno&) override { return success; }
    Status rollback(wsrep::transaction_id) override { return success; }
    Status commit_order_enter(const wsrep::ws_handle&, const wsrep::ws_meta&) override { return success; }
    int commit_order_leave(const wsrep::ws_handle&, const wsrep::ws_meta&, const wsrep::mutable_buffer&) override { return 0; }
    int release(wsrep::ws_handle&) override { return 0; }
    Status replay(const wsrep::ws_handle&, wsrep::high_priority_service*) override { return success; }
    Status enter_toi(wsrep::client_id, const wsrep::key_array&, const wsrep::const_buffer&, wsrep::ws_meta&, int) override { return success; }
    Status leave_toi(wsrep::client_id, const wsrep::ws_meta&, const wsrep::mutable_buffer&) override { return success; }
    std::pair<wsrep::gtid, Status> causal_read(int) const override { return {wsrep::gtid(), success}; }
    Status wait_for_gtid(const wsrep::gtid&, int) const override { return success; }
    wsrep::gtid last_committed_gtid() const override { return wsrep::gtid(); }
    Status sst_sent(const wsrep::gtid&, int) override { return success; }
    Status set_node_isolation(enum node_isolation) override { return success; }
    Status sst_received(const wsrep::gtid&, int) override { return success; }
    Status enc_set_key(const wsrep::const_buffer&) override { return success; }
    std::vector<status_variable> status() const override { return {}; }
    void reset_status() override {}
    std::string options() const override { return ""; }
    Status options(const std::string& o) override { got.push_back(o); return answer; }
    std::string name() const override { return ""; }
    std::string version() const override { return ""; }
    std::string vendor() const override { return ""; }
    void* native() const override { return nullptr; }
};

// Values the scenarios use: index -> type, text.
const int NVAL = 11;
std::unique_ptr<Val> make(int i)
{
    switch (i)
    {
    case 0: return std::unique_ptr<Val>(new PO::option_value_string("x"));
    case 1: return std::unique_ptr<Val>(new PO::option_value_string(""));
    case 2: return std::unique_ptr<Val>(new PO::option_value_bool(true));
    case 3: return std::unique_ptr<Val>(new PO::option_value_bool(false));
    case 4: return std::unique_ptr<Val>(new PO::option_value_int(0));
    case 5: return std::unique_ptr<Val>(new PO::option_value_int(INT64_MAX));
    case 6: return std::unique_ptr<Val>(new PO::option_value_int(INT64_MIN));
    case 7: return std::unique_ptr<Val>(new PO::option_value_double(0.5));
    case 8: return std::unique_ptr<Val>(new PO::option_value_double(-12345678.25));
    case 9: return std::unique_ptr<Val>(new PO::option_value_string("a.b_c d"));
    default: return std::unique_ptr<Val>(new PO::option_value_int(-4294967296LL));
    }
}
const char* TEXT[NVAL] = {"x", "", "yes", "no", "0", "9223372036854775807", "-9223372036854775808",
                          "0.5", "-12345678.25", "a.b_c d", "-4294967296"};
bool is_double(int i) { return i == 7 || i == 8; }
bool same_text(const std::string& s, int i)
{
    if (!is_double(i)) return s == TEXT[i];
    char* e; const double d = strtod(s.c_str(), &e);
    return !s.empty() && !*e && d == strtod(TEXT[i], nullptr);
}
bool same(const Val* v, int i)
{
    if (!v || !v->as_string() || !v->get_ptr() || !same_text(v->as_string(), i)) return false;
    switch (i)
    {
    case 0: case 1: case 9: return !strcmp((const char*)v->get_ptr(), TEXT[i]);
    case 2: case 3: return *(const bool*)v->get_ptr() == (i == 2);
    case 4: return *(const int64_t*)v->get_ptr() == 0;
    case 5: return *(const int64_t*)v->get_ptr() == INT64_MAX;
    case 6: return *(const int64_t*)v->get_ptr() == INT64_MIN;
    case 7: return *(const double*)v->get_ptr() == 0.5;
    case 8: return *(const double*)v->get_ptr() == -12345678.25;
    default: return *(const int64_t*)v->get_ptr() == -4294967296LL;
    }
}

const std::vector<std::string> NAMES{"a.b", "a_b", "c", "a.b.d", "."};
const int FLAGS[] = {0, PO::flag::readonly | PO::flag::type_integer, PO::flag::deprecated | PO::flag::type_bool};
std::string clean(std::string s) { for (auto& c : s) if (c == '.') c = '_'; return s; }

struct Ref { std::string real; int value, def, flags; };
struct Table
{
    std::map<std::string, Ref> m;
    void check(PO& po, const char* when)
    {
        std::vector<std::string> seen;
        po.for_each([&](PO::option* o) {
            auto i = m.find(o->name());
            VF_CHECK(i != m.end(), "%s: option %s shown but not declared", when, o->name());
            VF_CHECK(i->second.real == o->real_name(), "%s: option %s has provider name %s instead of %s", when,
                     o->name(), o->real_name(), i->second.real.c_str());
            VF_CHECK(same(o->value(), i->second.value), "%s: option %s shows '%s' instead of '%s'", when, o->name(),
                     o->value() ? o->value()->as_string() : "(none)", TEXT[i->second.value]);
            VF_CHECK(same(o->default_value(), i->second.def), "%s: default of option %s changed to '%s'", when, o->name(),
                     o->default_value() ? o->default_value()->as_string() : "(none)");
            VF_CHECK(o->flags() == i->second.flags, "%s: flags of option %s changed", when, o->name());
            VF_CHECK(po.get_option(o->name()) == o, "%s: option %s can not be looked up", when, o->name());
            seen.push_back(o->name());
        });
        std::set<std::string> u(seen.begin(), seen.end());
        VF_CHECK(u.size() == seen.size(), "%s: an option is listed twice", when);
        for (auto& e : m) VF_CHECK(u.count(e.first), "%s: option %s is missing", when, e.first.c_str());
        for (auto& n : NAMES)
            if (!m.count(n))
                VF_CHECK(!po.get_option(n), "%s: unknown option %s found", when, n.c_str());
        VF_CHECK(!po.get_option("") && !po.get_option("zz"), "%s: unknown option found", when);
        // equality by name
        const PO::option* prev = nullptr;
        for (auto& n : seen)
        {
            const PO::option* o = po.get_option(n);
            VF_CHECK(*o == *o && (!prev || !(*o == *prev)), "%s: option comparison wrong", when);
            prev = o;
        }
        uint64_t h = 1;
        for (auto& e : m) h = vf::mix(h, vf::hash_str(e.first + e.second.real) + (uint64_t)(e.second.value * 100 + e.second.def));
        vf::state_hash(h);
    }
    void declare(const Decl& d, Status got)
    {
        const bool dup = m.count(clean(d.name)) != 0;
        VF_CHECK((got != wsrep::provider::success) == dup, "declaring option %s %s", d.name.c_str(),
                 dup ? "a second time succeeds" : "for the first time fails");
        if (!dup) m[clean(d.name)] = Ref{d.name, d.value, d.value, d.flags};
    }
};
ProviderStub* fetching;

void assign(ProviderStub& p, PO& po, Table& t, const std::string& name, int v, int answer)
{
    static const Status st[] = {wsrep::provider::success, wsrep::provider::error_warning, wsrep::provider::error_fatal,
                                wsrep::provider::error_not_allowed};
    p.answer = st[answer];
    p.got.clear();
    vf::trace("set %s = %s, answer %d", name.c_str(), TEXT[v], answer);
    const Status s = po.set(name, make(v));
    auto i = t.m.find(name);
    if (i == t.m.end())
    {
        VF_CHECK(p.got.empty(), "assignment to unknown option %s reached the provider: %s", name.c_str(), p.got[0].c_str());
        VF_CHECK(s != wsrep::provider::success, "assignment to unknown option %s succeeds", name.c_str());
    }
    else
    {
        VF_CHECK(p.got.size() == 1, "%zu assignments handed to the provider", p.got.size());
        const std::string pre = i->second.real + "=";
        const std::string& g = p.got[0];
        VF_CHECK(g.size() > pre.size() && g.compare(0, pre.size(), pre) == 0 && g.back() == ';' &&
                 same_text(g.substr(pre.size(), g.size() - pre.size() - 1), v),
                 "provider received '%s' for %s%s", g.c_str(), pre.c_str(), TEXT[v]);
        VF_CHECK(s == st[answer], "answer of the provider not reported");
        if (s == wsrep::provider::success) i->second.value = v;
    }
    t.check(po, "after assignment");
}

// Declarations at provider start, then assignments.
void table(int ndecl, int nset)
{
    wsrep::server_state* no_server = nullptr;
    ProviderStub p(*no_server);
    PO po(p);
    Table t;
    t.check(po, "empty");
    const int rounds = 1 + vf::pick(2, "provider loaded again");
    for (int r = 0; r < rounds; ++r)
    {
        t.m.clear();
        p.decls.clear(); p.decl_results.clear();
        const int n = vf::pick(ndecl + 1, "declarations");
        for (int i = 0; i < n; ++i)
        {
            const int v = (i * 4 + 3) % NVAL;
            p.decls.push_back({NAMES[(size_t)vf::pick(r ? 2 : (int)NAMES.size(), "name")], v, FLAGS[i % 3]});
        }
        p.config_ok = r == 1 || !vf::env(2, "provider has no options");
        if (!p.config_ok) p.decls.clear();
        fetching = &p;
        const Status s = po.initial_options();
        fetching = nullptr;
        for (size_t i = 0; i < p.decl_results.size(); ++i) t.declare(p.decls[i], p.decl_results[i]);
        VF_CHECK((s == wsrep::provider::success) == p.config_ok, "initial_options() returns %d", (int)s);
        t.check(po, "after start");
        for (int i = 0; i < (r ? 1 : nset); ++i)
        {
            const size_t k = (size_t)vf::pick((int)NAMES.size() + 1, "name to set");
            const std::string name = k < NAMES.size() ? NAMES[k] : "a_b_d";
            const bool full = rounds == 1 && i == 0;
            const int v = full ? vf::pick(NVAL, "value") : (i * 5 + r) % NVAL;
            assign(p, po, t, name, v, vf::pick(full ? 4 : 2, "answer"));
        }
    }
    vf::outcome(std::to_string(t.m.size()));
}
vf::Reg o1("options.table", {"C20"}, {{0, 1}}, {{0, 1}}, [] { table(3, 2); });
vf::Reg o2("options.more", {"C20"}, {}, {{0, 1}}, [] { table(4, 2); });

// Declarations and assignments in any order, with all names.
void mixed(int depth)
{
    wsrep::server_state* no_server = nullptr;
    ProviderStub p(*no_server);
    PO po(p);
    Table t;
    for (int i = 0; i < depth; ++i)
    {
        const int k = vf::pick((int)NAMES.size() * 3, "operation");
        const std::string name = NAMES[(size_t)k / 3];
        const int v = (i * 3 + 1) % NVAL;
        if (k % 3 == 0)
        {
            Decl d{name, v, FLAGS[i % 3]};
            vf::trace("declare %s", name.c_str());
            t.declare(d, po.set_default(name, make(v), make(v), d.flags));
            t.check(po, "after declaration");
        }
        else assign(p, po, t, k % 3 == 1 ? clean(name) : name, v, vf::env(2, "refused"));
    }
    vf::outcome(std::to_string(t.m.size()));
}
vf::Reg o3("options.mixed", {"C20"}, {{0, 4}}, {{0, 5}}, [] { mixed(4); });
vf::Reg o4("options.mixed_deep", {"C20"}, {}, {{0, 2}}, [] { mixed(6); });
}

namespace wsrep
{
    // Stands for the provider's configuration service (its adapter is not part of this build).
    int config_service_v1_fetch(provider&, provider_options* opts)
    {
        if (!fetching || !fetching->config_ok) return 1;
        for (auto& d : fetching->decls)
            fetching->decl_results.push_back(opts->set_default(d.name, make(d.value), make(d.value), d.flags));
        return 0;
    }
}
