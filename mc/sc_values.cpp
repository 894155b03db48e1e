// C18: identifiers, positions, views and keys against independent definitions, over all values of
// small alphabets and all boundary numbers.
#include "sim.hpp"
#include "wsrep/gtid.hpp"
#include "wsrep/id.hpp"
#include "wsrep/key.hpp"
#include "wsrep/view.hpp"
#include "wsrep/xid.hpp"
#include <algorithm>
#include <climits>
#include <cstring>
#include <sstream>

namespace
{
using wsrep::id; using wsrep::gtid; using wsrep::seqno;
typedef std::string S;

// ---- reference -----------------------------------------------------------------------------
bool alnum(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int hexval(unsigned char c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
}
S bytes(const id& i) { return S((const char*)i.data(), i.size()); }
S pad(S s) { s.resize(16, '\0'); return s; }
S uuid_text(const S& b)
{
    static const char h[] = "0123456789abcdef";
    S r;
    for (size_t i = 0; i < 16; ++i)
    {
        if (i == 4 || i == 6 || i == 8 || i == 10) r += '-';
        r += h[(unsigned char)b[i] >> 4]; r += h[(unsigned char)b[i] & 15];
    }
    return r;
}
// Text form: the string itself if it is a short alphanumeric one, UUID otherwise.
S id_text(const S& b)
{
    size_t n = 0;
    while (n < 16 && alnum((unsigned char)b[n])) ++n;
    if (n > 0 && n < 16 && b.find_first_not_of('\0', n) == S::npos) return b.substr(0, n);
    return uuid_text(b);
}
bool id_parse(const S& t, S& out)
{
    if (t.size() == 36)
    {
        out.clear();
        bool ok = true;
        for (size_t i = 0; i < 36 && ok;)
        {
            if (i == 8 || i == 13 || i == 18 || i == 23) { ok = t[i] == '-'; ++i; continue; }
            int a = hexval((unsigned char)t[i]), b = hexval((unsigned char)t[i + 1]);
            ok = a >= 0 && b >= 0;
            out += (char)(a * 16 + b);
            i += 2;
        }
        if (ok) return true;
    }
    if (t.size() <= 16) { out = pad(t); return true; }
    return false;
}
// Decimal number; returns the bytes used, 0 if there is none or it does not fit.
size_t num_parse(const S& t, size_t p, long long& v)
{
    size_t b = p;
    bool neg = p < t.size() && t[p] == '-';
    if (neg) ++p;
    __int128 x = 0; size_t d = p;
    for (; p < t.size() && t[p] >= '0' && t[p] <= '9'; ++p)
        if (x < ((__int128)1 << 100)) x = x * 10 + (t[p] - '0');
    if (p == d) return 0;
    if (neg) x = -x;
    if (x > LLONG_MAX || x < LLONG_MIN) return 0;
    v = (long long)x;
    return p - b;
}
S dec(long long v)
{
    if (v == LLONG_MIN) return "-9223372036854775808";
    S r; bool neg = v < 0; if (neg) v = -v;
    do { r.insert(r.begin(), (char)('0' + v % 10)); v /= 10; } while (v);
    return neg ? "-" + r : r;
}
S show(const S& s)
{
    S r;
    for (unsigned char c : s) { char b[8]; snprintf(b, sizeof(b), c >= 32 && c < 127 ? "%c" : "\\x%02x", c); r += b; }
    return r;
}

// ---- checks ---------------------------------------------------------------------------------
void check_id_value(const S& b)
{
    const id i(b.data(), b.size());
    const S full = pad(b);
    VF_CHECK(bytes(i) == full, "id of bytes %s holds %s", show(b).c_str(), show(bytes(i)).c_str());
    VF_CHECK(i.is_undefined() == (full == S(16, '\0')), "id %s: undefined wrong", show(b).c_str());
    const S want = id_text(full);
    const S got = i.to_string();
    VF_CHECK(got == want, "id of bytes %s prints as '%s' instead of '%s'", show(b).c_str(), show(got).c_str(), want.c_str());
    std::ostringstream os; os << i;
    VF_CHECK(os.str() == got, "id prints in two ways");
    VF_CHECK(id(got) == i, "id %s: text '%s' does not read back", show(b).c_str(), got.c_str());
    std::istringstream is(got + "\nrest"); id j; is >> j;
    VF_CHECK(j == i, "id %s: text '%s' does not read back from stream", show(b).c_str(), got.c_str());
    S rest; is >> rest;
    VF_CHECK(rest == "rest", "reading an id swallows what follows");
}
void check_id_text(const S& t)
{
    S want; const bool ok = id_parse(t, want);
    bool got_ok = true; id i;
    try { i = id(t); } catch (const wsrep::runtime_error&) { got_ok = false; }
    VF_CHECK(got_ok == ok, "id text '%s' is %s", show(t).c_str(), ok ? "rejected" : "accepted");
    VF_CHECK(!ok || bytes(i) == want, "id text '%s' read as %s", show(t).c_str(), show(bytes(i)).c_str());
}
void check_pair(const S& a, const S& b)
{
    const id x(a.data(), a.size()), y(b.data(), b.size());
    const int c = memcmp(pad(a).data(), pad(b).data(), 16);
    VF_CHECK((x == y) == (c == 0) && (x != y) == (c != 0) && (x < y) == (c < 0) && (y < x) == (c > 0),
             "ids %s and %s compare wrong", show(a).c_str(), show(b).c_str());
}

const S ALPH("a0Z -:\0\x80\xff\n", 10);
S pick_string(int maxlen)
{
    S s;
    const int n = vf::pick(maxlen + 1, "length");
    for (int i = 0; i < n; ++i) s += ALPH[(size_t)vf::pick((int)ALPH.size(), "byte")];
    return s;
}
void id_short(int n)
{
    const S s = pick_string(n);
    check_id_value(s);
    check_id_text(s);
    vf::state_hash(vf::hash_str(s));
}
vf::Reg v1("values.id_short", {"C18"}, {{0, 0}}, {{0, 0}}, [] { id_short(5); });
vf::Reg v2("values.id_short_deep", {"C18"}, {}, {{0, 0}}, [] { id_short(6); });

// Every byte at every place of ids of all lengths, on several backgrounds.
void id_bytes()
{
    const int len = vf::pick(17, "length");
    const int bg = vf::pick(5, "background");
    S s;
    for (int i = 0; i < len; ++i) s += bg == 0 ? '\0' : bg == 1 ? 'a' : bg == 2 ? (char)0xff : bg == 3 ? '-' : (char)('0' + i % 10);
    if (!len) { check_id_value(s); return; }
    const int at = vf::pick(len, "place");
    for (int c = 0; c < 256; ++c)
    {
        S t = s; t[(size_t)at] = (char)c;
        check_id_value(t);
        check_id_text(t);
        check_pair(s, t);
        check_pair(t, s);
        for (int d : {0, 1, 0x41, 0x7f, 0x80, 0xff}) { S u = s; u[(size_t)at] = (char)d; check_pair(t, u); }
        vf::state_hash(vf::hash_str(t));
    }
    for (int p = 0; p < len; ++p) // order is decided by the first difference
    {
        S t = s; t[(size_t)at] = 'A'; t[(size_t)p] = (char)0x90;
        check_pair(s, t); check_pair(t, s); check_id_value(t);
    }
}
vf::Reg v3("values.id_bytes", {"C18"}, {{0, 0}}, {{0, 0}}, id_bytes);

void id_long_text()
{
    // texts around the two lengths that mean something
    static const int lens[] = {15, 16, 17, 31, 32, 33, 34, 35, 36, 37, 38, 64};
    const int n = lens[vf::pick(12, "length")];
    const char fill = "a0-g\0 "[vf::pick(6, "fill")];
    S s((size_t)n, fill);
    check_id_text(s);
    for (int p = 0; p < n; ++p)
        for (char c : ALPH) { S t = s; t[(size_t)p] = c; check_id_text(t); }
}
vf::Reg v4("values.id_long_text", {"C18"}, {{0, 0}}, {{0, 0}}, id_long_text);

// A proper UUID text with up to two (three) characters replaced, moved or dropped.
void uuid(int edits)
{
    static const char* base[] = {"00112233-4455-6677-8899-aabbccddeeff", "FFFFFFFF-ffff-FFFF-ffff-FfFfFfFfFfFf",
                                 "00000000-0000-0000-0000-000000000000"};
    S s = base[vf::pick(3, "uuid")];
    check_id_text(s);
    const S repl("-gG0fF \0:\xe9", 10);
    for (int e = 0; e < edits; ++e)
    {
        const int kind = vf::pick(4, "edit");
        if (kind == 0) break;
        const size_t at = (size_t)vf::pick((int)s.size(), "at");
        if (kind == 1) s[at] = repl[(size_t)vf::pick((int)repl.size(), "char")];
        if (kind == 2) s.erase(at, 1);
        if (kind == 3) s.insert(at, 1, "-0g"[vf::pick(3, "char")]);
    }
    check_id_text(s);
    vf::state_hash(vf::hash_str(s));
}
vf::Reg v5("values.uuid", {"C18"}, {{0, 0}}, {{0, 0}}, [] { uuid(2); });
vf::Reg v5b("values.uuid_deep", {"C18"}, {}, {{0, 0}}, [] { uuid(3); });
// All ways to place four dashes between 32 digits.
void uuid_dashes()
{
    S s;
    int left = 4, digits = 0;
    const int ngroups = 33;
    for (int g = 0; g < ngroups; ++g)
    {
        const int d = g == ngroups - 1 ? left : left ? vf::pick(left + 1, "dashes") : 0;
        s.append((size_t)d, '-'); left -= d;
        if (g < 32) { s += "0123456789abcdef"[digits % 16]; ++digits; }
    }
    check_id_text(s);
}
vf::Reg v6("values.uuid_dashes", {"C18"}, {{0, 0}}, {{0, 0}}, uuid_dashes);

// ---- positions --------------------------------------------------------------------------------
const long long NUMS[] = {-1, 0, 1, -2, 2, 9, 10, 99, 100, 2147483647LL, 2147483648LL, -2147483648LL, -2147483649LL,
                          4294967295LL, 4294967296LL, LLONG_MAX, LLONG_MAX - 1, LLONG_MIN, LLONG_MIN + 1,
                          1000000000000000000LL, 999999999999999999LL};
const int NNUM = sizeof(NUMS) / sizeof(*NUMS);
S some_id(int i)
{
    static const S ids[] = {S(), "a", "ABCdef0123456789", "123456789012345", S("\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\x0a\x0b\x0c\x0d\x0e\x0f", 16),
                            S(16, (char)0xff), "a:b", " ", "-1", S("a\0b", 3)};
    return ids[i];
}
const int NID = 10;

void gtid_values()
{
    const S ib = some_id(vf::pick(NID, "id"));
    const long long n = NUMS[vf::pick(NNUM, "number")];
    const id i(ib.data(), ib.size());
    const gtid g(i, seqno(n));
    VF_CHECK(g.id() == i && g.seqno().get() == n, "position does not keep its parts");
    VF_CHECK(g.is_undefined() == (pad(ib) == S(16, '\0') && n == -1), "undefined position misjudged");
    VF_CHECK(gtid::undefined().is_undefined() && id::undefined().is_undefined() && seqno::undefined().is_undefined(), "undefined is not");
    VF_CHECK(gtid() == gtid::undefined() && id() == id::undefined() && seqno() == seqno::undefined(), "default values are not the undefined ones");
    const S want = id_text(pad(ib)) + ":" + dec(n);
    std::ostringstream os; os << g;
    VF_CHECK(os.str() == want, "position prints as '%s' instead of '%s'", os.str().c_str(), want.c_str());
    // back from a stream, leaving what follows
    { std::istringstream is(want + " rest"); gtid h; is >> h; S r; VF_CHECK(is && h == g, "'%s' does not read back", want.c_str()); is >> r; VF_CHECK(r == "rest", "reading a position swallows what follows"); }
    { std::istringstream is(want); gtid h; is >> h; VF_CHECK(is && h == g, "'%s' does not read back at the end of the stream", want.c_str()); }
    VF_CHECK(want.size() <= wsrep::gtid_c_str_len(), "the guaranteed length is too small for '%s'", want.c_str());
    // buffers of all sizes
    for (size_t len = 0; len <= 64; ++len)
    {
        char buf[96]; memset(buf, 0x5a, sizeof(buf));
        const ssize_t r = wsrep::print_to_c_str(g, buf + 8, len);
        for (size_t k = 0; k < sizeof(buf); ++k)
            if (k < 8 || k >= 8 + len) VF_CHECK(buf[k] == 0x5a, "printing '%s' into %zu bytes writes outside", want.c_str(), len);
        if (len < want.size()) VF_CHECK(r < 0, "printing '%s' into %zu bytes is not reported", want.c_str(), len);
        else VF_CHECK(r == (ssize_t)want.size() && !memcmp(buf + 8, want.data(), want.size()), "printing '%s' into %zu bytes gives %zd", want.c_str(), len, r);
        char buf2[96]; memset(buf2, 0x5a, sizeof(buf2));
        VF_CHECK(wsrep::gtid_print_to_c_str(g, buf2 + 8, len) == r && !memcmp(buf, buf2, sizeof(buf)), "the two print functions differ");
    }
    // scanning only what was given
    for (size_t len = 0; len <= want.size(); ++len)
    {
        S mem = want + "7777";
        gtid h(id("before"), seqno(4711));
        const ssize_t r = wsrep::scan_from_c_str(mem.data(), len, h);
        S wi; long long wn = 0;
        const S t = want.substr(0, len);
        const size_t c = t.find(':');
        size_t used = 0;
        const bool ok = c != S::npos && (used = num_parse(t, c + 1, wn)) && id_parse(t.substr(0, c), wi);
        VF_CHECK((r >= 0) == ok, "scanning '%s' gives %zd", t.c_str(), r);
        if (ok) VF_CHECK(r == (ssize_t)(c + 1 + used) && bytes(h.id()) == wi && h.seqno().get() == wn, "'%s' scanned wrongly", t.c_str());
        else VF_CHECK(h == gtid(id("before"), seqno(4711)), "rejected text '%s' changes the position", t.c_str());
        gtid h2;
        VF_CHECK(wsrep::gtid_scan_from_c_str(mem.data(), len, h2) == r, "the two scan functions differ");
    }
    vf::state_hash(vf::hash_str(want));
}
vf::Reg v7("values.gtid", {"C18"}, {{0, 0}}, {{0, 0}}, gtid_values);

void gtid_texts()
{
    static const S ids[] = {"", "a", "abc123", "1234567890123456", "12345678901234567", "00112233-4455-6677-8899-aabbccddeeff",
                            "00112233-4455-6677-8899-aabbccddeefg", "00112233-4455-6677-8899-aabbccddeef", "001122334455-6677-8899--aabbccddeeff",
                            "00112233-4455-6677-8899-aabbccddeeff0"};
    static const S seps[] = {":", "", "::", "-", ":-", ":--"};
    static const S nums[] = {"", "-", "0", "1", "00", "01", "12", "9223372036854775807", "9223372036854775808", "99999999999999999999999",
                             "x", "0x10", "1.5", "1e3", "18446744073709551615", "9223372036854775809", "a1", "12345678901234567890"};
    static const S tails[] = {"", "x", ":", ":1", "\n", ",", S("\0", 1)};
    const S t = ids[vf::pick(10, "id")] + seps[vf::pick(6, "separator")] + nums[vf::pick(18, "number")] + tails[vf::pick(7, "tail")];
    S wi; long long wn = 0; size_t used = 0;
    const size_t c = t.find(':');
    const bool ok = c != S::npos && (used = num_parse(t, c + 1, wn)) && id_parse(t.substr(0, c), wi);
    const gtid before(id("before"), seqno(4711));
    gtid h(before);
    const ssize_t r = wsrep::scan_from_c_str(t.data(), t.size(), h);
    VF_CHECK((r >= 0) == ok, "text '%s' is %s (%zd)", show(t).c_str(), ok ? "rejected" : "accepted", r);
    if (ok) VF_CHECK(r == (ssize_t)(c + 1 + used) && bytes(h.id()) == wi && h.seqno().get() == wn, "text '%s' read wrongly (%zd)", show(t).c_str(), r);
    else VF_CHECK(h == before, "rejected text '%s' changes the position", show(t).c_str());
    std::istringstream is(t); gtid k(before);
    bool threw = false;
    try { is >> k; } catch (...) { threw = true; }
    VF_CHECK(!threw, "reading '%s' throws", show(t).c_str());
    VF_CHECK(!is == !ok, "text '%s' is %s by the stream", show(t).c_str(), ok ? "rejected" : "accepted");
    VF_CHECK(k == h, "stream and buffer read '%s' differently", show(t).c_str());
    vf::state_hash(vf::hash_str(t));
    vf::outcome(ok ? "accepted" : "rejected");
}
vf::Reg v8("values.gtid_texts", {"C18"}, {{0, 0}}, {{0, 0}}, gtid_texts);

void pairs()
{
    const long long a = NUMS[vf::pick(NNUM, "a")], b = NUMS[vf::pick(NNUM, "b")];
    const seqno x(a), y(b);
    VF_CHECK((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b),
             "numbers %lld and %lld compare wrong", a, b);
    VF_CHECK(x.is_undefined() == (a == -1), "undefined number misjudged");
    if (a != LLONG_MIN) VF_CHECK(x.prev().get() == a - 1, "predecessor of %lld is %lld", a, x.prev().get());
    long long sum;
    if (!__builtin_add_overflow(a, b, &sum))
        VF_CHECK((x + y).get() == sum && (x + b).get() == sum, "%lld + %lld wrong", a, b);
    std::ostringstream os; os << x;
    VF_CHECK(os.str() == dec(a), "number %lld prints as %s", a, os.str().c_str());
    for (int i = 0; i < NID; ++i)
        for (int j = 0; j < NID; ++j)
        {
            const S p = some_id(i), q = some_id(j);
            check_pair(p, q);
            VF_CHECK((gtid(id(p.data(), p.size()), x) == gtid(id(q.data(), q.size()), y)) == (pad(p) == pad(q) && a == b), "positions compare wrong");
        }
    vf::state_hash((uint64_t)a * 31 + (uint64_t)b);
}
vf::Reg v9("values.pairs", {"C18"}, {{0, 0}}, {{0, 0}}, pairs);

// ---- views ----------------------------------------------------------------------------------
std::vector<int> pick_members(int nids, int max, const char* l)
{
    std::vector<int> r, left;
    for (int i = 0; i < nids; ++i) left.push_back(i);
    const int n = vf::pick(max + 1, l);
    for (int i = 0; i < n; ++i)
    {
        const size_t k = (size_t)vf::pick((int)left.size(), "member");
        r.push_back(left[k]);
        left.erase(left.begin() + (long)k);
    }
    return r;
}
id member_id(int i)
{
    static const S b[] = {S("\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00", 16), "a", S("\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x01", 16), "ab", S(16, (char)0xee), S(15, (char)0xee)};
    return id(b[i].data(), b[i].size());
}
wsrep::view make_view(const std::vector<int>& m, enum wsrep::view::status st, ssize_t own, const char* salt)
{
    std::vector<wsrep::view::member> v;
    for (int i : m) v.push_back(wsrep::view::member(member_id(i), salt + std::to_string(i), salt));
    return wsrep::view(gtid(id("g"), seqno(7)), seqno(3), st, 5, own, 4, v);
}
void views(int nids, int max)
{
    const std::vector<int> a = pick_members(nids, max, "members of a"), b = pick_members(nids, max, "members of b");
    const wsrep::view x = make_view(a, wsrep::view::primary, 0, "x"), y = make_view(b, wsrep::view::non_primary, -1, "y");
    const bool same = std::set<int>(a.begin(), a.end()) == std::set<int>(b.begin(), b.end());
    VF_CHECK(x.equal_membership(y) == same && y.equal_membership(x) == same, "membership of %zu and %zu members compares wrong", a.size(), b.size());
    VF_CHECK(x.equal_membership(x), "a view has another membership than itself");
    for (int i = 0; i < nids; ++i)
    {
        const auto p = std::find(a.begin(), a.end(), i);
        const int at = p == a.end() ? -1 : (int)(p - a.begin());
        VF_CHECK(x.member_index(member_id(i)) == at && x.is_member(member_id(i)) == (at >= 0), "member looked up wrongly");
    }
    VF_CHECK(x.member_index(id()) == -1, "undefined member found");
    vf::state_hash(a.size() * 10 + b.size());
    vf::outcome(same ? "same" : "different");
}
vf::Reg v10("values.views", {"C18"}, {{0, 0}}, {{0, 0}}, [] { views(5, 3); });
vf::Reg v10b("values.views_deep", {"C18"}, {}, {{0, 0}}, [] { views(6, 4); });
void view_parts()
{
    const std::vector<int> a = pick_members(4, 3, "members");
    const int sti = vf::pick(3, "status");
    static const enum wsrep::view::status sts[] = {wsrep::view::primary, wsrep::view::non_primary, wsrep::view::disconnected};
    static const char* names[] = {"primary", "non-primary", "disconnected"};
    const ssize_t own = vf::pick((int)a.size() + 1, "own") - 1;
    const wsrep::view v = make_view(a, sts[sti], own, "n");
    VF_CHECK(v.state_id() == gtid(id("g"), seqno(7)) && v.view_seqno().get() == 3 && v.status() == sts[sti] && v.capabilities() == 5 &&
             v.own_index() == own && v.protocol_version() == 4 && v.members().size() == a.size(), "view does not keep its parts");
    VF_CHECK(v.is_final() == (sti != 0 && a.empty() && own == -1), "final view misjudged");
    std::ostringstream os; os << v;
    const S t = os.str();
    auto has = [&](const S& s) { VF_CHECK(t.find(s) != S::npos, "printed view lacks '%s': %s", s.c_str(), t.c_str()); };
    has("g:7"); has(S("status: ") + names[sti] + "\n"); has("own_index: " + dec(own)); has("members(" + dec((long long)a.size()) + ")");
    for (size_t i = 0; i < a.size(); ++i) has(dec((long long)i) + ": " + id_text(bytes(member_id(a[i]))) + ", n" + dec(a[i]) + "\n");
    const wsrep::view none;
    VF_CHECK(none.state_id().is_undefined() && none.view_seqno().is_undefined() && none.own_index() == -1 && none.members().empty() && none.is_final(), "empty view");
}
vf::Reg v11("values.view_parts", {"C18"}, {{0, 0}}, {{0, 0}}, view_parts);

// ---- XA identifiers and keys ----------------------------------------------------------------
void xids()
{
    static const char data[] = "ab\0cab\0c";
    struct X { long f, g, b; const char* d; };
    std::vector<X> all;
    for (long f : {-1L, 0L, 1L, 4294967296L})
        for (long g : {0L, 1L, 2L, 3L})
            for (long b : {0L, 1L, 2L})
                for (const char* d : {data, data + 1, data + 2}) all.push_back({f, g, b, d});
    const X p = all[(size_t)vf::pick((int)all.size(), "a")];
    const wsrep::xid x(p.f, p.g, p.b, p.d);
    VF_CHECK(x.is_null() == (p.f == -1), "null identifier misjudged");
    VF_CHECK(wsrep::to_string(x) == S(p.d, (size_t)(p.g + p.b)), "identifier prints wrong");
    for (auto& q : all)
    {
        const wsrep::xid y(q.f, q.g, q.b, q.d);
        const bool same = p.f == q.f && p.g == q.g && p.b == q.b && !memcmp(p.d, q.d, (size_t)(p.g + p.b));
        VF_CHECK((x == y) == same, "identifiers compare wrong");
        wsrep::xid z(y); VF_CHECK(z == y && (z == x) == same, "copied identifier differs");
        z = x; VF_CHECK(z == x && (z == y) == same, "assigned identifier differs");
        z.clear(); VF_CHECK(z.is_null() && z == wsrep::xid() && wsrep::to_string(z).empty(), "cleared identifier is not null");
        VF_CHECK(x == wsrep::xid(p.f, p.g, p.b, p.d), "identifier changed by its copy");
    }
    const S big(200, 'x');
    for (long g : {0L, 63L, 64L, 65L, 128L})
        for (long b : {0L, 63L, 64L, 65L, 128L})
        {
            bool threw = false;
            try { wsrep::xid y(1, g, b, big.data()); VF_CHECK(wsrep::to_string(y).size() == (size_t)(g + b), "long identifier cut"); }
            catch (const wsrep::runtime_error&) { threw = true; }
            VF_CHECK(threw == (g > 64 || b > 64), "identifier of %ld + %ld bytes is %s", g, b, threw ? "rejected" : "accepted");
        }
    vf::state_hash((uint64_t)(p.f * 100 + p.g * 10 + p.b));
}
vf::Reg v12("values.xids", {"C18"}, {{0, 0}}, {{0, 0}}, xids);

void keys()
{
    static const enum wsrep::key::type types[] = {wsrep::key::shared, wsrep::key::reference, wsrep::key::update, wsrep::key::exclusive};
    static const char* names[] = {"shared", "reference", "update", "exclusive"};
    const int ti = vf::pick(4, "type");
    wsrep::key k(types[ti]);
    const int n = vf::pick(6, "parts");
    static const S parts[] = {S(), "a", S("\0\xff\x10", 3), "bc"};
    std::vector<int> want;
    for (int i = 0; i < n; ++i)
    {
        const int p = vf::pick(4, "part");
        bool threw = false;
        try { k.append_key_part(parts[p].data(), parts[p].size()); } catch (const wsrep::runtime_error&) { threw = true; }
        VF_CHECK(threw == (want.size() == 3), "part %d of a key is %s", i + 1, threw ? "rejected" : "accepted");
        if (!threw) want.push_back(p);
    }
    VF_CHECK(k.type() == types[ti] && k.size() == want.size(), "key does not keep its parts");
    const wsrep::key c(k);
    S text = S("type: ") + names[ti];
    for (size_t i = 0; i < want.size(); ++i)
    {
        const S& p = parts[want[i]];
        VF_CHECK(S(c.key_parts()[i].data(), c.key_parts()[i].size()) == p && c.key_parts()[i].ptr() == p.data(), "key part %zu differs", i);
        text += "\n    " + dec((long long)p.size()) + ": ";
        for (unsigned char b : p) { text += "0123456789abcdef"[b >> 4]; text += "0123456789abcdef"[b & 15]; text += ' '; }
    }
    std::ostringstream os; os << k;
    VF_CHECK(os.str() == text, "key prints as '%s' instead of '%s'", os.str().c_str(), text.c_str());
    os.str(""); os << 10;
    VF_CHECK(os.str() == "10", "printing a key leaves the stream in another number base");
    vf::state_hash(vf::hash_str(text));
}
vf::Reg v13("values.keys", {"C18"}, {{0, 0}}, {{0, 0}}, keys);
}
