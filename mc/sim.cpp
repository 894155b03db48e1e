#include "sim.hpp"
#include "wsrep/logger.hpp"

#include <algorithm>
#include <cstring>

namespace sim
{
World* W = nullptr;
const char* GROUP = "group";

wsrep::id make_id(unsigned char c)
{
    unsigned char b[16];
    memset(b, c, sizeof b);
    return wsrep::id(b, sizeof b);
}
wsrep::gtid make_gtid(long seqno) { return wsrep::gtid(make_id('G'), wsrep::seqno(seqno)); }

static char id_char(const wsrep::id& i)
{
    if (i.is_undefined()) return '-';
    char c = ((const char*)i.data())[0];
    return c;
}
std::string show(const TrxKey& k)
{
    return std::string(1, id_char(k.first)) + ":" + std::to_string(k.second);
}
std::string str(const wsrep::const_buffer& b) { return std::string(b.data() ? b.data() : "", b.size()); }

// ------------------------------------------------------------------ storage engine
void SE::clear()
{
    active = false; prepared = false; data.clear(); adds.clear(); removes.clear(); applied = 0;
}
void SE::begin(Client* c, const TrxKey& k)
{
    VF_CHECK(!active, "storage engine transaction %s started while %s is still open",
             show(k).c_str(), show(key).c_str());
    clear();
    client = c; key = k; active = true;
}
void SE::release_rows()
{
    for (char r : rows) W->rows.erase(r);
    rows.clear();
}
void SE::commit(long seqno, const char* by)
{
    World& w = *W;
    vf::point("se_commit");
    VF_CHECK(active, "%s commits but no storage engine transaction is open (%s)", by,
             show(key).c_str());
    if (seqno > 0)
    {
        Piece& p = w.piece(seqno);
        VF_CHECK(p.entered && !p.left,
                 "%s commits %s at seqno %ld outside of the commit order critical section", by,
                 show(key).c_str(), seqno);
        VF_CHECK(w.all_passed_before(seqno), "%s commits seqno %ld before its predecessors", by,
                 seqno);
        VF_CHECK(p.verdict == 1, "%s commits seqno %ld which did not pass certification", by,
                 seqno);
        VF_CHECK(++p.se_commits == 1, "seqno %ld committed more than once", seqno);
        for (auto& a : adds)
            VF_CHECK(a.second.seqno == seqno,
                     "fragment of %s stored with seqno %ld in commit of seqno %ld",
                     show(a.first).c_str(), a.second.seqno, seqno);
    }
    else
    {
        VF_CHECK(adds.empty(), "fragment of %s stored outside of the commit order",
                 show(key).c_str());
        VF_CHECK(applied == 0, "%s commits data of %s without position in the total order", by,
                 show(key).c_str());
    }
    for (auto& a : adds) w.frags[a.first].push_back(a.second);
    for (auto& r : removes)
    {
        auto& v = w.frags[r.first];
        for (size_t i = 0; i < v.size(); ++i)
            if (v[i].seqno == r.second) { v.erase(v.begin() + i); break; }
        if (v.empty()) w.frags.erase(r.first);
    }
    if (applied > 0)
    {
        VF_CHECK(!w.db.count(key), "transaction %s committed twice", show(key).c_str());
        w.db[key] = data;
        if (key.first == w.own_id)
            if (Trx* t = w.find_trx(key.second))
            {
                ++t->se_commits;
                VF_CHECK(!t->xa || t->xa_asked == 1,
                         "prepared transaction %llu committed without being asked to", t->id);
            }
    }
    vf::trace("  [se] %s committed %s seqno %ld data '%s'", by, show(key).c_str(), seqno,
              data.c_str());
    clear();
    release_rows();
}
void SE::rollback()
{
    vf::point("se_rollback");
    vf::trace("  [se] rolled back %s", show(key).c_str());
    if (active && client && !client->hp && client->trx) ++client->trx->se_rollbacks;
    clear();
    release_rows();
}

std::string Trx::outcome() const
{
    std::string s;
    s += se_commits ? "C" : "R";
    if (replays) s += "p";
    if (bf_accepted) s += "a";
    if (bf_refused) s += "n";
    if (faults) s += "f" + std::to_string(faults);
    if (rb_sent) s += "b";
    return s;
}

// ------------------------------------------------------------------ provider
static KeyRec key_rec(const wsrep::key& k)
{
    KeyRec r;
    for (size_t i = 0; i < k.size(); ++i)
    {
        if (i) r.s += '/';
        r.s += std::string((const char*)k.key_parts()[i].data(), k.key_parts()[i].size());
    }
    r.type = (int)k.type();
    return r;
}

Status Provider::connect(const std::string& name, const std::string& addr,
                         const std::string& donor, bool bootstrap)
{
    ++connects;
    if (connect_fn) return connect_fn(name, addr, donor, bootstrap);
    return success;
}
int Provider::disconnect()
{
    ++disconnects;
    vf::point("provider.disconnect");
    return disconnect_fn ? disconnect_fn() : 0;
}
int Provider::desync()
{
    vf::point("provider.desync");
    int r = desync_fn ? desync_fn() : 0;
    if (!r) ++desyncs;
    return r;
}
int Provider::resync()
{
    vf::point("provider.resync");
    int r = resync_fn ? resync_fn() : 0;
    ++resyncs;
    return r;
}
wsrep::seqno Provider::pause()
{
    vf::point("provider.pause");
    int r = pause_fn ? pause_fn() : 0;
    if (r) return wsrep::seqno::undefined();
    ++pauses;
    ++paused;
    VF_CHECK(paused == 1, "provider paused while already paused");
    return wsrep::seqno(7);
}
int Provider::resume()
{
    vf::point("provider.resume");
    int r = resume_fn ? resume_fn() : 0;
    if (!r)
    {
        VF_CHECK(paused == 1, "provider resumed while not paused");
        --paused;
        ++resumes;
    }
    return r;
}
int Provider::start_transaction(wsrep::ws_handle& h)
{
    if (Trx* t = w.find_trx(h.transaction_id().get())) t->released = false;
    return w.cfg.start_fail ? vf::env(2, "start_transaction fails") : 0;
}
int Provider::append_key(wsrep::ws_handle& h, const wsrep::key& k)
{
    Trx* t = w.find_trx(h.transaction_id().get());
    VF_CHECK(t, "key appended to an unknown transaction");
    t->known = true;
    t->released = false;
    t->pkeys.push_back(key_rec(k));
    return 0;
}
Status Provider::append_data(wsrep::ws_handle& h, const wsrep::const_buffer& b)
{
    Trx* t = w.find_trx(h.transaction_id().get());
    VF_CHECK(t, "data appended to an unknown transaction");
    vf::point("append_data");
    if (vf::env_if(w.cfg.append_fail, 2, "append_data fails"))
    {
        ++t->faults;
        t->ok_errs.insert({t->client->stage == Client::st_commit && !t->xa
                               ? wsrep::e_size_exceeded_error : wsrep::e_error_during_commit, -1});
        t->ok_errs.insert({wsrep::e_error_during_commit, -1});
        return error_warning;
    }
    t->known = true;
    t->released = false;
    t->pdata += str(b);
    return success;
}

static void check_piece(World& w, Trx& t, int flags)
{
    Client& c = *t.client;
    // C17: flags, keys and data of a locally originated piece
    const bool first = t.frags_ok == 0;
    VF_CHECK(!!(flags & F::start) == first,
             "piece of transaction %llu replicated with flags 0x%x after %d earlier pieces", t.id,
             flags, t.frags_ok);
    const bool is_commit = c.stage == Client::st_commit && !(t.xa && !t.xa_prepared);
    VF_CHECK(!!(flags & F::commit) == is_commit,
             "piece of transaction %llu carries flags 0x%x but commit stage is %d", t.id, flags,
             is_commit);
    const bool is_prep = t.xa && !t.xa_prepared
        && (c.stage == Client::st_prepare || c.stage == Client::st_commit);
    VF_CHECK(!!(flags & F::prepare) == is_prep,
             "piece of transaction %llu carries flags 0x%x but prepare stage is %d", t.id, flags,
             is_prep);
    VF_CHECK(!(flags & F::rollback), "piece of transaction %llu carries rollback flag", t.id);
    const bool must_unsafe = is_prep || (is_commit && t.frags_ok > 0) || c.want_pa_unsafe;
    VF_CHECK(!!(flags & F::pa_unsafe) == must_unsafe,
             "piece of transaction %llu carries flags 0x%x, pa_unsafe expected %d", t.id, flags,
             must_unsafe);
    VF_CHECK(!!(flags & F::implicit_deps) == c.want_implicit,
             "piece of transaction %llu carries flags 0x%x, implicit_deps expected %d", t.id,
             flags, c.want_implicit);
    VF_CHECK(!(flags & ~(F::start | F::commit | F::prepare | F::pa_unsafe | F::implicit_deps)),
             "piece of transaction %llu carries unexpected flags 0x%x", t.id, flags);
    // keys: everything the session appended since the last piece must be in this one
    if ((is_commit && t.frags_ok > 0 && !t.xa) || is_prep)
    {
        for (auto& k : t.all_keys)
        {
            // first two parts
            std::string s = k.s;
            size_t a = s.find('/');
            size_t b = a == std::string::npos ? a : s.find('/', a + 1);
            if (a == std::string::npos) continue;
            if (b != std::string::npos) s = s.substr(0, b);
            bool found = false;
            for (auto& p : t.pkeys)
                found |= (p.s == s && p.type == (int)wsrep::key::shared);
            VF_CHECK(found, "final piece of streaming transaction %llu lacks key %s", t.id,
                     s.c_str());
        }
    }
    // data
    std::string d;
    for (int i : t.pieces)
        if (w.order[i].verdict == 1 && w.order[i].key.second == t.id) d += w.order[i].data;
    d += t.pdata;
    d.erase(std::remove(d.begin(), d.end(), '\0'), d.end()); // empty prepare fragment
    VF_CHECK(t.written.compare(0, d.size(), d) == 0,
             "pieces of transaction %llu carry '%s' which is not what the session wrote '%s'",
             t.id, d.c_str(), t.written.c_str());
    if (is_commit || is_prep)
        VF_CHECK(d == t.written,
                 "pieces of transaction %llu carry '%s' but the session wrote '%s'", t.id,
                 d.c_str(), t.written.c_str());
    // C06: a pending rollback notification goes out before any new piece
    if (!(is_commit && t.xa))
        for (auto& p : w.pending_rb)
            VF_CHECK(!(p.visible && p.visible < c.op_serial),
                     "transaction %llu replicated a piece while the rollback of transaction %llu"
                     " is still waiting to be announced", t.id, p.id);
}

Status Provider::certify(wsrep::client_id cid, wsrep::ws_handle& h, int flags,
                         wsrep::ws_meta& meta, const seq_cb_t* cb)
{
    vf::point("certify");
    // decision by xid for a transaction owned by somebody else
    if (!meta.transaction_id().is_undefined()
        && !(meta.transaction_id() == h.transaction_id()))
    {
        TrxKey k(meta.server_id(), meta.transaction_id().get());
        VF_CHECK(flags == (F::commit | F::pa_unsafe) || flags == (F::rollback | F::pa_unsafe),
                 "decision by xid replicated with flags 0x%x", flags);
        if (!w.primary || vf::env_if(!w.cfg.cert_faults.empty() && !w.replay_commit, 2,
                                     "decision by xid fails"))
            return error_connection_failed;
        if (Trx* d = k.first == w.own_id ? w.find_trx(k.second) : nullptr)
        {
            VF_CHECK(d->xa_asked == ((flags & F::commit) ? 1 : 2),
                     "prepared transaction %llu decided without being asked to", d->id);
            VF_CHECK(++d->xa_decisions == 1, "prepared transaction %llu decided twice", d->id);
        }
        Piece& p = w.add_piece(k, flags, "", false);
        p.verdict = 1;
        WS ws; ws.key = k; ws.client = cid.get(); ws.seqno = p.seqno; ws.flags = flags;
        w.queue.push_back(ws);
        if (Trx* t = w.find_trx(h.transaction_id().get()))
        {
            t->commit_seqno = p.seqno; t->no_provider = true; t->known = true;
            t->released = false;
        }
        meta = wsrep::ws_meta(make_gtid(p.seqno),
                              wsrep::stid(k.first, wsrep::transaction_id(k.second), cid),
                              wsrep::seqno(p.seqno - 1), flags);
        return success;
    }
    Trx* t = w.find_trx(h.transaction_id().get());
    VF_CHECK(t, "unknown transaction certified");
    VF_CHECK(!t->commit_seqno, "transaction %llu certified after its commit was ordered", t->id);
    VF_CHECK(!t->rb_sent && !t->rb_pending,
             "transaction %llu replicates a piece after its rollback was announced", t->id);
    const bool is_commit = flags & F::commit;
    // commit in one phase: prepared on the way
    if (t->xa && is_commit && t->xa_prep_piece && t->client->stage == Client::st_commit)
        t->xa_prepared = true;
    check_piece(w, *t, flags);
    ++t->pieces_tried;
    t->known = true;
    t->released = false;
    const auto& faults = is_commit ? w.cfg.cert_faults : w.cfg.frag_faults;
    int f = faults.empty() ? 0 : vf::env((int)faults.size() + 1, "certify fault");
    auto note = [&](Status st) {
        ++t->faults;
        if (is_commit)
        {
            if (st == error_certification_failed) t->ok_errs.insert({wsrep::e_deadlock_error, -1});
            else t->ok_errs.insert({wsrep::e_error_during_commit, (int)st});
        }
        else if (st == error_size_exceeded)
            t->ok_errs.insert({wsrep::e_size_exceeded_error, (int)st});
        else
            t->ok_errs.insert({wsrep::e_deadlock_error, -1});
        if (st == error_fatal) w.node_failed = t->fatal = true;
    };
    auto drop = [&]() { t->pdata.clear(); t->pkeys.clear(); };
    if (!w.primary)
    {
        note(error_connection_failed);
        drop();
        return error_connection_failed;
    }
    if (f > 0 && !faults[f - 1].ordered)
    {
        note(faults[f - 1].st);
        drop();
        return faults[f - 1].st;
    }
    if (t->aborted)
    {
        // interrupted before it was ordered
        ++t->faults;
        t->ok_errs.insert({wsrep::e_deadlock_error, -1});
        drop();
        t->ps = Trx::p_fail;
        if (w.cfg.conn_fail_on_abort && vf::env(2, "connection failed instead of abort"))
            return error_connection_failed;
        return error_certification_failed;
    }
    TrxKey k(w.own_id, t->id);
    Piece& p0 = w.add_piece(k, flags, t->pdata, true);
    const long seqno = p0.seqno;
    p0.keys = t->pkeys;
    t->pieces.push_back((int)seqno - 1);
    t->seqno = seqno;
    t->ps = Trx::p_repl;
    t->entered = false;
    t->commit_piece = is_commit;
    if (!is_commit) ++t->pieces_frag;
    else
    {
        t->commit_seqno = seqno;
        if (t->xa)
            VF_CHECK(++t->xa_decisions == 1, "prepared transaction %llu decided twice", t->id);
    }
    drop();
    meta = wsrep::ws_meta(make_gtid(seqno),
                          wsrep::stid(w.own_id, wsrep::transaction_id(t->id), cid),
                          wsrep::seqno(seqno - 1), flags);
    vf::trace("  [provider] trx %llu ordered at %ld flags 0x%x", t->id, seqno, flags);
    // a streaming transaction whose rows are claimed by a preceding total order operation does
    // not pass certification
    bool toi_conflict = false;
    if (!is_commit || (t->frags_ok > 0 && !t->xa))
        for (auto& o : w.order)
            if (o.seqno < seqno && (o.flags & F::isolation) && !o.passed())
                for (char r : t->client->se.rows)
                    toi_conflict |= o.data.find(r) != std::string::npos;
    // the certification index is reset when the primary component is formed anew
    if (t->frags_ok > 0 && w.order[t->pieces[0]].seqno < w.cert_floor) toi_conflict = true;
    if (cb) cb->fn(cb->ctx);
    vf::point("replicated");
    Piece& p = w.piece(seqno);
    if (t->aborted)
    {
        if (toi_conflict) p.verdict = 2;
        if (!is_commit)
        {
            p.cancelled = true; p.verdict = 2; ++t->faults; t->ps = Trx::p_fail;
            // the verdict is not known to the caller: the fragment may live elsewhere
        }
        return error_bf_abort;
    }
    if (toi_conflict)
    {
        note(error_certification_failed);
        p.verdict = 2;
        t->ps = Trx::p_fail;
        if (!is_commit) p.cancelled = true;
        return error_certification_failed;
    }
    if (f > 0)
    {
        note(faults[f - 1].st);
        p.verdict = 2;
        t->ps = Trx::p_fail;
        if (!is_commit) p.cancelled = true;
        return faults[f - 1].st;
    }
    p.verdict = 1;
    t->ps = Trx::p_cert;
    if (!is_commit)
    {
        ++t->frags_ok;
        t->frag_pending = true;
        t->client->want_pa_unsafe = false;
        if (flags & F::prepare) t->xa_prep_piece = true;
    }
    return success;
}

Status Provider::bf_abort(wsrep::seqno bf, wsrep::transaction_id id, wsrep::client_service&,
                          wsrep::seqno& victim)
{
    Trx* t = w.find_trx(id.get());
    victim = wsrep::seqno::undefined();
    if (!t) return success;
    auto refuse = [&]() { ++t->prov_refuse; return error_not_allowed; };
    auto accept = [&]() {
        ++t->prov_accept;
        ++t->bf_accepted;
        if (t->client->cs.transaction().bf_aborted_in_total_order()) t->to_abort = true;
        if (t->hook_returned) t->late_abort = true;
        vf::trace("  [provider] trx %llu BF aborted by %lld", t->id, (long long)bf.get());
        return success;
    };
    if (!t->known) return accept();
    if (w.cfg.abort_refuse && !t->seqno && vf::env(2, "provider refuses abort")) return refuse();
    if (t->ps == Trx::p_fail) return refuse();
    if (t->entered && t->commit_piece && !t->hook_returned) return refuse();
    if (!(t->entered && t->commit_piece) && t->ps != Trx::p_exec && t->seqno
        && t->seqno < bf.get() && t->commit_piece)
        return refuse();
    victim = wsrep::seqno(t->seqno ? t->seqno : -1);
    t->aborted = true;
    return accept();
}

void Provider::cancel_fragments(Trx& t)
{
    for (int i : t.pieces)
    {
        Piece& p = w.order[i];
        if (p.flags & F::commit) continue;
        if (!p.passed() && !p.entered) p.cancelled = true;
    }
}

Status Provider::rollback(wsrep::transaction_id id)
{
    vf::point("provider.rollback");
    Trx* t = w.find_trx(id.get());
    VF_CHECK(t, "rollback announced for an unknown transaction");
    VF_CHECK(t->rb_sent == 0, "rollback of transaction %llu announced twice", t->id);
    auto it = w.pending_rb.begin();
    for (; it != w.pending_rb.end(); ++it) if (it->id == t->id) break;
    if (!w.primary || vf::env_if(w.cfg.rollback_fail, 2, "provider.rollback fails"))
    {
        ++rb_fails;
        if (it == w.pending_rb.end())
            w.pending_rb.push_back({t->id, vf::self(), 0, w.serial++});
        else
            for (auto& c : w.clients)
                if (c->operated_by == vf::self() && c->trx && c->trx != t)
                {
                    ++c->trx->faults;
                    c->trx->ok_errs.insert({wsrep::e_deadlock_error, -1});
                    c->trx->ok_errs.insert({wsrep::e_error_during_commit, -1});
                }
        t->rb_pending = true;
        return error_connection_failed;
    }
    if (it != w.pending_rb.end())
    {
        for (auto& o : w.pending_rb)
            VF_CHECK(!(o.visible && o.visible < it->added),
                     "queued rollback of transaction %llu announced before the earlier %llu",
                     t->id, o.id);
        w.pending_rb.erase(it);
    }
    t->rb_pending = false;
    ++t->rb_sent;
    rb_log.push_back(t->id);
    cancel_fragments(*t);
    if (t->xa && t->xa_prepared)
    {
        VF_CHECK(t->xa_asked == 2,
                 "rollback of prepared transaction %llu announced without being asked to", t->id);
        VF_CHECK(++t->xa_decisions == 1, "prepared transaction %llu decided twice", t->id);
    }
    TrxKey k(w.own_id, t->id);
    Piece& p = w.add_piece(k, F::rollback | F::pa_unsafe, "", false);
    p.verdict = 1;
    WS ws; ws.key = k; ws.client = t->client ? t->client->id : 0; ws.seqno = p.seqno;
    ws.flags = p.flags;
    w.queue.push_back(ws);
    vf::trace("  [provider] rollback of %llu announced at %ld", t->id, p.seqno);
    return success;
}

Status Provider::commit_order_enter(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
{
    vf::point("commit_order_enter");
    VF_CHECK(m.ordered(), "commit order entered without a position");
    const long s = m.seqno().get();
    VF_CHECK(s >= 1 && s <= (long)w.order.size(), "commit order entered for bogus seqno %ld", s);
    {
        Piece& p = w.piece(s);
        VF_CHECK(p.key.second == m.transaction_id().get() && p.key.first == m.server_id(),
                 "commit order of seqno %ld entered by %s instead of %s", s,
                 show(TrxKey(m.server_id(), m.transaction_id().get())).c_str(),
                 show(p.key).c_str());
        VF_CHECK(!p.entered, "commit order of seqno %ld entered twice", s);
        VF_CHECK(!p.cancelled, "commit order of seqno %ld entered after it was cancelled", s);
        if (p.local)
            VF_CHECK(h.transaction_id().get() == p.key.second,
                     "commit order of seqno %ld entered with a foreign handle", s);
    }
    Trx* t = w.piece(s).local ? w.find_trx(w.piece(s).key.second) : nullptr;
    auto interrupted = [=]() {
        return t && t->ps == Trx::p_cert && t->aborted && t->seqno == s;
    };
    vf::block_until([=]() { return interrupted() || w.all_passed_before(s); }, "commit order");
    if (interrupted())
    {
        if (!(w.piece(s).flags & F::commit))
        {
            if (w.all_passed_before(s) && vf::pick(2, "fragment of aborted trx enters"))
            {
                w.piece(s).entered = true;
                return success;
            }
            w.piece(s).cancelled = true;
            ++t->faults;
        }
        return error_bf_abort;
    }
    w.piece(s).entered = true;
    if (t) t->entered = true;
    vf::trace("  [provider] seqno %ld entered commit order", s);
    return success;
}

int Provider::commit_order_leave(const wsrep::ws_handle&, const wsrep::ws_meta& m,
                                 const wsrep::mutable_buffer& err)
{
    vf::point("commit_order_leave");
    VF_CHECK(m.ordered(), "commit order left without a position");
    const long s = m.seqno().get();
    VF_CHECK(s >= 1 && s <= (long)w.order.size(), "commit order left for bogus seqno %ld", s);
    Piece& p = w.piece(s);
    VF_CHECK(p.entered && !p.left, "commit order of seqno %ld left while not inside", s);
    if (!(p.flags & F::isolation))
        VF_CHECK(p.se_commits || p.recorded, "position %ld left without being recorded", s);
    p.left = true;
    p.err = std::string(err.data() ? err.data() : "", err.size());
    vf::trace("  [provider] seqno %ld left commit order", s);
    if (err.size() > 0) return vote = vf::pick(2, "vote");
    if (p.local && !(p.flags & F::commit) && vf::env_if(w.cfg.leave_fail, 2, "leave fails"))
    {
        Trx* t = w.find_trx(p.key.second);
        ++t->faults;
        t->ok_errs.insert({wsrep::e_deadlock_error, -1});
        t->frag_pending = false;
        return 1;
    }
    return 0;
}

int Provider::release(wsrep::ws_handle& h)
{
    vf::point("provider.release");
    if (h.transaction_id().is_undefined()) return 0;
    Trx* t = w.find_trx(h.transaction_id().get());
    VF_CHECK(t, "unknown transaction released");
    if (t->frag_pending && w.piece(t->seqno).passed() && !t->rb_sent && t->client->se.active)
    {
        t->frag_pending = false;
        t->ps = Trx::p_exec;
        if (vf::env_if(w.cfg.release_fail, 2, "release fails"))
        {
            ++t->faults;
            t->ok_errs.insert({wsrep::e_deadlock_error, -1});
            return 1;
        }
        return 0;
    }
    if (t->commit_seqno && !t->no_provider)
        VF_CHECK(w.piece(t->commit_seqno).passed(),
                 "transaction %llu released before its position %ld was left", t->id,
                 t->commit_seqno);
    t->known = false;
    t->released = true;
    t->frag_pending = false;
    return 0;
}

Status Provider::replay(const wsrep::ws_handle& h, wsrep::high_priority_service* hps)
{
    vf::point("provider.replay");
    Trx* t = w.find_trx(h.transaction_id().get());
    VF_CHECK(t, "replay of an unknown transaction");
    VF_CHECK(t->commit_seqno, "replay of transaction %llu which was not ordered for commit",
             t->id);
    const long s = t->commit_seqno;
    VF_CHECK(!w.piece(s).entered, "replay of transaction %llu after it entered commit order",
             t->id);
    t->aborted = false;
    if (w.piece(s).verdict == 0)
        w.piece(s).verdict = (w.cfg.replay_choice && vf::env(2, "replay certification")) ? 2 : 1;
    ++t->replays;
    if (w.piece(s).verdict == 2)
    {
        t->ps = Trx::p_fail;
        t->ok_errs.insert({wsrep::e_deadlock_error, -1});
        return error_certification_failed;
    }
    t->ps = Trx::p_cert;
    // applied only after everything it may depend on
    vf::block_until([=]() { return w.all_passed_before(s); }, "apply order");
    const Piece p = w.piece(s);
    wsrep::ws_meta meta(make_gtid(s),
                        wsrep::stid(w.own_id, wsrep::transaction_id(t->id),
                                    wsrep::client_id(t->client->id)),
                        wsrep::seqno(s - 1), p.flags);
    int ret = hps->apply(h, meta, wsrep::const_buffer(p.data.data(), p.data.size()));
    VF_CHECK(ret == 0, "replay of certified transaction %llu failed", t->id);
    return success;
}

Status Provider::enter_toi(wsrep::client_id cid, const wsrep::key_array&,
                           const wsrep::const_buffer& buf, wsrep::ws_meta& meta, int flags)
{
    vf::point("enter_toi");
    ++toi_calls;
    CertFault f{success, false};
    if (toi_fn) f = toi_fn(toi_calls);
    if (f.st != success && !f.ordered) { meta = wsrep::ws_meta(); return f.st; }
    const long ref = meta.seqno().get();
    Piece& p = w.add_piece(TrxKey(w.own_id, 0), flags | F::isolation, str(buf), true);
    p.verdict = f.st == success ? 1 : 2;
    const long s = p.seqno;
    meta = wsrep::ws_meta(make_gtid(s), wsrep::stid(w.own_id, wsrep::transaction_id(), cid),
                          wsrep::seqno(s - 1), flags | F::isolation);
    vf::point("toi replicated");
    vf::block_until([=]() { return w.all_passed_before(s); }, "toi order");
    w.piece(s).entered = true;
    tois.push_back({s, cid.get(), flags, true, ref, str(buf)});
    VF_CHECK(++in_toi_now == 1, "two total order operations at the same time");
    return f.st;
}
Status Provider::leave_toi(wsrep::client_id cid, const wsrep::ws_meta& meta,
                           const wsrep::mutable_buffer& err)
{
    vf::point("leave_toi");
    const long s = meta.seqno().get();
    Toi* t = nullptr;
    for (auto& x : tois) if (x.seqno == s && x.in) t = &x;
    VF_CHECK(t, "leave_toi for seqno %ld which is not a total order operation in progress", s);
    VF_CHECK(t->client == cid.get(), "leave_toi of seqno %ld by another client", s);
    t->in = false;
    --in_toi_now;
    w.piece(s).left = true;
    w.piece(s).err = std::string(err.data() ? err.data() : "", err.size());
    return leave_toi_fn ? leave_toi_fn() : success;
}
std::pair<wsrep::gtid, Status> Provider::causal_read(int t) const
{
    if (causal_fn) return causal_fn(t);
    return {make_gtid((long)w.order.size()), success};
}
Status Provider::sst_sent(const wsrep::gtid& g, int e)
{
    sst_sents.push_back({g, e});
    return sst_sent_fn ? sst_sent_fn() : success;
}
Status Provider::sst_received(const wsrep::gtid& g, int e)
{
    sst_recvs.push_back({g, e});
    return sst_received_fn ? sst_received_fn() : success;
}

// ------------------------------------------------------------------ server service
wsrep::storage_service* ServerService::storage_service(wsrep::client_service& cs)
{
    w.storages.emplace_back(new Storage(w, &cs));
    return w.storages.back().get();
}
wsrep::storage_service* ServerService::storage_service(wsrep::high_priority_service&)
{
    w.storages.emplace_back(new Storage(w, nullptr));
    return w.storages.back().get();
}
static void close_hp(Client* c)
{
    c->cs.acquire_ownership();
    c->cs.after_command_before_result();
    c->cs.after_command_after_result();
    c->cs.close();
    c->cs.cleanup();
    c->opened = false;
}
void ServerService::release_storage_service(wsrep::storage_service* s)
{
    Storage* st = static_cast<Storage*>(s);
    st->alive("release");
    VF_CHECK(!st->c->cs.transaction().active(),
             "storage service released with transaction %s still open",
             show(st->key).c_str());
    VF_CHECK(!st->c->se.active, "storage service of %s released with open storage transaction",
             show(st->key).c_str());
    st->released = true;
    close_hp(st->c);
    if (w.cfg.requires_globals) w.set_globals(nullptr);
}
wsrep::high_priority_service* ServerService::streaming_applier_service(wsrep::client_service&)
{
    return w.new_hps("sa-local");
}
wsrep::high_priority_service*
ServerService::streaming_applier_service(wsrep::high_priority_service&)
{
    return w.new_hps("sa-remote");
}
void ServerService::release_high_priority_service(wsrep::high_priority_service* h)
{
    Hps* x = static_cast<Hps*>(h);
    x->alive("release");
    VF_CHECK(!x->c->cs.transaction().active(),
             "applier service of %s released while its transaction is open",
             show(x->key).c_str());
    VF_CHECK(!x->c->se.active, "applier service of %s released with open storage transaction",
             show(x->key).c_str());
    x->released = true;
    close_hp(x->c);
    w.set_globals(nullptr);
}
void ServerService::background_rollback(Lock& lock, wsrep::client_state& cs)
{
    VF_CHECK(lock.owns_lock(), "background_rollback without lock");
    Client* c = w.by_state[&cs];
    Hps* h = nullptr;
    for (auto& x : w.hps) if (x->c == c && !x->released) h = x.get();
    for (auto& j : w.rb_queue)
        VF_CHECK(j.c != c, "client %llu given to the rollbacker twice", c->id);
    lock.unlock();
    w.rb_queue.push_back({c, h});
    vf::point("background_rollback");
    lock.lock();
}
void ServerService::recover_streaming_appliers(wsrep::client_service&) { recover(nullptr); }
void ServerService::recover_streaming_appliers(wsrep::high_priority_service& h)
{
    recover(static_cast<Hps*>(&h));
}
void ServerService::recover(Hps* orig)
{
    ++recoveries;
    vf::point("recover");
    if (on_recover) on_recover();
    for (auto& kv : w.frags)
    {
        if (kv.second.empty()) continue;
        wsrep::transaction_id tid(kv.first.second);
        if (w.server->find_streaming_applier(kv.first.first, tid)) continue;
        Hps* sa = w.new_hps("sa-recovered");
        w.server->start_streaming_applier(kv.first.first, tid, sa);
        if (orig) orig->reset_globals();
        sa->store_globals();
        bool first = true;
        for (auto& f : kv.second)
        {
            wsrep::ws_meta m(make_gtid(f.seqno),
                             wsrep::stid(kv.first.first, tid, wsrep::client_id(0)),
                             wsrep::seqno(f.seqno - 1), f.flags);
            if (first) sa->start_transaction(wsrep::ws_handle(tid, 0), m);
            else sa->next_fragment(m);
            first = false;
            wsrep::mutable_buffer err;
            sa->apply_write_set(m, wsrep::const_buffer(f.data.data(), f.data.size()), err);
            sa->after_apply();
        }
        sa->reset_globals();
        if (orig) orig->store_globals();
    }
}
void ServerService::set_position(wsrep::client_service&, const wsrep::gtid& g)
{
    const long s = g.seqno().get();
    VF_CHECK(s >= 1 && s <= (long)w.order.size() && w.piece(s).entered && !w.piece(s).left,
             "position %ld set outside of the commit order", s);
    VF_CHECK(position.is_undefined() || position.seqno() < g.seqno(), "position goes back");
    position = g;
    w.piece(s).recorded = true;
}
void ServerService::log_state_change(enum wsrep::server_state::state a,
                                     enum wsrep::server_state::state b)
{
    changes.push_back({(int)a, (int)b});
    if (on_state_change) on_state_change((int)a, (int)b);
}
bool ServerService::sst_before_init() const { return w.cfg.sst_before_init; }

Server::Server(World& w, SMutex& m, SCond& c, ServerService& ss)
    : wsrep::server_state(m, c, ss, nullptr, "s1", "", "", "./", wsrep::gtid::undefined(), 1,
                          w.cfg.rm)
    , mtx(m)
{ }

// ------------------------------------------------------------------ client
Client::Client(World& w_, unsigned long long i, enum wsrep::client_state::mode m)
    : w(w_), id(i), hp(m == wsrep::client_state::m_high_priority), cs(*w.server, *this, i, m)
{ }

bool Client::interrupted(Lock& l) const
{
    VF_CHECK(l.owns_lock(), "interrupted() called without lock");
    if (trx && trx->interrupted) return true;
    if (trx && w.cfg.interrupt && vf::env(2, "interrupted"))
    {
        trx->interrupted = true;
        trx->ok_errs.insert({wsrep::e_interrupted_error, -1});
        return true;
    }
    return interrupt_now;
}
void Client::reset_globals() { if (!hp || context()) w.set_globals(nullptr); }
void Client::store_globals()
{
    // the context of a high priority session is that of the service which operates it
    const void* g = hp ? context() : this;
    if (g) w.set_globals(g);
}
const void* Client::context() const
{
    for (auto& h : w.hps) if (h->c == this && !h->released) return h.get();
    return service;
}
int Client::prepare_data_for_replication()
{
    vf::point("prepare_data");
    if (vf::env_if(w.cfg.data_fail, 2, "prepare_data fails"))
    {
        ++trx->faults;
        trx->ok_errs.insert({wsrep::e_size_exceeded_error, (int)P::error_size_exceeded});
        return 1;
    }
    std::string d = trx->written.substr(sent_pos);
    if (d.empty()) return 0;
    if (cs.append_data(wsrep::const_buffer(d.data(), d.size())))
    {
        trx->ok_errs.insert({wsrep::e_size_exceeded_error, (int)P::error_size_exceeded});
        return 1;
    }
    sent_pos = trx->written.size();
    return 0;
}
void Client::cleanup_transaction()
{
    VF_CHECK(operated_by == -1 || operated_by == vf::self(),
             "transaction of client %llu cleaned up by %s while operated by another thread", id,
             vf::self_name());
    bytes = 0;
    sent_pos = 0;
}
bool Client::statement_allowed_for_streaming() const
{
    if (vf::env_if(w.cfg.not_allowed_streaming, 2, "not allowed for streaming"))
    {
        ++trx->faults;
        trx->ok_errs.insert({wsrep::e_error_during_commit, (int)P::error_not_allowed});
        return false;
    }
    return true;
}
int Client::prepare_fragment_for_replication(wsrep::mutable_buffer& b, size_t& pos)
{
    vf::point("prepare_fragment");
    if (vf::env_if(w.cfg.data_fail, 2, "prepare_fragment fails"))
    {
        ++trx->faults;
        trx->ok_errs.insert({wsrep::e_error_during_commit, -1});
        return 1;
    }
    if (vf::env_if(w.cfg.empty_fragment, 2, "empty fragment"))
    {
        pos = sent_pos;
        return 0;
    }
    std::string d = trx->written.substr(sent_pos);
    if (w.cfg.partial_fragment && !whole_fragment && d.size() > 1) d.resize(1);
    sent_pos += d.size();
    if (trx->xa && d.empty()) d += '\0';
    b.push_back(d);
    pos = sent_pos;
    return 0;
}
int Client::remove_fragments()
{
    vf::point("remove_fragments");
    VF_CHECK(trx, "fragments removed without transaction");
    VF_CHECK(w.cur_globals() == this, "fragments removed with foreign thread context");
    if (vf::env_if(w.cfg.remove_frag_fail, 2, "remove_fragments fails"))
    {
        ++trx->faults;
        trx->ok_errs.insert({wsrep::e_deadlock_error, -1});
        return 1;
    }
    TrxKey k(w.own_id, trx->id);
    const bool in_trx = se.active;
    for (auto s : cs.transaction().streaming_context().fragments())
        se.removes.push_back({k, s.get()});
    if (!in_trx)
    {
        // after a failed replay: executed in a transaction of its own
        for (auto& r : se.removes)
        {
            auto& v = w.frags[r.first];
            for (size_t i = 0; i < v.size(); ++i)
                if (v[i].seqno == r.second) { v.erase(v.begin() + i); break; }
            if (v.empty()) w.frags.erase(r.first);
        }
        se.removes.clear();
    }
    return 0;
}
int Client::do_rollback()
{
    VF_CHECK(operated_by == -1 || operated_by == vf::self(),
             "client %llu rolled back by %s while operated by another thread", id,
             vf::self_name());
    const int prev = operated_by;
    operated_by = vf::self();
    int ret = cs.before_rollback();
    se.rollback();
    ret = cs.after_rollback() || ret;
    operated_by = prev;
    return ret;
}
int Client::bf_rollback()
{
    VF_CHECK(!hp, "bf_rollback of a high priority client");
    return do_rollback();
}
void Client::emergency_shutdown()
{
    ++shutdowns;
    VF_CHECK(w.node_failed, "emergency shutdown without fatal provider failure");
    vf::stop_execution("emergency shutdown");
}
void Client::will_replay()
{
    if (!hp) ++w.replayers;
}
void Client::signal_replayed()
{
    if (hp) return;
    VF_CHECK(w.replayers > 0, "more replays signalled than announced");
    --w.replayers;
}
Status Client::replay()
{
    VF_CHECK(trx, "replay without transaction");
    VF_CHECK(!se.active, "transaction %llu replayed before it was rolled back", trx->id);
    VF_CHECK(w.cur_globals() == this, "replay with foreign thread context");
    Status ret;
    if (w.cfg.replay_style == 0)
    {
        Client* r = w.new_client(wsrep::client_state::m_high_priority);
        r->trx = nullptr;
        r->cs.open(wsrep::client_id(r->id));
        r->cs.before_command();
        r->cs.clone_transaction_for_replay(cs.transaction());
        {
            Hps h(w, r, true, "replayer");
            r->service = &h;
            w.set_globals(&h);
            ret = w.provider->replay(cs.transaction().ws_handle(), &h);
            if (r->cs.transaction().active()) r->cs.after_applying();
            if (r->se.active) r->se.rollback();
            close_hp(r);
            r->service = nullptr;
            h.released = true;
        }
        w.set_globals(nullptr);
        w.set_globals(this);
    }
    else
    {
        wsrep::high_priority_context ctx(cs);
        Hps h(w, this, true, "replayer-own");
        service = &h;
        w.set_globals(&h);
        hp = true;
        ret = w.provider->replay(cs.transaction().ws_handle(), &h);
        if (se.active) { Trx* t = trx; trx = nullptr; se.rollback(); trx = t; }
        hp = false;
        service = nullptr;
        h.released = true;
        w.set_globals(this);
    }
    if (ret == P::success) explicit_xa = false;
    return ret;
}
Status Client::replay_unordered()
{
    vf::point("replay_unordered");
    Hps* sa = static_cast<Hps*>(
        w.server->find_streaming_applier(w.own_id, wsrep::transaction_id(trx->id)));
    VF_CHECK(sa, "prepared transaction %llu has no applier after conversion", trx->id);
    reset_globals();
    sa->store_globals();
    // re-execute the stored fragments, then back to prepared state
    TrxKey k(w.own_id, trx->id);
    VF_CHECK(w.frags.count(k), "prepared transaction %llu has no stored fragments", trx->id);
    sa->c->se.data.clear();
    for (auto& f : w.frags[k]) { sa->c->se.data += f.data; ++sa->c->se.applied; }
    sa->key = k;
    sa->c->cs.restore_xid(cs.transaction().xid());
    VF_CHECK(trx->xa_prepared || (trx->xa_prep_piece && !trx->rb_sent && !trx->rb_pending),
             "transaction %llu replayed as prepared although it was not",
             trx->id);
    trx->xa_prepared = true;
    trx->detached = true;
    explicit_xa = false;
    sa->reset_globals();
    store_globals();
    return P::success;
}
void Client::wait_for_replayers(Lock& l)
{
    VF_CHECK(l.owns_lock(), "wait_for_replayers without lock");
    if (w.replayers == 0) return;
    l.unlock();
    vf::block_until([this]() {
        return w.replayers == 0 || tstate() == T::s_must_abort || tstate() == T::s_aborting;
    }, "replayers");
    l.lock();
}
Status Client::commit_by_xid()
{
    vf::point("commit_by_xid");
    Client* c = w.new_client();
    wsrep::xid x = cs.transaction().xid();
    const void* g = w.cur_globals();
    c->open();
    int err = 0;
    c->command([&]() {
        w.replay_commit = true;
        err = c->by_xid(x, true);
        w.replay_commit = false;
        return err;
    });
    c->close();
    w.set_globals(g);
    return err ? P::error_connection_failed : P::success;
}

// ------------------------------------------------------------------ session program
void Client::open()
{
    cs.open(wsrep::client_id(id));
    VF_CHECK(cs.last_written_gtid().is_undefined(), "fresh session has a last written position");
    expect_last_written = 0;
    opened = true;
    w.set_globals(this);
}
void Client::close()
{
    op_serial = w.serial++;
    w.set_globals(this);
    const bool prepared = trx && is_prepared_xa() && tstate() == T::s_prepared;
    cs.close();
    (void)prepared;
    if (trx)
    {
        Result r;
        r.ran = false;
        r.err = cs.current_error();
        r.body = -1;
        if (!cs.transaction().active()) finish_trx(r);
        else if (is_prepared_xa())
        {
            vf::point("detach");
            cs.xa_detach();
            trx->detached = true;
            trx->done = true;
            xa_check_prepared();
            trx->done = true;
            if (se.active) { se.clear(); se.release_rows(); }
            trx = nullptr;
        }
        else vf::fail("transaction %llu still open after close", trx->id);
    }
    cs.cleanup();
    VF_CHECK(w.cur_globals() == this, "thread context of client %llu lost after close", id);
    w.make_visible();
    opened = false;
}
Result Client::command(std::function<int()> body, bool keep)
{
    Result r;
    vf::point("command");
    const int err = cs.before_command(keep);
    op_serial = w.serial++;
    if (err && trx && trx->xa)
    {
        trx->xa_err = true;
        if (xa_rollback_cmd && tstate() == T::s_aborted)
        {
            explicit_xa = false;
            trx->voluntary_rb = true;
            cs.after_statement();
        }
    }
    xa_check_prepared();
    VF_CHECK(operated_by == -1, "client %llu starts a command while operated by another thread",
             id);
    VF_CHECK(!cs.transaction().active() || tstate() != T::s_aborting,
             "client %llu got control while its rollback is in progress", id);
    operated_by = vf::self();
    trx_in_cmd = trx != nullptr;
    if (trx && trx->xa_prepared) trx->interrupted = false; // concerns one statement
    cmd_err = kept_err;
    kept_err = wsrep::e_success;
    if (err == 0)
    {
        if (!keep)
        {
            const int st = cs.before_statement();
            if (st == 0)
            {
                r.ran = true;
                r.body = body ? body() : 0;
            }
            if (st == 0 || !w.cfg.mariadb_stmt) cs.after_statement();
        }
        else if (body)
        {
            r.ran = true;
            r.body = body();
        }
    }
    stage = st_none;
    cs.after_command_before_result();
    r.err = cs.current_error();
    r.status = cs.current_error_status();
    if (trx && r.err != wsrep::e_success) trx->xa_err = true;
    xa_check_prepared();
    keeping = keep;
    check_result(r);
    results.push_back(r);
    vf::point("result sent");
    operated_by = -1;
    cs.after_command_after_result();
    VF_CHECK(w.cur_globals() == this, "thread context of client %llu lost after command", id);
    w.make_visible();
    if (trx && trx->detached && !trx_active()) finish_trx(r); // replayed after the result
    return r;
}
int Client::begin()
{
    VF_CHECK(!trx, "begin inside a transaction");
    w.trxs.emplace_back(new Trx);
    trx = w.trxs.back().get();
    trx_in_cmd = true;
    trx->id = w.next_trx++;
    trx->client = this;
    bytes = 0;
    sent_pos = 0;
    want_pa_unsafe = want_implicit = false;
    int ret = cs.start_transaction(wsrep::transaction_id(trx->id));
    if (ret) { ++trx->faults; }
    se.begin(this, TrxKey(w.own_id, trx->id));
    return ret;
}
int Client::write(char row, const std::string& data)
{
    if (!trx || !trx_active()) return 1;
    if (tstate() != T::s_executing) return 1;
    w.lock_row(row, &se);
    if (!se.rows.count(row)) return 1;
    // rows are spread over schemas and tables; the table itself is referenced now and then
    wsrep::key k(wsrep::key::exclusive), tk(wsrep::key::shared);
    for (wsrep::key* x : {&k, &tk})
    {
        x->append_key_part((row & 2) ? "d" : "e", 1);
        x->append_key_part((row & 1) ? "t" : "u", 1);
    }
    k.append_key_part(&row, 1);
    const size_t nkeys = trx->pkeys.size();
    if (row & 1)
    {
        if (cs.append_key(k)) return 1;
        trx->all_keys.push_back(key_rec(k));
    }
    else
    {
        wsrep::key_array ks;
        ks.push_back(tk);
        ks.push_back(k);
        if (cs.append_keys(ks)) return 1;
        trx->all_keys.push_back(key_rec(tk));
        trx->all_keys.push_back(key_rec(k));
    }
    VF_CHECK(trx->pkeys.size() == nkeys + ((row & 1) ? 1 : 2) && trx->pkeys.back() == key_rec(k),
             "key did not reach the provider");
    se.data += data;
    trx->written += data;
    bytes = trx->written.size();
    ++se.applied;
    vf::point("row written");
    return cs.after_row();
}
int Client::commit()
{
    if (!trx || !trx_active()) return 1;
    stage = st_commit;
    int ret = 0;
    if (w.cfg.two_pc && tstate() == T::s_executing)
    {
        ret = cs.before_prepare();
        ret = ret || cs.after_prepare();
        if (!ret) vf::point("prepared");
    }
    ret = ret || cs.before_commit();
    if (!ret)
    {
        trx->hook_returned = true;
        VF_CHECK(!trx->bf_accepted || trx->replays,
                 "transaction %llu ordered to commit although it was BF aborted", trx->id);
        se.commit(cs.transaction().ws_meta().seqno().get(), "session");
        ret = cs.ordered_commit();
        VF_CHECK(ret == 0, "ordered_commit failed");
        vf::point("ordered committed");
        ret = cs.after_commit();
        VF_CHECK(ret == 0, "after_commit failed");
        stage = st_none;
        return 0;
    }
    switch (tstate())
    {
    case T::s_must_abort:
    case T::s_cert_failed:
        if (w.cfg.lazy_rollback || trx->xa_prepared) break;
        do_rollback();
        break;
    case T::s_must_replay:
    case T::s_executing:
    case T::s_preparing:
        do_rollback();
        break;
    default:
        break;
    }
    return 1;
}
int Client::rollback()
{
    if (!trx || !trx_active()) return 1;
    trx->voluntary_rb = true;
    return do_rollback();
}
int Client::xa_prepare()
{
    if (!trx || !trx_active()) return 1;
    stage = st_prepare;
    int ret = cs.before_prepare();
    ret = ret || cs.after_prepare();
    stage = st_none;
    if (!ret)
    {
        trx->xa_prepared = true;
        se.prepared = true;
        xa_check_prepared();
        return 0;
    }
    switch (tstate())
    {
    case T::s_must_abort: case T::s_cert_failed: case T::s_executing: case T::s_preparing:
        do_rollback();
        break;
    default:
        break;
    }
    return 1;
}
// The prepared transaction of this session must be here or findable by its identifier.
void Client::xa_check_prepared()
{
    if (!xa_trx || !xa_trx->xa_prepared || xa_trx->xa_asked || w.node_failed) return;
    Trx& t = *xa_trx;
    TrxKey k(w.own_id, t.id);
    std::string d;
    if (w.frags.count(k)) for (auto& f : w.frags[k]) d += f.data;
    d.erase(std::remove(d.begin(), d.end(), '\0'), d.end());
    VF_CHECK(d == t.written, "stored fragments of prepared transaction %llu hold '%s', not '%s'",
             t.id, d.c_str(), t.written.c_str());
    VF_CHECK(!w.db.count(k), "prepared transaction %llu committed before the decision", t.id);
    if (trx == &t && trx_active())
    {
        VF_CHECK(tstate() == T::s_prepared || tstate() == T::s_must_abort
                     || tstate() == T::s_must_replay || tstate() == T::s_replaying,
                 "prepared transaction %llu is in state %s before the decision", t.id,
                 wsrep::to_c_string(tstate()));
        return;
    }
    Hps* h = static_cast<Hps*>(w.server->find_streaming_applier(xid));
    VF_CHECK(h, "prepared transaction %llu cannot be found by its identifier", t.id);
    VF_CHECK(h->transaction().state() == T::s_prepared && h->c->se.active,
             "applier of prepared transaction %llu is in state %s", t.id,
             wsrep::to_c_string(h->transaction().state()));
    std::string sd = h->c->se.data;
    sd.erase(std::remove(sd.begin(), sd.end(), '\0'), sd.end());
    VF_CHECK(sd == t.written, "applier of prepared transaction %llu holds '%s', not '%s'", t.id,
             sd.c_str(), t.written.c_str());
}
int Client::xa_decide(bool do_commit)
{
    Trx* x = xa_trx;
    x->xa_asked = do_commit ? 1 : 2;
    if (trx && trx_active())
    {
        int ret;
        if (do_commit) ret = commit();
        else
        {
            xa_rollback_cmd = true;
            ret = rollback();
        }
        if (!ret) explicit_xa = false;
        return ret;
    }
    Hps* h = static_cast<Hps*>(w.server->find_streaming_applier(xid));
    VF_CHECK(h, "prepared transaction %llu cannot be found by its identifier", x->id);
    return by_xid(xid, do_commit);
}
int Client::by_xid(const wsrep::xid& x, bool do_commit)
{
    begin();
    trx->no_provider = true;
    cs.assign_xid(x);
    const int ret = do_commit ? cs.commit_by_xid(x) : cs.rollback_by_xid(x);
    if (ret)
    {
        VF_CHECK(cs.current_error() != wsrep::e_success, "failed decision without error");
        do_rollback();
    }
    else { se.clear(); se.release_rows(); }
    return ret;
}

void Client::check_result(const Result& r)
{
    VF_CHECK(!cs.transaction().active() || tstate() == T::s_executing
                 || tstate() == T::s_prepared || tstate() == T::s_aborted
                 || tstate() == T::s_must_abort || tstate() == T::s_must_replay
                 || tstate() == T::s_aborting || tstate() == T::s_committed,
             "command of client %llu ended in transaction state %s", id,
             wsrep::to_c_string(tstate()));
    if (!trx_in_cmd && !w.node_failed)
        VF_CHECK(r.err == cmd_err, "command of client %llu reports %s instead of %s", id,
                 wsrep::to_c_string(r.err),
                 wsrep::to_c_string((enum wsrep::client_error)cmd_err));
    if (!trx) return;
    if (r.err == wsrep::e_deadlock_error && !keeping && !trx->xa && !w.node_failed)
        VF_CHECK(!cs.transaction().active(),
                 "deadlock reported but transaction %llu is still open", trx->id);
    if (!cs.transaction().active()) finish_trx(r);
    else if (tstate() == T::s_executing && r.ran && !trx->faults && !trx->bf_accepted
             && !trx->interrupted)
        VF_CHECK(r.err == cmd_err,
                 "command of client %llu reports %s instead of %s", id, wsrep::to_c_string(r.err),
                 wsrep::to_c_string((enum wsrep::client_error)cmd_err));
}
void Client::finish_trx(const Result& r)
{
    Trx& t = *trx;
    trx = nullptr;
    t.done = true;
    vf::outcome(t.outcome() + std::to_string((int)r.err));
    if (w.node_failed) return;
    const unsigned long long n = t.id;
    if (t.xa && t.detached) return;
    const bool committed = t.se_commits > 0;
    VF_CHECK(t.se_commits <= 1, "transaction %llu committed %d times", n, t.se_commits);
    VF_CHECK(!se.active, "transaction %llu ended with its storage transaction open", n);
    VF_CHECK(!(committed && t.se_rollbacks && !t.replays),
             "transaction %llu both committed and rolled back", n);
    VF_CHECK(t.released || t.no_provider || !t.known || (t.replays && w.cfg.replay_style),
             "transaction %llu ended but was not released in the provider", n);
    if (r.body != -1)
        VF_CHECK(committed == (r.err == wsrep::e_success) || (t.voluntary_rb && !committed)
                     || t.no_provider,
                 "transaction %llu %s but the client was told %s", n,
                 committed ? "committed" : "rolled back", wsrep::to_c_string(r.err));
    if (t.commit_seqno && !t.no_provider)
    {
        Piece& p = w.piece(t.commit_seqno);
        VF_CHECK((p.verdict == 1) == committed,
                 "transaction %llu %s although its certification verdict is %d", n,
                 committed ? "committed" : "rolled back", p.verdict);
        VF_CHECK(p.passed(), "position %ld of transaction %llu was never left", t.commit_seqno, n);
    }
    if (!committed && !t.no_provider)
    {
        VF_CHECK(t.faults || t.bf_accepted || t.interrupted || t.voluntary_rb || t.replays
                     || r.body == -1,
                 "transaction %llu rolled back without cause", n);
        if (r.body != -1 && !(t.voluntary_rb && r.err == wsrep::e_success))
        {
            bool ok = false;
            for (auto& e : t.ok_errs)
                ok |= e.first == (int)r.err && (e.second == -1 || e.second == (int)r.status);
            if (t.bf_accepted && r.err == wsrep::e_deadlock_error) ok = true;
            VF_CHECK(ok, "transaction %llu failed with error %s/%d which does not match the cause",
                     n, wsrep::to_c_string(r.err), (int)r.status);
            if (t.bf_accepted && t.faults == 0 && !t.interrupted)
                VF_CHECK(r.err == wsrep::e_deadlock_error,
                         "BF aborted transaction %llu reports %s", n, wsrep::to_c_string(r.err));
        }
        if (t.voluntary_rb && r.err != wsrep::e_success && r.body != -1)
            VF_CHECK(t.bf_accepted || t.faults || t.interrupted,
                     "voluntary rollback of %llu reports error %d", n, (int)r.err);
    }
    if (committed && !t.voluntary_rb && !t.xa)
        VF_CHECK(w.db[TrxKey(w.own_id, n)] == t.written,
                 "transaction %llu committed '%s' but wrote '%s'", n,
                 w.db[TrxKey(w.own_id, n)].c_str(), t.written.c_str());
    if (t.bf_accepted)
        VF_CHECK(t.se_rollbacks >= 1 || t.detached,
                 "transaction %llu ignored a BF abort which was accepted", n);
    // streaming
    TrxKey k(w.own_id, n);
    if (committed && !t.xa)
    {
        VF_CHECK(!w.frags.count(k), "fragments of committed transaction %llu are still stored", n);
        VF_CHECK(!t.rb_sent && !t.rb_pending,
                 "rollback announced for committed transaction %llu", n);
    }
    if (!committed && t.frags_ok > 0 && !t.to_abort && !t.replays)
        VF_CHECK(t.rb_sent + (t.rb_pending ? 1 : 0) == 1,
                 "rolled back streaming transaction %llu was announced %d times", n,
                 t.rb_sent + (t.rb_pending ? 1 : 0));
    if (!committed && t.frags_ok > 0 && t.to_abort)
        VF_CHECK(!w.frags.count(k),
                 "fragments of transaction %llu aborted in total order are still stored", n);
    // last written
    const wsrep::gtid g = cs.last_written_gtid();
    const long lw = g.is_undefined() ? 0 : g.seqno().get();
    if (committed && t.commit_seqno && !t.xa)
    {
        VF_CHECK(lw == t.commit_seqno && g.id() == make_id('G'),
                 "last written position is %ld after commit at %ld", lw, t.commit_seqno);
    }
    else if (!t.no_provider && !t.xa)
    {
        // a rollback may have been ordered, too
        const long x = t.commit_seqno ? t.commit_seqno : expect_last_written;
        VF_CHECK(lw == x, "last written position is %ld, expected %ld", lw, x);
    }
    expect_last_written = lw;
    explicit_xa = false;
    xa_rollback_cmd = false;
    if (t.xa && !committed && (t.bf_accepted || t.faults) && !t.xa_prepared && r.body != -1)
        VF_CHECK(t.xa_err, "transaction %llu was aborted before prepare but no error was reported",
                 n);
}

// ------------------------------------------------------------------ high priority service
Hps::Hps(World& w_, Client* c_, bool r, const char* k)
    : wsrep::high_priority_service(*w_.server), w(w_), c(c_), replaying(r), kind(k),
      serial(w_.hps_serial++)
{ }
void Hps::alive(const char* op)
{
    VF_CHECK(!released, "%s on released applier service (%s %s)", op, kind, show(key).c_str());
}
void Hps::need_globals(const char* op)
{
    alive(op);
    VF_CHECK(w.cur_globals() == this, "%s of %s %s executed with foreign thread context", op, kind,
             show(key).c_str());
}
static TrxKey meta_key(const wsrep::ws_meta& m)
{
    return TrxKey(m.server_id(), m.transaction_id().get());
}
int Hps::start_transaction(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
{
    alive("start_transaction");
    key = meta_key(m);
    int ret = c->cs.start_transaction(h, m);
    if (!ret) c->se.begin(c, key);
    return ret;
}
int Hps::next_fragment(const wsrep::ws_meta& m)
{
    alive("next_fragment");
    return c->cs.next_fragment(m);
}
const wsrep::transaction& Hps::transaction() const { return c->cs.transaction(); }
int Hps::adopt_transaction(const wsrep::transaction& t)
{
    alive("adopt_transaction");
    key = TrxKey(t.server_id(), t.id().get());
    c->cs.adopt_transaction(t);
    c->se.begin(c, key);
    if (vf::env_if(w.cfg.adopt_fail, 2, "adopt fails"))
    {
        w.adopt_failed.insert(key);
        c->cs.before_rollback();
        c->se.clear();
        c->cs.after_rollback();
        return 1;
    }
    if (t.state() == T::s_prepared && this != w.applier) // takes over, not just to clean up
    {
        c->cs.restore_xid(t.xid());
        for (auto& f : w.frags[key]) { c->se.data += f.data; ++c->se.applied; }
    }
    return 0;
}
int Hps::apply_write_set(const wsrep::ws_meta& m, const wsrep::const_buffer& b,
                         wsrep::mutable_buffer& err)
{
    need_globals("apply_write_set");
    unfinished = !replaying;
    VF_CHECK(tstate_ok(), "write set applied in transaction state %s",
             wsrep::to_c_string(transaction().state()));
    VF_CHECK(meta_key(m) == TrxKey(transaction().server_id(), transaction().id().get()),
             "write set of %s applied in transaction %s", show(meta_key(m)).c_str(),
             show(TrxKey(transaction().server_id(), transaction().id().get())).c_str());
    vf::point("apply_write_set");
    if (fail_next || w.fail_seqno == m.seqno().get())
    {
        fail_next = false;
        if (w.fail_silent) return 1;
        err.push_back(std::string("apply error"));
        return 1;
    }
    std::string d = str(b);
    const long s = m.seqno().get();
    if (replaying && !w.frags.empty())
    {
        // replay of a streaming transaction starts with its stored fragments
        auto it = w.frags.find(key);
        if (it != w.frags.end())
            for (auto& f : it->second)
            {
                c->se.data += f.data;
                ++c->se.applied;
                c->se.removes.push_back({key, f.seqno});
            }
    }
    for (char r : d)
        if (r >= 'a' && r <= 'h') w.bf_lock_row(r, &c->se, s);
    if (d == std::string(1, '\0')) d.clear();
    c->se.data += d;
    if (!d.empty()) ++c->se.applied;
    if (!(m.flags() & F::commit)) c->cs.fragment_applied(m.seqno());
    if (m.flags() & F::prepare)
    {
        c->cs.assign_xid(w.xid_of[key]);
        return c->cs.before_prepare() || c->cs.after_prepare();
    }
    return 0;
}
bool Hps::storage_fault(const char* op)
{
    if (!vf::env_if(w.cfg.hps_fail, 2, op)) return false;
    ++w.hps_faulted;
    return true;
}
bool Hps::tstate_ok() const
{
    auto s = transaction().state();
    return s == T::s_executing || s == T::s_prepared || s == T::s_replaying;
}
int Hps::append_fragment_and_commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m,
                                    const wsrep::const_buffer& b, const wsrep::xid& x)
{
    need_globals("append_fragment_and_commit");
    if (storage_fault("storing fragment fails")) return 1;
    int ret = start_transaction(h, m);
    if (!ret)
        c->se.adds.push_back({meta_key(m), Frag{(long)m.seqno().get(), m.flags(), str(b),
                                                x.is_null() ? "" : wsrep::to_string(x)}});
    ret = ret || commit(h, m);
    return ret;
}
int Hps::remove_fragments(const wsrep::ws_meta& m)
{
    need_globals("remove_fragments");
    vf::point("hps.remove_fragments");
    if (storage_fault("removing fragments fails")) return 1;
    TrxKey k(transaction().server_id(), transaction().id().get());
    VF_CHECK(meta_key(m) == k, "fragments of %s removed in transaction %s",
             show(meta_key(m)).c_str(), show(k).c_str());
    w.wait_fragment_rows(k, &c->se);
    std::vector<wsrep::seqno> fr = transaction().streaming_context().fragments();
    for (auto s : fr) c->se.removes.push_back({k, s.get()});
    if (fr.empty() && w.frags.count(k))
        for (auto& f : w.frags[k]) c->se.removes.push_back({k, f.seqno});
    return 0;
}
int Hps::commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
{
    need_globals("commit");
    if (storage_fault("commit of applier fails")) return 1;
    c->cs.prepare_for_ordering(h, m, true);
    if (m.seqno().is_undefined())
    {
        int ret = c->cs.before_rollback();
        c->se.commit(0, kind);
        ret = c->cs.after_rollback() || ret;
        return ret;
    }
    int ret = 0;
    if (w.cfg.two_pc && transaction().state() == T::s_executing)
        ret = c->cs.before_prepare() || c->cs.after_prepare();
    ret = ret || c->cs.before_commit();
    if (!ret)
    {
        c->se.commit(m.seqno().get(), kind);
        ret = c->cs.ordered_commit();
        if (ret)
        {
            // voted out: the node leaves the cluster
            c->cs.before_rollback();
            c->cs.after_rollback();
            return ret;
        }
        ret = c->cs.after_commit();
    }
    return ret;
}
int Hps::rollback(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
{
    need_globals("rollback");
    c->cs.prepare_for_ordering(h, m, false);
    int ret = c->cs.before_rollback();
    c->se.rollback();
    ret = c->cs.after_rollback() || ret;
    return ret;
}
int Hps::apply_toi(const wsrep::ws_meta& m, const wsrep::const_buffer& b,
                   wsrep::mutable_buffer& err)
{
    need_globals("apply_toi");
    const long s = m.seqno().get();
    VF_CHECK(w.piece(s).entered && !w.piece(s).left, "TOI %ld applied outside of total order", s);
    VF_CHECK(!transaction().active(), "TOI applied inside a transaction");
    w.toi_applied.push_back(s);
    c->cs.enter_toi_mode(m);
    VF_CHECK(c->cs.toi_meta().seqno().get() == s, "toi_meta does not match");
    std::string d = str(b);
    SE tmp;
    tmp.client = c;
    for (char r : d)
        if (r >= 'a' && r <= 'h') w.bf_lock_row(r, &tmp, s, true);
    tmp.release_rows();
    vf::point("toi executing");
    c->cs.leave_toi_mode();
    VF_CHECK(c->cs.mode() == wsrep::client_state::m_high_priority, "mode not restored after TOI");
    if (w.fail_seqno == s)
    {
        if (!w.fail_silent) err.push_back(std::string("toi error"));
        return 1;
    }
    return 0;
}
int Hps::apply_nbo_begin(const wsrep::ws_meta& m, const wsrep::const_buffer& b,
                         wsrep::mutable_buffer& err)
{
    need_globals("apply_nbo_begin");
    const long s = m.seqno().get();
    VF_CHECK(w.piece(s).entered && !w.piece(s).left, "NBO %ld begun outside of total order", s);
    w.nbo_applied.push_back(s);
    if (w.fail_seqno == s)
    {
        if (!w.fail_silent) err.push_back(std::string("nbo error"));
        return 1;
    }
    if (w.nbo_fn) return w.nbo_fn(m, str(b));
    return 0;
}
void Hps::after_apply()
{
    alive("after_apply");
    if (!w.adopt_failed.count(key)) need_globals("after_apply");
    c->cs.after_applying();
    unfinished = false;
}
void Hps::store_globals()
{
    alive("store_globals");
    VF_CHECK(!w.cur_globals() || w.cur_globals() == this,
             "applier takes over the thread context before it was given up");
    c->cs.acquire_ownership();
    w.set_globals(this);
}
void Hps::reset_globals()
{
    alive("reset_globals");
    w.set_globals(nullptr);
}
void Hps::switch_execution_context(wsrep::high_priority_service& o)
{
    alive("switch_execution_context");
    static_cast<Hps&>(o).alive("switch_execution_context");
}
int Hps::log_dummy_write_set(const wsrep::ws_handle& h, const wsrep::ws_meta& m,
                             wsrep::mutable_buffer& err)
{
    need_globals("log_dummy_write_set");
    VF_CHECK(m.ordered(), "dummy write set without position");
    const bool had_err = err.size() > 0;
    key = meta_key(m);
    int ret = c->cs.start_transaction(h, m);
    c->se.begin(c, key);
    if (!ret)
    {
        if (had_err) adopt_apply_error(err);
        c->cs.prepare_for_ordering(h, m, true);
        ret = c->cs.before_commit();
        if (!ret)
        {
            c->se.commit(m.seqno().get(), "dummy");
            ret = c->cs.ordered_commit();
            if (!ret) ret = c->cs.after_commit();
            else { c->cs.before_rollback(); c->cs.after_rollback(); }
        }
        c->cs.after_applying();
    }
    return ret;
}
void Hps::adopt_apply_error(wsrep::mutable_buffer& err)
{
    alive("adopt_apply_error");
    c->cs.adopt_apply_error(err);
}
int Hps::apply(const WS& x)
{
    wsrep::ws_meta m(make_gtid(x.seqno),
                     wsrep::stid(x.key.first,
                                 (x.flags & F::isolation) ? wsrep::transaction_id()
                                                          : wsrep::transaction_id(x.key.second),
                                 wsrep::client_id(x.client)),
                     wsrep::seqno(x.seqno - 1), x.flags);
    const int ret = wsrep::high_priority_service::apply(
        wsrep::ws_handle(wsrep::transaction_id(x.key.second), 0), m,
        wsrep::const_buffer(x.data.data(), x.data.size()));
    if (ret == 0 && !replaying)
    {
        VF_CHECK(!unfinished, "after_apply() was not called for seqno %ld", x.seqno);
        if (wsrep::high_priority_service* sa = w.server->find_streaming_applier(
                x.key.first, wsrep::transaction_id(x.key.second)))
            VF_CHECK(!static_cast<Hps*>(sa)->unfinished,
                     "after_apply() was not called for fragment %ld", x.seqno);
    }
    return ret;
}

// ------------------------------------------------------------------ storage service
Storage::Storage(World& w_, wsrep::client_service* o) : w(w_), orig(o)
{
    c = w.new_client(wsrep::client_state::m_high_priority);
    c->cs.open(wsrep::client_id(c->id));
    c->cs.before_command();
    c->opened = true;
}
void Storage::alive(const char* op)
{
    VF_CHECK(!released, "%s on released storage service", op);
}
void Storage::need_globals(const char* op)
{
    alive(op);
    if (w.cfg.requires_globals)
        VF_CHECK(w.cur_globals() == this, "storage service %s executed with foreign thread context",
                 op);
}
void Storage::fault()
{
    if (Client* o = static_cast<Client*>(orig))
        if (o->trx)
        {
            ++o->trx->faults;
            o->trx->ok_errs.insert({wsrep::e_append_fragment_error, -1});
            o->trx->ok_errs.insert({wsrep::e_deadlock_error, -1});
        }
}
int Storage::start_transaction(const wsrep::ws_handle& h)
{
    need_globals("start_transaction");
    if (vf::env_if(w.cfg.storage_fail, 2, "storage.start_transaction fails"))
    {
        fault();
        return 1;
    }
    key = TrxKey(w.own_id, h.transaction_id().get());
    int ret = c->cs.start_transaction(h.transaction_id());
    if (!ret) c->se.begin(c, key);
    return ret;
}
void Storage::adopt_transaction(const wsrep::transaction& t)
{
    alive("adopt_transaction");
    key = TrxKey(t.server_id(), t.id().get());
    c->cs.adopt_transaction(t);
    c->se.begin(c, key);
}
int Storage::append_fragment(const wsrep::id& sid, wsrep::transaction_id tid, int flags,
                             const wsrep::const_buffer& b, const wsrep::xid& x)
{
    need_globals("append_fragment");
    VF_CHECK(TrxKey(sid, tid.get()) == key, "fragment stored under %s instead of %s",
             show(TrxKey(sid, tid.get())).c_str(), show(key).c_str());
    vf::point("append_fragment");
    if (vf::env_if(w.cfg.storage_fail, 2, "storage.append_fragment fails"))
    {
        fault();
        return 1;
    }
    c->se.adds.push_back({key, Frag{-1, flags, str(b), x.is_null() ? "" : wsrep::to_string(x)}});
    return 0;
}
int Storage::update_fragment_meta(const wsrep::ws_meta& m)
{
    need_globals("update_fragment_meta");
    if (vf::env_if(w.cfg.storage_fail, 2, "storage.update_fragment_meta fails"))
    {
        fault();
        return 1;
    }
    VF_CHECK(c->se.adds.size() == 1, "fragment meta updated without fragment");
    c->se.adds[0].second.seqno = m.seqno().get();
    Piece& p = w.piece(m.seqno().get());
    VF_CHECK(p.data == c->se.adds[0].second.data && p.flags == c->se.adds[0].second.flags,
             "stored fragment of seqno %ld differs from the replicated one", p.seqno);
    return 0;
}
int Storage::remove_fragments()
{
    need_globals("remove_fragments");
    const wsrep::transaction& t = c->cs.transaction();
    TrxKey k(t.server_id(), t.id().get());
    w.wait_fragment_rows(k, &c->se);
    for (auto s : t.streaming_context().fragments()) c->se.removes.push_back({k, s.get()});
    return 0;
}
int Storage::commit(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
{
    need_globals("commit");
    int ret = 0;
    if (m.seqno().is_undefined())
    {
        c->cs.before_rollback();
        c->se.commit(0, "storage");
        c->cs.after_rollback();
    }
    else
    {
        ret = c->cs.prepare_for_ordering(h, m, true);
        if (!ret && vf::env_if(w.cfg.storage_fail, 2, "storage.commit fails"))
        {
            // storage engine refuses: roll back out of order
            fault();
            c->cs.prepare_for_ordering(wsrep::ws_handle(), wsrep::ws_meta(), false);
            c->cs.before_rollback();
            c->se.rollback();
            c->cs.after_rollback();
            c->cs.after_applying();
            return 1;
        }
        ret = ret || c->cs.before_commit();
        if (!ret)
        {
            auto adds = c->se.adds;
            c->se.commit(m.seqno().get(), "storage");
            ret = c->cs.ordered_commit();
            if (ret)
            {
                // the fragment does not become durable
                for (auto& a : adds)
                {
                    auto& v = w.frags[a.first];
                    for (size_t i = 0; i < v.size(); ++i)
                        if (v[i].seqno == a.second.seqno) { v.erase(v.begin() + i); break; }
                    if (v.empty()) w.frags.erase(a.first);
                }
            }
            ret = ret || c->cs.after_commit();
        }
        if (ret)
        {
            c->cs.prepare_for_ordering(wsrep::ws_handle(), wsrep::ws_meta(), false);
            c->cs.before_rollback();
            c->se.rollback();
            c->cs.after_rollback();
        }
    }
    c->cs.after_applying();
    return ret;
}
int Storage::rollback(const wsrep::ws_handle& h, const wsrep::ws_meta& m)
{
    need_globals("rollback");
    int ret = c->cs.prepare_for_ordering(h, m, false);
    ret = c->cs.before_rollback() || ret;
    c->se.rollback();
    ret = c->cs.after_rollback() || ret;
    c->cs.after_applying();
    return ret;
}
void Storage::store_globals()
{
    alive("store_globals");
    VF_CHECK(!w.cur_globals() || w.cur_globals() == this,
             "storage service takes over the thread context before it was given up");
    w.set_globals(this);
}
void Storage::reset_globals() { alive("reset_globals"); w.set_globals(nullptr); }
bool Storage::requires_globals() const { return w.cfg.requires_globals; }

// ------------------------------------------------------------------ world
static void no_log(wsrep::log::level, const char*, const char*) { }

World::World(const Cfg& c) : cfg(c), service(*this)
{
    W = this;
    own_id = make_id('1');
    wsrep::log::logger_fn(no_log);
    server.reset(new Server(*this, smutex, scond, service));
    server->set_provider_factory(
        [this](wsrep::server_state& s, const std::string&, const std::string&,
               const wsrep::provider::services&) {
            provider = new Provider(s, *this);
            return std::unique_ptr<wsrep::provider>(provider);
        });
    server->load_provider("sim", "", wsrep::provider::services());
    vf::set_state_fn([this]() { return hash(); });
}
World::~World()
{
    vf::set_state_fn(nullptr);
    W = nullptr;
}
Piece& World::piece(long s)
{
    VF_CHECK(s >= 1 && s <= (long)order.size(), "no such position %ld", s);
    return order[s - 1];
}
Piece& World::add_piece(const TrxKey& k, int flags, const std::string& data, bool local)
{
    Piece p;
    p.seqno = new_seqno();
    p.key = k; p.flags = flags; p.data = data; p.local = local;
    order.push_back(p);
    return order.back();
}
bool World::all_passed_before(long s) const
{
    for (long i = s - 2; i >= 0; --i) if (!order[i].passed()) return false;
    return true;
}
Trx* World::find_trx(unsigned long long id)
{
    for (auto& t : trxs) if (t->id == id) return t.get();
    return nullptr;
}
Client* World::new_client(enum wsrep::client_state::mode m)
{
    clients.emplace_back(new Client(*this, next_client++, m));
    by_state[&clients.back()->cs] = clients.back().get();
    return clients.back().get();
}
Hps* World::new_hps(const char* kind, bool replaying)
{
    Client* c = new_client(wsrep::client_state::m_high_priority);
    c->cs.open(wsrep::client_id(c->id));
    c->cs.before_command();
    c->opened = true;
    hps.emplace_back(new Hps(*this, c, replaying, kind));
    return hps.back().get();
}
void World::make_visible()
{
    for (auto& p : pending_rb)
        if (!p.visible && p.fiber == vf::self()) p.visible = serial++;
}
void World::synced()
{
    const long s = serial++;
    const int f = provider->rb_fails;
    server->on_sync();
    make_visible();
    if (f == provider->rb_fails)
        for (auto& p : pending_rb)
            VF_CHECK(!(p.visible && p.visible < s),
                     "rollback of transaction %llu was not announced when the node became synced",
                     p.id);
}
void World::lock_row(char row, SE* se)
{
    auto it = rows.find(row);
    if (it != rows.end() && it->second == se) return;
    Client* c = se->client;
    vf::block_until([=]() {
        return !rows.count(row) || c->tstate() != T::s_executing;
    }, "row lock");
    if (c->tstate() != T::s_executing || rows.count(row)) return;
    rows[row] = se;
    se->rows.insert(row);
}
bool World::victim_abort(Client* v, long seqno, bool toi)
{
    const void* g = cur_globals();
    Trx* t = v->trx;
    const int a = t ? t->prov_accept : 0;
    vf::trace("  [bf] seqno %ld aborts client %llu", seqno, v->id);
    const int ret = toi ? v->cs.total_order_bf_abort(wsrep::seqno(seqno))
                        : v->cs.bf_abort(wsrep::seqno(seqno));
    // thread context of the aborting thread is restored by its own code
    set_globals(g);
    make_visible();
    if (t && !v->hp)
    {
        VF_CHECK(!!ret == (t->prov_accept != a) || t->done,
                 "abort of transaction %llu reported %s but the provider %s it", t->id,
                 ret ? "accepted" : "refused", t->prov_accept != a ? "accepted" : "refused");
        VF_CHECK(!(ret && t->late_abort),
                 "transaction %llu aborted after it was ordered to commit", t->id);
        if (!ret) ++t->bf_refused;
    }
    return ret;
}
void World::bf_lock_row(char row, SE* se, long seqno, bool toi)
{
    for (int rounds = 0;; ++rounds)
    {
        auto it = rows.find(row);
        if (it == rows.end()) break;
        if (it->second == se) return;
        SE* o = it->second;
        Client* v = o->client;
        Trx* t = v->trx;
        if (!v->hp && t && !t->bf_accepted)
        {
            const int ps = (int)t->ps;
            const size_t n = t->pieces.size();
            if (victim_abort(v, seqno, toi)) continue;
            vf::block_until([=]() {
                auto i = rows.find(row);
                return i == rows.end() || i->second != o || v->trx != t || (int)t->ps != ps
                    || t->pieces.size() != n;
            }, "bf row lock, abort refused");
            continue;
        }
        if (v->hp && v->cs.transaction().is_streaming() && v != se->client
            && v->cs.mode() == wsrep::client_state::m_high_priority && !hp_aborted.count(v))
        {
            // streaming applier in the way
            hp_aborted.insert(v);
            if (victim_abort(v, seqno, toi)) continue;
        }
        vf::block_until([=]() {
            auto i = rows.find(row);
            return i == rows.end() || i->second != o || v->trx != t;
        }, "bf row lock");
    }
    rows[row] = se;
    se->rows.insert(row);
}
void World::wait_fragment_rows(const TrxKey& k, SE* se)
{
    vf::block_until([=]() {
        for (auto& c : clients)
            if (&c->se != se && c->se.active)
                for (auto& r : c->se.removes)
                    if (r.first == k) return false;
        return true;
    }, "fragment row lock");
}
void World::start_rollbacker()
{
    if (rb_started) return;
    rb_started = true;
    vf::spawn("rollbacker", [this]() { rollbacker(); }, true);
}
void World::rollbacker()
{
    for (;;)
    {
        vf::block_until([this]() { return !rb_queue.empty(); }, "rollbacker idle");
        RbJob j = rb_queue.front();
        rb_queue.pop_front();
        ++rb_running;
        vf::trace("  [rollbacker] client %llu", j.c->id);
        if (j.h)
        {
            j.h->store_globals();
            const wsrep::transaction& t = j.h->transaction();
            TrxKey k(t.server_id(), t.id().get());
            VF_CHECK(!server->find_streaming_applier(k.first, t.id()),
                     "aborted streaming applier %s is still registered", show(k).c_str());
            wsrep::storage_service* s = service.storage_service(*j.h);
            j.h->reset_globals();
            s->store_globals();
            s->adopt_transaction(t);
            s->remove_fragments();
            s->commit(wsrep::ws_handle(t.id(), 0), wsrep::ws_meta());
            service.release_storage_service(s);
            j.h->store_globals();
            j.h->rollback(wsrep::ws_handle(), wsrep::ws_meta());
            j.h->after_apply();
            service.release_high_priority_service(j.h);
        }
        else
        {
            Client& c = *j.c;
            VF_CHECK(c.operated_by == -1,
                     "rollbacker operates client %llu while the session is executing", c.id);
            c.cs.acquire_ownership();
            c.store_globals();
            c.operated_by = vf::self();
            c.bf_rollback();
            if (c.tstate() == T::s_must_replay)
            {
                Trx* t = c.trx;
                c.cs.xa_replay();
                VF_CHECK(t->detached, "prepared transaction lost by the rollbacker");
                t->done = true;
                c.trx = nullptr;
            }
            c.operated_by = -1;
            vf::point("rollback complete");
            c.cs.sync_rollback_complete();
            set_globals(nullptr);
        }
        make_visible();
        --rb_running;
    }
}
void World::start_applier()
{
    if (applier_started) return;
    applier_started = true;
    vf::spawn("applier", [this]() { applier_loop(); }, true);
}
void World::applier_loop()
{
    applier = new_hps("applier");
    applier->store_globals();
    for (;;)
    {
        vf::block_until([this]() { return !queue.empty() && !applier_dead; }, "applier idle");
        WS x = queue.front();
        queue.pop_front();
        ++applying;
        applier->store_globals();
        vf::trace("  [applier] %s seqno %ld flags 0x%x data '%s'", show(x.key).c_str(), x.seqno,
                  x.flags, x.data.c_str());
        if (x.event)
        {
            if (x.seqno)
            {
                vf::block_until([this, x]() { return all_passed_before(x.seqno); }, "commit order");
                piece(x.seqno).entered = true;
            }
            x.event(applier);
            VF_CHECK(cur_globals() == applier, "thread context of the applier lost after event");
            if (x.seqno) piece(x.seqno).left = true;
            VF_CHECK(!applier->transaction().active(),
                     "applier keeps a transaction open after an event");
            make_visible();
            --applying;
            continue;
        }
        if (x.fail) fail_seqno = x.seqno;
        int ret = applier->apply(x);
        VF_CHECK(cur_globals() == applier, "thread context of the applier lost after seqno %ld",
                 x.seqno);
        make_visible();
        if (on_applied) on_applied(x, ret);
        else VF_CHECK(ret == 0 || x.fail, "applying seqno %ld failed", x.seqno);
        if (!ret)
        {
            VF_CHECK(piece(x.seqno).passed(), "applied seqno %ld did not pass the commit order",
                     x.seqno);
            VF_CHECK(!applier->transaction().active(),
                     "applier keeps a transaction open after seqno %ld", x.seqno);
        }
        else applier_dead = node_failed = true;
        --applying;
    }
}
void World::drain()
{
    vf::block_until([this]() {
        return (queue.empty() || applier_dead || !applier_started) && applying == 0 && rb_idle();
    }, "drain");
}
wsrep::view World::make_view(long seqno, enum wsrep::view::status st,
                             const std::vector<unsigned char>& m, int own, long vs)
{
    std::vector<wsrep::view::member> mem;
    for (auto c : m)
        mem.push_back(wsrep::view::member(make_id(c), std::string("n") + (char)c, ""));
    return wsrep::view(make_gtid(seqno), wsrep::seqno(vs), st, 0, own, 1, mem);
}
void World::join_cluster()
{
    server->initialized();
    server->connect("c", "addr", "", false);
    wsrep::view v = make_view(0, wsrep::view::primary, {'1', '2'}, 0, 1);
    server->on_connect(v);
    Hps* h = new_hps("viewer");
    h->store_globals();
    server->on_view(v, h);
    server->on_sync();
    service.release_high_priority_service(h);
    VF_CHECK(server->state() == wsrep::server_state::s_synced, "node did not become synced");
}
WS World::remote(unsigned char sv, unsigned long long trx, int flags, const std::string& data)
{
    if (flags & F::isolation) trx = wsrep::transaction_id::undefined().get();
    TrxKey k(make_id(sv), trx);
    Piece& p = add_piece(k, flags, data, false);
    p.verdict = 1;
    WS x;
    x.key = k; x.client = 500; x.seqno = p.seqno; x.flags = flags; x.data = data;
    queue.push_back(x);
    return x;
}
long World::post_event(bool ordered, std::function<void(Hps*)> fn)
{
    WS x;
    x.key = TrxKey(wsrep::id(), 0);
    x.seqno = x.flags = 0;
    x.event = fn;
    if (ordered)
    {
        Piece& p = add_piece(x.key, 0, "", false);
        p.verdict = 1;
        x.seqno = p.seqno;
    }
    queue.push_back(x);
    return x.seqno;
}
void World::check_end()
{
    if (node_failed) return;
    for (auto& s : storages)
        VF_CHECK(s->released, "storage service of %s was never released", show(s->key).c_str());
    for (auto& h : hps)
    {
        if (h->released || h.get() == applier) continue;
        wsrep::high_priority_service* f =
            server->find_streaming_applier(h->key.first, wsrep::transaction_id(h->key.second));
        VF_CHECK(f == h.get(), "applier service %s of %s was never released", h->kind,
                 show(h->key).c_str());
    }
    VF_CHECK(replayers == 0, "%d replays announced but never finished", replayers);
    for (auto& p : order)
        VF_CHECK(p.passed(), "position %ld (%s) was never passed", p.seqno, show(p.key).c_str());
    for (auto& t : trxs) VF_CHECK(t->done, "transaction %llu never finished", t->id);
    for (auto& kv : rows)
        VF_CHECK(kv.second->client && kv.second->client->hp, "row %c is locked for ever", kv.first);
    for (auto& kv : frags)
    {
        if (kv.first.first == own_id)
        {
            Trx* t = find_trx(kv.first.second);
            if (t && !t->xa && t->rb_sent && !adopt_failed.count(kv.first) && applier_started)
                vf::fail("fragments of rolled back transaction %s are still stored",
                         show(kv.first).c_str());
        }
    }
    for (auto& t : trxs)
        VF_CHECK(!t->rb_pending || !pending_rb.empty(), "pending rollback lost");
}
uint64_t World::hash()
{
    uint64_t h = 1;
    h = vf::mix(h, service.changes.size());
    for (auto& c : clients)
    {
        if (!c->opened) continue;
        h = vf::mix(h, c->id);
        h = vf::mix(h, c->cs.state());
        h = vf::mix(h, c->cs.mode());
        h = vf::mix(h, c->cs.transaction().active());
        h = vf::mix(h, c->cs.transaction().state());
        h = vf::mix(h, c->cs.transaction().flags());
        h = vf::mix(h, c->cs.current_error());
        h = vf::mix(h, c->cs.transaction().streaming_context().fragments_certified());
        h = vf::mix(h, c->se.active);
        h = vf::mix(h, vf::hash_str(c->se.data));
        h = vf::mix(h, (uint64_t)c->cs.mtx.m.owner);
    }
    for (auto& p : order)
    {
        h = vf::mix(h, p.key.second);
        h = vf::mix(h, (uint64_t)p.flags * 64 + p.entered * 32 + p.left * 16 + p.cancelled * 8
                    + p.verdict);
    }
    for (auto& t : trxs)
        h = vf::mix(h, t->aborted + 2 * t->ps + 8 * t->known + 16 * t->entered
                    + 32 * t->bf_accepted + 1024 * t->rb_sent);
    h = vf::mix(h, queue.size() * 8 + rb_queue.size());
    h = vf::mix(h, (uint64_t)smutex.m.owner);
    h = vf::mix(h, frags.size() * 2 + primary);
    h = vf::mix(h, provider->paused + 2 * (provider->desyncs - provider->resyncs));
    h = vf::mix(h, provider->disconnects + 2 * provider->sst_recvs.size()
                + 8 * provider->sst_sents.size() + 32 * service.recoveries);
    h = vf::mix(h, scond.waiting.size());
    if (!service.changes.empty()) h = vf::mix(h, service.changes.back().second);
    if (extra_hash) h = vf::mix(h, extra_hash());
    return h;
}

void with_world(const Cfg& cfg, std::function<void(World&)> body)
{
    vf::spurious = cfg.spurious;
    World* w = new World(cfg);
    w->set_globals(nullptr);
    body(*w);
    vf::join_all();
    w->drain();
    w->check_end();
    vf::quiesce();
    // teardown: close what is left in a regular way
    vf::set_state_fn(nullptr);
    if (!w->node_failed)
    {
        std::vector<Hps*> left;
        for (auto& h : w->hps) if (!h->released && h.get() != w->applier) left.push_back(h.get());
        for (Hps* h : left)
        {
            if (h->c->cs.transaction().active())
            {
                w->set_globals(nullptr);
                h->store_globals();
                h->rollback(wsrep::ws_handle(), wsrep::ws_meta());
                h->after_apply();
            }
        }
    }
    else
    {
        // transactions may be open: leave everything behind
        W = nullptr;
        return;
    }
    delete w;
}
}
