// Simulated environment around the real wsrep-lib code: a Galera-like provider, a DBMS with row
// locks, sessions, appliers, fragment storage and a background rollbacker.  Everything observable
// is monitored; a monitor that sees a property broken calls vf::fail().
#ifndef VF_SIM_HPP
#define VF_SIM_HPP
#include "engine.hpp"

#include "wsrep/client_service.hpp"
#include "wsrep/client_state.hpp"
#include "wsrep/high_priority_service.hpp"
#include "wsrep/provider.hpp"
#include "wsrep/server_service.hpp"
#include "wsrep/server_state.hpp"
#include "wsrep/storage_service.hpp"
#include "wsrep/transaction.hpp"
#include "wsrep/view.hpp"

#include <deque>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim
{
typedef wsrep::provider P;
typedef enum wsrep::provider::status Status;
typedef wsrep::unique_lock<wsrep::mutex> Lock;
typedef wsrep::transaction T;
namespace F
{
    const int start = P::flag::start_transaction;
    const int commit = P::flag::commit;
    const int rollback = P::flag::rollback;
    const int isolation = P::flag::isolation;
    const int pa_unsafe = P::flag::pa_unsafe;
    const int prepare = P::flag::prepare;
    const int implicit_deps = P::flag::implicit_deps;
}

struct SMutex : wsrep::mutex
{
    vf::Mutex m;
    explicit SMutex(const char* n) { m.name = n; }
    void lock() override { m.lock(); }
    void unlock() override { m.unlock(); }
    void* native() override { return &m; }
};
struct SCond : wsrep::condition_variable
{
    vf::Cond c;
    explicit SCond(const char* n) { c.name = n; }
    void notify_one() override { c.notify_one(); }
    void notify_all() override { c.notify_all(); }
    std::map<int, long> waiting;   // fibers in wait(), value of now() when the wait began
    std::function<long()> now;
    void wait(Lock& l) override
    {
        const int f = vf::self();
        waiting[f] = now ? now() : 0;
        c.wait(static_cast<SMutex*>(l.mutex())->m);
        waiting.erase(f);
    }
};

struct World;
struct Client;
struct Hps;
struct Storage;
struct Provider;
struct ServerService;
struct Server;
extern World* W;

wsrep::id make_id(unsigned char c);      // distinct ids: byte c repeated
extern const char* GROUP;
wsrep::gtid make_gtid(long seqno);

typedef std::pair<wsrep::id, unsigned long long> TrxKey;
std::string show(const TrxKey&);

struct Frag
{
    long seqno;
    int flags;
    std::string data;
    std::string xid;
};

// Storage-engine transaction.
struct SE
{
    Client* client = nullptr; // who executes it
    bool active = false;
    bool prepared = false;
    TrxKey key;
    std::string data;
    std::vector<std::pair<TrxKey, Frag>> adds;
    std::vector<std::pair<TrxKey, long>> removes; // seqno of fragment rows
    std::set<char> rows;
    int applied = 0;          // pieces of user data in it
    void begin(Client* c, const TrxKey& k);
    void commit(long seqno, const char* by); // seqno > 0: must be inside commit order
    void rollback();
    void release_rows();
    void clear();
};

struct KeyRec
{
    std::string s; // parts joined with '/'
    int type;
    bool operator<(const KeyRec& o) const { return s != o.s ? s < o.s : type < o.type; }
    bool operator==(const KeyRec& o) const { return s == o.s && type == o.type; }
};

// Ordered write set (position in the total order).
struct Piece
{
    long seqno = 0;
    TrxKey key;
    int flags = 0;
    std::string data;
    std::vector<KeyRec> keys;
    bool local = false;
    bool entered = false;
    bool left = false;
    bool recorded = false;  // the server was told to record the position
    bool cancelled = false; // the provider itself stepped over the position
    int verdict = 0;        // 0 unknown, 1 certified, 2 failed
    int se_commits = 0;
    std::string err;        // error detail given at leave
    bool passed() const { return left || cancelled; }
};

// Local transaction as tracked by the environment.
struct Trx
{
    unsigned long long id = 0;
    Client* client = nullptr;
    // provider side
    bool known = false;    // exists in the provider
    bool aborted = false;  // BF abort accepted by the provider, not yet consumed by replay
    enum PS { p_exec, p_repl, p_cert, p_fail } ps = p_exec;
    long seqno = 0;        // position of the piece being processed
    bool entered = false;
    bool commit_piece = false;
    bool frag_pending = false; // a certified fragment not yet released
    bool hook_returned = false; // before_commit() returned success
    long commit_seqno = 0;
    bool released = true;
    int prov_accept = 0;
    int prov_refuse = 0;
    bool late_abort = false;  // abort asked for after the commit was ordered
    std::string pdata;     // data appended since the last piece
    std::vector<KeyRec> pkeys;
    std::vector<KeyRec> all_keys; // keys the session appended
    std::vector<int> pieces;  // indexes of ordered pieces (World::order)
    int pieces_tried = 0;
    int rb_sent = 0;
    // DBMS side
    int se_commits = 0;
    int se_rollbacks = 0;
    int replays = 0;
    std::string written;   // bytes generated by the session
    // history
    int bf_accepted = 0;
    int bf_refused = 0;
    std::set<std::pair<int, int>> ok_errs; // acceptable (error, status or -1)
    int faults = 0;        // failures reported to the library on behalf of this transaction
    bool interrupted = false;
    bool voluntary_rb = false;
    bool xa = false;
    bool xa_prepared = false;
    bool xa_prep_piece = false; // the piece which prepares was certified
    int xa_asked = 0;         // decision asked for: 1 commit, 2 rollback
    int xa_decisions = 0;     // decisions ordered
    bool xa_err = false;      // an error was reported to the session
    bool to_abort = false; // total order abort accepted
    bool detached = false;
    bool no_provider = false; // excluded from commit expectations
    bool fatal = false;
    bool done = false;
    bool streaming() const { return pieces_frag > 0; }
    int pieces_frag = 0;
    int frags_ok = 0;     // fragments that passed certification
    bool rb_pending = false;
    bool released_final = false;
    std::string outcome() const;
};

struct WS // write set to be applied by the applier
{
    TrxKey key;
    unsigned long long client = 0;
    long seqno;
    int flags;
    std::string data;
    bool fail = false;
    long begin_seqno = 0; // NBO end: position of NBO begin
    std::function<void(Hps*)> event; // not a write set but a view or the like
};

struct CertFault
{
    Status st;
    bool ordered;
};

struct Cfg
{
    enum wsrep::server_state::rollback_mode rm = wsrep::server_state::rm_async;
    bool sst_before_init = false;
    std::vector<CertFault> cert_faults; // for commit pieces
    std::vector<CertFault> frag_faults; // for fragments
    bool abort_refuse = false;          // provider may refuse any abort
    bool rollback_fail = false;         // provider.rollback() may fail
    bool append_fail = false;           // provider.append_data() may fail
    bool release_fail = false;          // provider.release() after a fragment may fail
    bool start_fail = false;
    bool storage_fail = false;          // storage service calls may fail
    bool leave_fail = false;            // commit_order_leave of a fragment may fail
    bool data_fail = false;             // prepare_*_for_replication may fail
    bool empty_fragment = false;        // prepare_fragment may return no data
    bool interrupt = false;
    bool remove_frag_fail = false;      // client remove_fragments may fail
    bool not_allowed_streaming = false; // statement_allowed_for_streaming may be false
    bool adopt_fail = false;
    bool hps_fail = false;              // storage operations of appliers may fail
    bool apply_fail = false;
    bool replay_choice = true;          // replay may end in certification failure
    int replay_style = 0;               // 0: separate client, 1: own client in high priority mode
    bool conn_fail_on_abort = false;    // certify of an aborted trx may return connection_failed
    bool toi_faults = false;
    bool requires_globals = true;
    bool mariadb_stmt = false;
    bool lazy_rollback = false;         // leave rollback after failed commit to after_statement()
    bool two_pc = false;
    bool partial_fragment = false;      // fragments take one byte, the rest stays behind
    bool spurious = false;              // condition waits may wake up for nothing
};

struct Provider : wsrep::provider
{
    World& w;
    explicit Provider(wsrep::server_state& s, World& w_) : wsrep::provider(s), w(w_) { }
    // -- connection
    int connects = 0, disconnects = 0;
    std::function<int()> disconnect_fn;
    Status connect(const std::string&, const std::string&, const std::string&, bool) override;
    std::function<Status(const std::string&, const std::string&, const std::string&, bool)>
        connect_fn;
    int disconnect() override;
    int capabilities() const override { return P::capability::streaming; }
    // -- flow
    int desyncs = 0, resyncs = 0;
    int pauses = 0, resumes = 0;
    int paused = 0;
    std::function<int()> desync_fn, resync_fn, pause_fn, resume_fn;
    int desync() override;
    int resync() override;
    wsrep::seqno pause() override;
    int resume() override;
    Status run_applier(wsrep::high_priority_service*) override { return success; }
    int start_transaction(wsrep::ws_handle&) override;
    Status assign_read_view(wsrep::ws_handle&, const wsrep::gtid*) override { return success; }
    int append_key(wsrep::ws_handle&, const wsrep::key&) override;
    Status append_data(wsrep::ws_handle&, const wsrep::const_buffer&) override;
    Status certify(wsrep::client_id, wsrep::ws_handle&, int flags, wsrep::ws_meta&,
                   const seq_cb_t*) override;
    Status bf_abort(wsrep::seqno, wsrep::transaction_id, wsrep::client_service&,
                    wsrep::seqno&) override;
    Status rollback(wsrep::transaction_id) override;
    Status commit_order_enter(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
    int commit_order_leave(const wsrep::ws_handle&, const wsrep::ws_meta&,
                           const wsrep::mutable_buffer&) override;
    int release(wsrep::ws_handle&) override;
    Status replay(const wsrep::ws_handle&, wsrep::high_priority_service*) override;
    Status enter_toi(wsrep::client_id, const wsrep::key_array&, const wsrep::const_buffer&,
                     wsrep::ws_meta&, int) override;
    Status leave_toi(wsrep::client_id, const wsrep::ws_meta&,
                     const wsrep::mutable_buffer&) override;
    std::function<std::pair<wsrep::gtid, Status>(int)> causal_fn;
    std::pair<wsrep::gtid, Status> causal_read(int t) const override;
    Status wait_for_gtid(const wsrep::gtid&, int) const override { return success; }
    wsrep::gtid last_committed_gtid() const override { return wsrep::gtid(); }
    struct SstReport { wsrep::gtid gtid; int err; };
    std::vector<SstReport> sst_sents, sst_recvs;
    std::function<Status()> sst_sent_fn, sst_received_fn;
    Status sst_sent(const wsrep::gtid&, int) override;
    Status sst_received(const wsrep::gtid&, int) override;
    Status enc_set_key(const wsrep::const_buffer&) override { return success; }
    std::vector<status_variable> status() const override { return {}; }
    void reset_status() override { }
    std::string options() const override { return ""; }
    Status options(const std::string&) override { return success; }
    Status set_node_isolation(enum node_isolation) override { return success; }
    std::string name() const override { return "sim"; }
    std::string version() const override { return "0"; }
    std::string vendor() const override { return "vf"; }
    void* native() const override { return nullptr; }
    // -- TOI bookkeeping
    struct Toi { long seqno; unsigned long long client; int flags; bool in; long begin_ref;
                 std::string data; };
    std::vector<Toi> tois;
    std::function<CertFault(int attempt)> toi_fn; // may return a failure
    std::function<Status()> leave_toi_fn;
    int toi_calls = 0;
    int in_toi_now = 0;
    void cancel_fragments(Trx& t);
    int rb_fails = 0;
    int vote = 0;              // result of the last vote on an apply error
    std::vector<unsigned long long> rb_log; // successful rollback notifications in order
};

struct ServerService : wsrep::server_service
{
    World& w;
    explicit ServerService(World& w_) : w(w_) { }
    wsrep::storage_service* storage_service(wsrep::client_service&) override;
    wsrep::storage_service* storage_service(wsrep::high_priority_service&) override;
    void release_storage_service(wsrep::storage_service*) override;
    wsrep::high_priority_service* streaming_applier_service(wsrep::client_service&) override;
    wsrep::high_priority_service* streaming_applier_service(wsrep::high_priority_service&)
        override;
    void release_high_priority_service(wsrep::high_priority_service*) override;
    void background_rollback(Lock&, wsrep::client_state&) override;
    int bootstraps = 0;
    std::function<void()> bootstrap_fn;
    void bootstrap() override { ++bootstraps; if (bootstrap_fn) bootstrap_fn(); }
    void log_message(enum wsrep::log::level, const char*) override { ++messages; }
    int messages = 0;
    void log_dummy_write_set(wsrep::client_state&, const wsrep::ws_meta&) override { }
    std::vector<wsrep::view> views;
    std::vector<bool> views_hps; // whether logged with a high priority service
    void log_view(wsrep::high_priority_service* h, const wsrep::view& v) override
    { views.push_back(v); views_hps.push_back(h != nullptr); }
    int recoveries = 0;
    std::function<void()> on_recover;
    void recover_streaming_appliers(wsrep::client_service&) override;
    void recover_streaming_appliers(wsrep::high_priority_service&) override;
    void recover(Hps* orig);
    wsrep::view stored_view;
    wsrep::view get_view(wsrep::client_service&, const wsrep::id&) override
    { return stored_view; }
    wsrep::gtid position;
    std::function<wsrep::gtid()> get_position_fn;
    wsrep::gtid get_position(wsrep::client_service&) override
    { return get_position_fn ? get_position_fn() : position; }
    void set_position(wsrep::client_service&, const wsrep::gtid& g) override;
    std::vector<std::pair<int, int>> changes; // state transitions announced
    std::function<void(int, int)> on_state_change;
    void log_state_change(enum wsrep::server_state::state, enum wsrep::server_state::state)
        override;
    bool sst_before_init() const override;
    std::string sst_request() override { return "sst"; }
    std::function<int()> start_sst_fn;
    int start_sst(const std::string&, const wsrep::gtid&, bool) override
    { return start_sst_fn ? start_sst_fn() : 0; }
    std::function<int()> wait_committing_fn;
    int wait_committing_transactions(int) override
    { return wait_committing_fn ? wait_committing_fn() : 0; }
    std::function<void(const char*)> sync_fn;
    void debug_sync(const char* p) override { if (sync_fn) sync_fn(p); }
};

struct Server : wsrep::server_state
{
    SMutex& mtx;
    Server(World& w, SMutex& m, SCond& c, ServerService& ss);
};

struct ClientState : wsrep::client_state
{
    SMutex mtx;
    SCond cnd;
    ClientState(Server& s, wsrep::client_service& cs, unsigned long long id,
                enum wsrep::client_state::mode m)
        : wsrep::client_state(mtx, cnd, s, cs, wsrep::client_id(id), m)
        , mtx("client"), cnd("client_cond")
    { }
};

// Result of one command as seen by the client application.
struct Result
{
    bool ran = false;          // the command body was executed
    int body = 0;              // what the body returned
    enum wsrep::client_error err = wsrep::e_success;
    Status status = P::success;
};

struct Client : wsrep::client_service
{
    World& w;
    unsigned long long id;
    bool hp;
    ClientState cs;
    SE se;
    Trx* trx = nullptr;          // current logical transaction (local sessions)
    std::vector<Result> results;
    bool explicit_xa = false;
    bool xa_rollback_cmd = false;
    wsrep::xid xid;
    Trx* xa_trx = nullptr;       // last XA transaction of the session
    size_t bytes = 0;            // bytes_generated of the current transaction
    bool frag_replaying = false;
    bool in_before_command = false;
    int shutdowns = 0;
    int operated_by = -1;        // fiber inside an operation of this session (C04)
    long expect_last_written = 0;
    enum Stage { st_none, st_commit, st_prepare } stage = st_none;
    bool want_pa_unsafe = false;  // asked for the next piece
    bool want_implicit = false;   // asked for the rest of the transaction
    bool whole_fragment = false;  // overrides Cfg::partial_fragment
    size_t sent_pos = 0;
    long op_serial = 0;
    bool opened = false;
    bool interrupt_now = false;
    std::string cur_row;
    bool trx_in_cmd = false;
    bool keeping = false;           // running command keeps its error for the next one
    int cmd_err = wsrep::e_success; // error the running command is expected to report
    int kept_err = wsrep::e_success;
    const void* service = nullptr;  // replayer operating this session
    const void* context() const;

    Client(World&, unsigned long long id, enum wsrep::client_state::mode);

    // ---- client_service
    bool interrupted(Lock&) const override;
    void reset_globals() override;
    void store_globals() override;
    int prepare_data_for_replication() override;
    void cleanup_transaction() override;
    bool statement_allowed_for_streaming() const override;
    size_t bytes_generated() const override { return bytes; }
    int prepare_fragment_for_replication(wsrep::mutable_buffer&, size_t&) override;
    int remove_fragments() override;
    int bf_rollback() override;
    void emergency_shutdown() override;
    void will_replay() override;
    void signal_replayed() override;
    Status replay() override;
    Status replay_unordered() override;
    void wait_for_replayers(Lock&) override;
    Status commit_by_xid() override;
    bool is_explicit_xa() override { return explicit_xa; }
    bool is_prepared_xa() override { return explicit_xa && trx && trx->xa_prepared; }
    bool is_xa_rollback() override { return xa_rollback_cmd; }
    void debug_sync(const char*) override { }
    void debug_crash(const char*) override { }
    void notify_state_change() override { }

    // ---- DBMS session
    void open();
    void close();
    Result command(std::function<int()> body, bool keep = false);
    int begin();                         // start a transaction
    int write(char row, const std::string& data);
    int commit();                        // whole commit sequence incl. rollback on error
    int rollback();                      // voluntary rollback
    int do_rollback();                   // before_rollback, SE rollback, after_rollback
    int xa_prepare();
    int xa_decide(bool commit);          // prepared here or findable by identifier
    int by_xid(const wsrep::xid&, bool commit);
    void xa_check_prepared();
    bool trx_active() const { return cs.transaction().active(); }
    enum T::state tstate() const { return cs.transaction().state(); }
    void check_result(const Result&);
    void finish_trx(const Result&);
    void enter_op(const char*);
    void leave_op();
};

struct Hps : wsrep::high_priority_service
{
    World& w;
    Client* c;
    bool replaying;
    const char* kind;
    bool released = false;
    bool bound = false;
    TrxKey key;
    int serial;
    bool fail_next = false;       // next apply_write_set fails
    bool unfinished = false;      // after_apply() is due
    bool storage_fault(const char* op);
    Hps(World&, Client*, bool replaying, const char* kind);
    void alive(const char* op);
    void need_globals(const char* op);
    int start_transaction(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
    int next_fragment(const wsrep::ws_meta&) override;
    const wsrep::transaction& transaction() const override;
    int adopt_transaction(const wsrep::transaction&) override;
    int apply_write_set(const wsrep::ws_meta&, const wsrep::const_buffer&,
                        wsrep::mutable_buffer&) override;
    int append_fragment_and_commit(const wsrep::ws_handle&, const wsrep::ws_meta&,
                                   const wsrep::const_buffer&, const wsrep::xid&) override;
    int remove_fragments(const wsrep::ws_meta&) override;
    int commit(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
    int rollback(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
    int apply_toi(const wsrep::ws_meta&, const wsrep::const_buffer&,
                  wsrep::mutable_buffer&) override;
    int apply_nbo_begin(const wsrep::ws_meta&, const wsrep::const_buffer&,
                        wsrep::mutable_buffer&) override;
    void after_apply() override;
    void store_globals() override;
    void reset_globals() override;
    void switch_execution_context(wsrep::high_priority_service&) override;
    int log_dummy_write_set(const wsrep::ws_handle&, const wsrep::ws_meta&,
                            wsrep::mutable_buffer&) override;
    void adopt_apply_error(wsrep::mutable_buffer&) override;
    bool is_replaying() const override { return replaying; }
    void debug_crash(const char*) override { }
    int apply(const WS&);
    bool tstate_ok() const;
};

struct Storage : wsrep::storage_service
{
    World& w;
    Client* c;
    wsrep::client_service* orig; // session it serves (0: applier)
    bool released = false;
    TrxKey key;
    long long pending = -1; // index in se.adds of the appended fragment
    Storage(World&, wsrep::client_service* orig);
    void alive(const char*);
    void need_globals(const char*);
    void fault();
    int start_transaction(const wsrep::ws_handle&) override;
    void adopt_transaction(const wsrep::transaction&) override;
    int append_fragment(const wsrep::id&, wsrep::transaction_id, int,
                        const wsrep::const_buffer&, const wsrep::xid&) override;
    int update_fragment_meta(const wsrep::ws_meta&) override;
    int remove_fragments() override;
    int commit(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
    int rollback(const wsrep::ws_handle&, const wsrep::ws_meta&) override;
    void store_globals() override;
    void reset_globals() override;
    bool requires_globals() const override;
};

struct World
{
    Cfg cfg;
    SMutex smutex{"server"};
    SCond scond{"server_cond"};
    ServerService service;
    std::unique_ptr<Server> server;
    Provider* provider = nullptr;
    wsrep::id own_id;

    // total order
    std::vector<Piece> order;      // order[i].seqno == i + 1
    bool ordering_broken = false;
    long new_seqno() { return (long)order.size() + 1; }
    Piece& piece(long seqno);
    Piece& add_piece(const TrxKey&, int flags, const std::string& data, bool local);
    bool all_passed_before(long seqno) const;

    // database
    std::map<TrxKey, std::string> db;   // committed data per transaction
    std::map<TrxKey, std::vector<Frag>> frags;
    std::map<char, SE*> rows;
    void lock_row(char row, SE* se);     // ordinary session
    void bf_lock_row(char row, SE* se, long seqno, bool toi = false);
    bool victim_abort(Client* victim, long seqno, bool toi = false);

    // sessions and services
    std::vector<std::unique_ptr<Client>> clients;
    std::vector<std::unique_ptr<Trx>> trxs;
    std::vector<std::unique_ptr<Hps>> hps;
    std::vector<std::unique_ptr<Storage>> storages;
    unsigned long long next_client = 1;
    unsigned long long next_trx = 1;
    int replayers = 0;
    bool replay_commit = false;  // commit by identifier as part of a replay
    Trx* find_trx(unsigned long long id);
    Client* new_client(enum wsrep::client_state::mode m = wsrep::client_state::m_local);
    Hps* new_hps(const char* kind, bool replaying = false);
    std::map<wsrep::client_state*, Client*> by_state;

    // thread context (C21)
    std::map<int, const void*> globals;
    void set_globals(const void* o) { globals[vf::self()] = o; }
    const void* cur_globals() { return globals[vf::self()]; }

    // background rollbacker
    struct PendingRb { unsigned long long id; int fiber; long visible; long added; };
    std::vector<PendingRb> pending_rb;
    long serial = 1;
    void make_visible();
    void synced();               // on_sync() event
    struct RbJob { Client* c; Hps* h; };
    std::deque<RbJob> rb_queue;
    int rb_running = 0;
    bool rb_started = false;
    void start_rollbacker();
    void rollbacker();
    bool rb_idle() const { return rb_queue.empty() && rb_running == 0; }

    // applier
    std::deque<WS> queue;
    int applying = 0;
    bool applier_dead = false;
    Hps* applier = nullptr;
    void start_applier();
    void applier_loop();
    bool applier_started = false;
    int hps_serial = 0;
    long fail_seqno = 0;         // applying this position fails
    bool fail_silent = false;    // ... without error message
    std::set<TrxKey> adopt_failed;
    int hps_faulted = 0;                // failures of appliers' storage operations
    std::set<Client*> hp_aborted;
    std::map<TrxKey, wsrep::xid> xid_of;
    std::vector<long> toi_applied, nbo_applied;
    std::function<int(const wsrep::ws_meta&, const std::string&)> nbo_fn;
    void wait_fragment_rows(const TrxKey&, SE*);
    void drain();      // wait until the queue and the rollbacker are idle

    bool node_failed = false; // the provider gave a fatal answer; oracles are off
    std::function<void(const WS&, int ret)> on_applied;
    std::function<uint64_t()> extra_hash;

    explicit World(const Cfg&);
    ~World();
    void join_cluster();  // connect, become primary member and synced
    wsrep::view make_view(long seqno, enum wsrep::view::status st,
                          const std::vector<unsigned char>& members, int own_index,
                          long view_seqno = 1);
    // Ordered event (view) handled by the applier inside the commit order.
    long post_event(bool ordered, std::function<void(Hps*)> fn);
    bool primary = true;         // the provider can replicate
    long cert_floor = 0;         // transactions begun before it do not pass certification
    WS remote(unsigned char server, unsigned long long trx, int flags, const std::string& data);
    void check_end();
    uint64_t hash();
};

// Runs body in a fresh world, then checks that nothing is left over.
void with_world(const Cfg&, std::function<void(World&)> body);
std::string str(const wsrep::const_buffer&);
}
#endif
