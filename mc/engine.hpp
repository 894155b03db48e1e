// Stateless model checker: fibers + controlled scheduler + bounded DFS over choices.
//
// All code of an execution runs in fibers of one OS thread.  Every scheduling decision and every
// environment answer goes through choose(); an execution is completely determined by the list of
// choices, so the explorer can enumerate all executions within a preemption bound and an
// environment-deviation bound and can replay any of them.
#ifndef VF_ENGINE_HPP
#define VF_ENGINE_HPP
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace vf
{
    // ---- choices -------------------------------------------------------------------------
    // Environment answer: 0 is the default, any other costs one deviation.
    int env(int n, const char* label);
    // Like env() but limited to be used only while the flag is set (keeps scenarios readable).
    inline int env_if(bool on, int n, const char* label) { return on ? env(n, label) : 0; }
    // Scenario parameter / operation choice: every value explored, no cost.
    int pick(int n, const char* label);

    // ---- threads -------------------------------------------------------------------------
    // Start a fiber.  A daemon may still be blocked when the execution ends.
    int spawn(const char* name, std::function<void()> fn, bool daemon = false);
    // Scheduling point: another enabled fiber may be preferred (costs a preemption).
    void point(const char* label);
    // Block until pred() holds (pred is evaluated by the scheduler, must be side-effect free).
    void block_until(std::function<bool()> pred, const char* label);
    // Wait for a fiber to finish.
    void join(int fiber);
    void join_all(); // all non-daemon fibers other than the caller
    void quiesce();  // daemons are not scheduled any more
    bool finished(int fiber);
    bool in_cond(int fiber); // waits on a condition variable, not signalled yet
    int self();
    const char* self_name();

    // Scheduler-aware mutex and condition variable.
    struct Mutex
    {
        int owner = -1;
        const char* name = "mutex";
        void lock();
        void unlock();
    };
    struct Cond
    {
        const char* name = "cond";
        void wait(Mutex&);
        void notify_one();
        void notify_all();
    };

    // ---- verdicts ------------------------------------------------------------------------
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define VF_CHECK(cond, ...) do { if (!(cond)) ::vf::fail(__VA_ARGS__); } while (0)
    // End this execution early without verdict (e.g. modelled process death).
    [[noreturn]] void stop_execution(const char* why);
    void outcome(const std::string& s);          // append to this execution's observable outcome
    void state_hash(uint64_t h);                 // record a visited state
    void set_state_fn(std::function<uint64_t()> fn); // evaluated at scheduling points
    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return h;
    }
    uint64_t hash_str(const std::string& s);
    void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    bool tracing();

    // ---- virtual time --------------------------------------------------------------------
    uint64_t vtime_ns();
    void vtime_advance(uint64_t ns);

    // ---- scenarios -----------------------------------------------------------------------
    struct Bounds { int preempt; int dev; };
    struct Scenario
    {
        std::string name;
        std::function<void()> body;       // runs in root fiber
        std::vector<Bounds> quick;        // increasing list
        std::vector<Bounds> thorough;
        std::vector<std::string> props;   // properties it serves
    };
    std::vector<Scenario>& scenarios();
    struct Reg
    {
        Reg(std::string name, std::vector<std::string> props, std::vector<Bounds> q,
            std::vector<Bounds> t, std::function<void()> body)
        { scenarios().push_back({name, body, q, t, props}); }
    };
    int main(int argc, char** argv);

    // When set, mutex unlock is also a scheduling point (default true).
    extern bool unlock_points;
    // When set, every condition wait may also wake up spuriously (one deviation).
    extern bool spurious;
    extern int horizon;
}
#endif
