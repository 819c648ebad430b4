// Lifetime driver: random histories of API calls against a host-side model of reachability (C04).
// The model knows, for every native object, whether it must still be reachable (an over-approximation of nothing:
// only edges that certainly exist) and whether it may be (all edges that could exist). Finalizers and callbacks
// report into a ledger; the rules are checked after every operation.
#include "batch.hpp"
#include "host.hpp"

#include <algorithm>
#include <functional>
#include <set>

using namespace host;

namespace {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed)
        : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s * 2685821657736338717ull >> 11;
    }
    size_t below(size_t n) { return size_t(next() % n); }
    bool chance(size_t n) { return below(n) == 0; }
};

enum Kind { Native, Array, Tuple, Record, Box, Opaque, Coro, Token, Atom };

struct Node {
    int id = 0;
    Kind kind = Atom;
    std::vector<int> must; // children (element list for containers); -1: not an object
    std::vector<int> may;  // further children that might exist
    bool finalized = false;
    bool has_finalizer = false;
    size_t size = 0;
    int type = 0;
    // coroutines
    int fn = 0, state = 0; // 0 new, 1 scheduled, 2 waiting for a token, 3 done, 4 waiting for a script token, 5 unknown
    int pending = -1;      // id of the token it waits for
    int reg = -1;          // active callback registration
    std::vector<int> args;
};

constexpr uint32_t MAGIC = 0x51de0a11;

struct Header {
    uint32_t magic;
    int id;
    uint64_t size;
    struct World* world;
    int type;
    int alive;
};

struct Reg {
    int id = 0;
    int coro = -1;
    struct World* w = nullptr;
    bool has_cleanup = true;
    bool active = false; // the registration that counts for its coroutine
    bool failed = false;
    int calls = 0, cleanups = 0;
    int action = 0;
};

struct PendingToken {
    tiro_async_token_t token;
    int coro;
    bool completed = false;
};

const char* SOURCE = R"(
import host;
import std;
export func ret(id, x, y) = x;
export func pair(id, x, y) = (y, x);
export func drop(id, x, y) { const z = [x, y, x]; return z.size(); }
export func fail(id, x, y) { const z = (x, y); std.panic("failed"); }
export func closure(id, x, y) { return func() = x; }
export func cell(id, x, y) { var v = x; const f = func() { v = y; return v; }; return (f, [f]); }
export func mapped(id, x, y) { const m = map{"a": x}; m["b"] = y; return m; }
export func keyed(id, x, y) { const m = map{x: 1, y: 2}; m["k"] = m; return m; }
export func members(id, x, y) { return set{x, y}; }
export func removed(id, x, y) { const m = map{1: x, 2: y}; m.remove(1); return m; }
export func native(id, x, y) { return [host.fresh(id), x]; }
export func local(id, x, y) { const n = host.fresh(id); host.fresh(id); return y; }
export func wait(id, x, y) { const r = host.susp(id); return (x, y, r); }
export func wait2(id, x, y) { const a = [x]; host.susp(id); const r = host.susp(id); a.append(r); return (a, y); }
export func deferred(id, x, y) { const a = []; defer a.append(x); host.susp(id); return a; }
export func waitfail(id, x, y) { defer host.susp(id); const z = (x, y); std.panic("later"); }
export func deep(id, x, y) { return dive(id, 60, x, y); }
func dive(id, n, x, y) { if (n == 0) { const r = host.susp(id); return (x, r); } const t = (x, n); const r = dive(id, n - 1, x, y); return (r, t[0]); }
export func resumed(id, x, y) { return host.res(id, x, y); }
export func caught(id, x, y) { const r = host.susp(id); return r; }
export func struct_(id, x, y) { return (foo: x, bar: (y,)); }
export func iter(id, x, y) { const l = [x, y]; var k = 0; for e in l { if (k == 0) { host.susp(id); } k += 1; } return l; }
)";

struct Fn {
    const char* name;
    int suspends; // number of tokens
    // what the result certainly contains: x, y, r (token result), n (fresh native), '-' nothing
    const char* result;
    const char* live; // what a suspended frame certainly still needs
};
const Fn FNS[] = {
    {"ret", 0, "x", ""}, {"pair", 0, "xy", ""}, {"drop", 0, "-", ""}, {"fail", 0, "!", ""},
    {"closure", 0, "x", ""}, {"cell", 0, "x", ""}, {"mapped", 0, "xy", ""}, {"keyed", 0, "xy", ""},
    {"members", 0, "xy", ""}, {"removed", 0, "y", ""}, {"native", 0, "nx", ""}, {"local", 0, "y", ""},
    {"wait", 1, "xyr", "xy"}, {"wait2", 2, "xyr", "xy"}, {"deferred", 1, "x", "x"}, {"waitfail", 1, "!", ""},
    {"deep", 1, "xr", "x"}, {"resumed", 1, "xr", "x"}, {"caught", 1, "r", ""}, {"struct_", 0, "xy", ""},
    {"iter", 1, "xy", "xy"},
};
constexpr int NFN = int(sizeof FNS / sizeof *FNS);

struct World {
    Rng rng;
    tiro_vm_t vm = nullptr;
    std::vector<Node> nodes;
    std::vector<tiro_handle_t> slots;
    std::vector<int> slot_node;
    std::vector<tiro_handle_t> functions;
    std::vector<std::unique_ptr<Reg>> regs;
    std::vector<PendingToken> tokens;
    std::vector<int> scheduled;     // coroutines in the ready queue
    std::vector<int> fresh;         // natives created by script functions, per coroutine run
    std::map<int, std::vector<int>> fresh_of;
    std::set<int> ever_live;
    json bad = json::array();
    json trace = json::array();
    bool running = false, freeing = false, in_callback = false;
    bool uncertain = false;         // faults were injected while script code ran
    int last_event = 0;             // ledger of callback / cleanup order: id of callback that just returned, or 0
    uint64_t finalizations = 0, reach_checks = 0, calls = 0, cleanups = 0, forced = 0, faults = 0;
    std::vector<int> fin_queue;
    std::string signature;

    explicit World(uint64_t seed)
        : rng(seed) {}

    void note(const std::string& s) {
        if (getenv("LDRV_TRACE"))
            std::fprintf(stderr, "%s\n", s.c_str());
    }
    void fail(const std::string& key, const std::string& what) {
        if (bad.size() < 8)
            bad.push_back({key, what});
    }

    int add(Kind k) {
        Node n;
        n.id = int(nodes.size());
        n.kind = k;
        nodes.push_back(n);
        return n.id;
    }

    // ---- reachability ----
    std::vector<char> reach(bool may) {
        std::vector<char> r(nodes.size(), 0);
        std::vector<int> st;
        auto push = [&](int n) {
            if (n >= 0 && !r[size_t(n)]) {
                r[size_t(n)] = 1;
                st.push_back(n);
            }
        };
        for (int n : slot_node)
            push(n);
        for (int n : scheduled)
            push(n);
        for (auto& t : tokens)
            if (may || !t.completed)
                push(t.coro);
        for (int n : extra_roots)
            push(n);
        while (!st.empty()) {
            Node& n = nodes[size_t(st.back())];
            st.pop_back();
            for (int c : n.must)
                push(c);
            if (may) {
                for (int c : n.may)
                    push(c);
                for (int c : n.args)
                    push(c);
            }
        }
        return r;
    }
    std::vector<int> extra_roots;
    bool want_faults = false;

    void check_reach() {
        if (fin_queue.empty())
            return;
        auto must = reach(false);
        for (int id : fin_queue)
            if (!uncertain && must[size_t(id)])
                fail("finalized-reachable", "native object " + std::to_string(id) + " was finalized while reachable");
        fin_queue.clear();
        ++reach_checks;
    }

    void check_collected(const char* when) {
        auto may = reach(true);
        int left = 0, first = -1;
        for (auto& n : nodes)
            if (n.kind == Native && n.has_finalizer && !n.finalized && !may[size_t(n.id)]) {
                ++left;
                if (first < 0)
                    first = n.id;
            }
        if (left && getenv("LDRV_TRACE")) {
            for (auto& n : nodes) {
                auto has = [&](std::vector<int>& v) { return std::find(v.begin(), v.end(), first) != v.end(); };
                if (has(n.must) || has(n.may) || has(n.args) || n.pending == first)
                    note("holder " + std::to_string(n.id) + " kind " + std::to_string(n.kind) + " fn "
                        + FNS[n.fn].name + " state " + std::to_string(n.state) + " type " + std::to_string(n.type)
                        + " reach " + std::to_string(may[size_t(n.id)]));
            }
        }
        if (left && !uncertain)
            fail("not-finalized", std::to_string(left) + " unreachable native object(s) not finalized " + when + ", first "
                    + std::to_string(first) + " size " + std::to_string(nodes[size_t(first)].size));
    }

    static unsigned char fill(int id, size_t i) { return (unsigned char)(id * 31 + i * 7 + (i >> 8)); }

    int make_native(tiro_handle_t out, size_t size, int type);
    void check_native(int id, tiro_handle_t h);
    void op(int depth);
    void run();
    void finish(int coro, bool token_panic, int result);
    void force();
    void cleanup_regs_due();
    int random_slot() { return int(rng.below(slots.size())); }
    Reg* set_callback(tiro_handle_t h, int coro, int bad_mode);
    void new_coroutine(int depth);
    void act(Reg& r);
};

void finalize(void* data, size_t size, int type) {
    Header h;
    std::memcpy(&h, data, sizeof h);
    if (h.magic != MAGIC) {
        std::fprintf(stderr, "VP-MONITOR: finalizer got data that does not belong to its object\n");
        std::abort();
    }
    World& w = *h.world;
    Node& n = w.nodes.at(size_t(h.id));
    if (n.size != size || h.size != size)
        w.fail("finalizer-size", "object of " + std::to_string(n.size) + " bytes, finalizer got " + std::to_string(size));
    if (h.type != type || n.type != type)
        w.fail("finalizer-type", "object of type " + std::to_string(n.type) + ", finalizer of type " + std::to_string(type));
    if (n.finalized || !h.alive)
        w.fail("finalized-twice", "native object " + std::to_string(h.id) + " was finalized twice");
    auto bytes = static_cast<unsigned char*>(data);
    for (size_t i = sizeof h; i < size && i < n.size; ++i)
        if (bytes[i] != World::fill(h.id, i)) {
            w.fail("finalizer-data", "byte " + std::to_string(i) + " of object " + std::to_string(h.id) + " changed");
            break;
        }
    n.finalized = true;
    h.alive = 0;
    std::memcpy(data, &h, sizeof h);
    ++w.finalizations;
    w.fin_queue.push_back(h.id);
}
void fin0(void* d, size_t s) { finalize(d, s, 0); }
void fin1(void* d, size_t s) { finalize(d, s, 1); }
void fin2(void* d, size_t s) { finalize(d, s, 2); }
const tiro_native_type_t TYPES[] = {
    {{"First", 5}, 1, fin0}, {{"Second", 6}, 8, fin1}, {{"Third", 5}, 16, fin2}, {{"Plain", 5}, 4, nullptr},
};

int World::make_native(tiro_handle_t out, size_t size, int type) {
    if (size < sizeof(Header))
        size = sizeof(Header);
    const int before = int(nodes.size());
    Err err;
    tiro_make_native(vm, &TYPES[type], size, out, err);
    if (!err.ok())
        return -1;
    const int id = add(Native);
    (void) before;
    Node& n = nodes[size_t(id)];
    n.size = size;
    n.type = type;
    n.has_finalizer = TYPES[type].finalizer != nullptr;
    auto data = static_cast<unsigned char*>(tiro_native_data(vm, out));
    if (tiro_native_size(vm, out) != size || !data || tiro_native_type_descriptor(vm, out) != &TYPES[type]
        || reinterpret_cast<uintptr_t>(data) % TYPES[type].alignment) {
        fail("native-attributes", "size, type or alignment of a new native object is wrong");
        return id;
    }
    for (size_t i = 0; i < size; ++i)
        if (data[i]) {
            fail("native-zero", "storage of a new native object is not zeroed");
            break;
        }
    Header h{MAGIC, id, size, this, type, 1};
    std::memcpy(data, &h, sizeof h);
    for (size_t i = sizeof h; i < size; ++i)
        data[i] = fill(id, i);
    return id;
}

void World::check_native(int id, tiro_handle_t h) {
    Node& n = nodes[size_t(id)];
    auto data = static_cast<unsigned char*>(tiro_native_data(vm, h));
    Header hd;
    if (!data || tiro_native_size(vm, h) != n.size) {
        fail("native-lost", "handle does not refer to the object written to it");
        return;
    }
    std::memcpy(&hd, data, sizeof hd);
    bool ok = hd.magic == MAGIC && hd.id == id && hd.alive;
    for (size_t i = sizeof hd; ok && i < n.size; ++i)
        ok = data[i] == fill(id, i);
    if (!ok)
        fail("native-lost", "data of reachable native object " + std::to_string(id) + " changed");
}

size_t native_size(Rng& r) {
    switch (r.below(8)) {
    case 0: return 32000 + r.below(70000);
    case 1: return 65000 + r.below(2000);
    case 2: return 1000 + r.below(4000);
    default: return sizeof(Header) + r.below(200);
    }
}

World* world_of(tiro_vm_t vm) { return static_cast<World*>(tiro_vm_userdata(vm)); }

int arg_int(tiro_vm_t vm, std::function<void(tiro_handle_t)> get) {
    H a(vm);
    get(a);
    return int(tiro_integer_value(vm, a));
}

void fn_fresh(tiro_vm_t vm, tiro_sync_frame_t f) {
    World& w = *world_of(vm);
    Err err;
    int coro = arg_int(vm, [&](tiro_handle_t h) { tiro_sync_frame_arg(f, 0, h, err); });
    H o(vm);
    int id = w.make_native(o, native_size(w.rng), int(w.rng.below(4)));
    if (id < 0) {
        tiro_sync_frame_panic_msg(f, ts("no memory"), err);
        return;
    }
    w.extra_roots.push_back(id); // what becomes of it is decided when the run is over
    w.fresh_of[coro].push_back(id);
    tiro_sync_frame_return_value(f, o, err);
}
void fn_susp(tiro_vm_t vm, tiro_async_frame_t f) {
    World& w = *world_of(vm);
    Err err;
    int coro = arg_int(vm, [&](tiro_handle_t h) { tiro_async_frame_arg(f, 0, h, err); });
    auto token = tiro_async_frame_token(f, err);
    if (!token) {
        tiro_async_frame_panic_msg(f, ts("no token"), err);
        return;
    }
    tiro_async_frame_yield(f, err);
    w.tokens.push_back({token, coro});
}
/// A resumable function that keeps x in a local over a suspension.
void fn_res(tiro_vm_t vm, tiro_resumable_frame_t f) {
    Err err;
    H a(vm), b(vm), t(vm);
    switch (tiro_resumable_frame_state(f)) {
    case 0:
        tiro_resumable_frame_arg(f, 1, a, err);
        tiro_resumable_frame_set_local(f, 0, a, err);
        tiro_vm_get_export(vm, ts("host"), ts("susp"), b, err);
        tiro_make_tuple(vm, 1, t, err);
        tiro_resumable_frame_arg(f, 0, a, err);
        tiro_tuple_set(vm, t, 0, a, err);
        tiro_resumable_frame_invoke(f, 1, b, t, err);
        break;
    case 1:
        tiro_make_tuple(vm, 2, t, err);
        tiro_resumable_frame_local(f, 0, a, err);
        tiro_tuple_set(vm, t, 0, a, err);
        tiro_resumable_frame_invoke_return(f, b, err);
        tiro_tuple_set(vm, t, 1, b, err);
        tiro_resumable_frame_return_value(f, t, err);
        break;
    default: break;
    }
}

void on_callback(tiro_vm_t vm, tiro_handle_t coro, void* userdata) {
    Reg& r = *static_cast<Reg*>(userdata);
    World& w = *r.w;
    ++r.calls;
    ++w.calls;
    if (w.last_event)
        w.fail("cleanup-late", "callback " + std::to_string(w.last_event) + " was not cleaned up before another callback ran");
    if (vm != w.vm)
        w.fail("callback-vm", "callback got another machine");
    if (!w.running)
        w.fail("callback-time", "callback outside of a run function");
    if (w.freeing)
        w.fail("callback-time", "callback during shutdown");
    if (r.calls > 1)
        w.fail("callback-twice", "callback " + std::to_string(r.id) + " ran " + std::to_string(r.calls) + " times");
    if (r.cleanups)
        w.fail("callback-after-cleanup", "callback " + std::to_string(r.id) + " ran after its cleanup");
    if (r.failed || (!r.active && !w.uncertain))
        w.fail("callback-unregistered", "a callback ran that is not registered (" + std::to_string(r.id) + ")");
    if (tiro_value_kind(vm, coro) != TIRO_KIND_COROUTINE || !tiro_coroutine_completed(vm, coro))
        w.fail("callback-coro", "callback got something that is not a completed coroutine");
    Err err;
    H res(vm);
    tiro_coroutine_result(vm, coro, res, err);
    if (!err.ok())
        w.fail("callback-coro", "no result in callback: " + err.name());
    if (r.action && w.fin_queue.size() < 1000000) {
        w.act(r);
    }
    if (r.has_cleanup)
        w.last_event = r.id;
}
void on_cleanup(void* userdata) {
    Reg& r = *static_cast<Reg*>(userdata);
    World& w = *r.w;
    ++r.cleanups;
    ++w.cleanups;
    if (r.cleanups > 1)
        w.fail("cleanup-twice", "cleanup of callback " + std::to_string(r.id) + " ran " + std::to_string(r.cleanups) + " times");
    if (!r.has_cleanup)
        w.fail("cleanup-unregistered", "cleanup ran that was not registered");
    if (w.last_event == r.id)
        w.last_event = 0;
}

void World::act(Reg& r) {
    // Work done inside a callback. The model cannot know which coroutines have completed already, so only
    // operations whose effect does not depend on that are used.
    Err err;
    switch (r.action) {
    case 1: vp_force_gc(vm); break;
    case 2: {
        for (int i = 0; i < 30; ++i) {
            H g(vm);
            tiro_make_string(vm, ts("garbage garbage garbage garbage"), g, err);
        }
        break;
    }
    case 3: { // a callback creates natives and drops them
        H g(vm);
        make_native(g, native_size(rng), int(rng.below(4)));
        break;
    }
    case 4: // starts another coroutine with a callback, which runs in the same call to run
        in_callback = true;
        new_coroutine(1);
        in_callback = false;
        break;
    case 5: { // forgets a handle
        int s = random_slot();
        tiro_make_null(vm, slots[size_t(s)]);
        slot_node[size_t(s)] = -1;
        vp_force_gc(vm);
        break;
    }
    }
}

Reg* World::set_callback(tiro_handle_t h, int coro, int bad_mode) {
    regs.push_back(std::make_unique<Reg>());
    Reg& r = *regs.back();
    r.id = int(regs.size());
    r.coro = coro;
    r.w = this;
    r.has_cleanup = !rng.chance(4);
    r.action = rng.chance(3) ? 1 + int(rng.below(5)) : 0;
    Err err;
    H wrong(vm);
    tiro_coroutine_callback_t cb = on_callback;
    auto before = vp::mon.faults;
    switch (bad_mode) {
    case 1: cb = nullptr; break;
    case 2: h = nullptr; break;
    case 3: h = wrong; break; // null value
    default: break;
    }
    tiro_coroutine_set_callback(bad_mode == 4 ? nullptr : vm, h, cb, r.has_cleanup ? on_cleanup : nullptr, &r, err);
    const bool faulted = vp::mon.faults != before;
    if (bad_mode || faulted) {
        r.failed = true;
        if (err.ok())
            fail("callback-error", "set_callback reported success for mode " + std::to_string(bad_mode));
        const tiro_errc_t want = bad_mode == 3 ? TIRO_ERROR_BAD_TYPE : bad_mode ? TIRO_ERROR_BAD_ARG : TIRO_ERROR_ALLOC;
        if (!err.ok() && err.code() != want)
            fail("callback-error", "set_callback mode " + std::to_string(bad_mode) + ": " + err.name());
        if (r.cleanups != (r.has_cleanup ? 1 : 0))
            fail("cleanup-failed-registration", "cleanups after a failed registration: " + std::to_string(r.cleanups)
                    + " (mode " + std::to_string(bad_mode) + ")");
        signature += 'f';
        return &r;
    }
    if (!err.ok()) {
        fail("callback-error", "set_callback failed: " + err.name() + " " + err.details());
        r.failed = true;
        return &r;
    }
    if (r.cleanups)
        fail("cleanup-early", "cleanup ran during a successful registration");
    Node& n = nodes[size_t(coro)];
    if (n.state == 3)
        return &r; // already completed: never runs
    if (n.reg >= 0)
        regs[size_t(n.reg)]->active = false;
    n.reg = r.id - 1;
    r.active = true;
    return &r;
}

void World::new_coroutine(int depth) {
    Err err;
    const int fn = int(rng.below(NFN));
    const int sx = random_slot(), sy = random_slot(), dst = random_slot();
    H args(vm), num(vm);
    tiro_make_tuple(vm, 3, args, err);
    const int id = add(Coro);
    tiro_make_integer(vm, id, num, err);
    if (!err.ok())
        return;
    tiro_tuple_set(vm, args, 0, num, err);
    tiro_tuple_set(vm, args, 1, slots[size_t(sx)], err);
    tiro_tuple_set(vm, args, 2, slots[size_t(sy)], err);
    const int x = slot_node[size_t(sx)], y = slot_node[size_t(sy)];
    tiro_make_coroutine(vm, functions[size_t(fn)], args, slots[size_t(dst)], err);
    if (!err.ok())
        return; // slot keeps its value
    slot_node[size_t(dst)] = id;
    Node& n = nodes[size_t(id)];
    n.fn = fn;
    n.args = {x, y};
    n.must = {x, y}; // not started: the arguments are needed
    if (rng.chance(2) || depth)
        set_callback(slots[size_t(dst)], id, 0);
    if (rng.chance(8) && !depth)
        set_callback(slots[size_t(dst)], id, 0); // replaces the first one
    if (depth || !rng.chance(4)) {
        tiro_coroutine_start(vm, slots[size_t(dst)], err);
        if (!err.ok())
            fail("start", "start: " + err.name());
        nodes[size_t(id)].state = 1;
        scheduled.push_back(id);
    }
}

/// The coroutine went on: by how much follows from its function and from how many tokens it had.
void World::run() {
    Err err;
    const bool many = !scheduled.empty();
    const auto faults_before = vp::mon.faults;
    running = true;
    tiro_vm_run_ready(vm, err);
    running = false;
    if (last_event)
        fail("cleanup-late", "callback " + std::to_string(last_event) + " was not cleaned up by the end of the run");
    last_event = 0;
    if (vp::mon.faults != faults_before)
        uncertain = true; // a native function may have failed, a coroutine may be stuck
    if (!err.ok()) {
        uncertain = true;
        if (vp::mon.faults == 0)
            fail("run", "run_ready: " + err.name() + " " + err.details());
    }
    auto list = scheduled; // includes coroutines that callbacks have started
    scheduled.clear();
    for (int id : list) {
        Node& n = nodes[size_t(id)];
        const Fn& fn = FNS[n.fn];
        const int x = n.args[0], y = n.args[1];
        bool waits = false;
        for (auto& t : tokens)
            waits = waits || (t.coro == id && !t.completed);
        for (int f : fresh_of[id])
            n.may.push_back(f);
        if (waits) {
            n.state = 2;
            n.must.clear();
            for (const char* c = fn.live; *c; ++c)
                n.must.push_back(*c == 'x' ? x : y);
            if (n.pending >= 0)
                n.may.push_back(n.pending);
            continue;
        }
        n.state = 3;
        n.must.clear();
        // what the result holds
        bool panicked = fn.result[0] == '!' || n.type == 77;
        int res = add(Opaque);
        Node& nn = nodes[size_t(id)];
        for (const char* c = fn.result; *c && !panicked; ++c) {
            if (*c == 'x')
                nodes[size_t(res)].must.push_back(x);
            else if (*c == 'y')
                nodes[size_t(res)].must.push_back(y);
            else if (*c == 'r' && nn.pending >= 0)
                nodes[size_t(res)].must.push_back(nn.pending);
            else if (*c == 'n' && !fresh_of[id].empty())
                nodes[size_t(res)].must.push_back(fresh_of[id][0]);
        }
        if (nn.pending >= 0)
            nn.may.push_back(nn.pending);
        if (!panicked) // a closure or container in the result may hold more than the result needs
            nodes[size_t(res)].may = {x, y};
        nn.must.push_back(res);
        Reg* r = nn.reg >= 0 ? regs[size_t(nn.reg)].get() : nullptr;
        if (r && r->active && !uncertain) {
            if (r->calls != 1)
                fail("callback-missing", "callback of a completed coroutine (" + std::string(fn.name) + ") ran "
                        + std::to_string(r->calls) + " times");
            if (r->has_cleanup && r->cleanups != 1)
                fail("cleanup-missing", "cleanup of a completed callback ran " + std::to_string(r->cleanups) + " times");
            r->active = false;
        }
        signature += char('A' + nn.fn);
    }
    extra_roots.clear();
    fresh_of.clear();
    for (auto& r : regs)
        if (r->active && r->coro >= 0 && nodes[size_t(r->coro)].state != 3 && (r->calls && !uncertain))
            fail("callback-early", "callback ran before its coroutine completed");
    if (many)
        signature += ';';
}

void World::force() {
    ++forced;
    vp_force_gc(vm);
    check_reach();
    check_collected("by a full collection");
    auto must = reach(false);
    for (auto& r : regs)
        if (r->active && r->cleanups && r->coro >= 0 && must[size_t(r->coro)] && !uncertain)
            fail("cleanup-early", "cleanup of a registered callback ran while its coroutine was alive and not done");
}

void World::op(int depth) {
    Err err;
    const int a = random_slot(), b = random_slot(), c = random_slot();
    const auto A = slots[size_t(a)], B = slots[size_t(b)], C = slots[size_t(c)];
    int& na = slot_node[size_t(a)];
    const int nb = slot_node[size_t(b)], nc = slot_node[size_t(c)];
    const auto faults_before = vp::mon.faults;
    const auto opcode = rng.below(30);
    switch (opcode) {
    case 0: case 1: case 2: case 3: {
        int id = make_native(A, native_size(rng), int(rng.below(4)));
        if (id >= 0)
            na = id;
        break;
    }
    case 4:
        tiro_make_array(vm, rng.below(5), A, err);
        if (err.ok())
            na = add(Array);
        break;
    case 5: case 6: case 7:
        if (na >= 0 && nodes[size_t(na)].kind == Array) {
            tiro_array_push(vm, A, B, err);
            if (err.ok())
                nodes[size_t(na)].must.push_back(nb);
        } else {
            tiro_make_array(vm, 0, A, err);
            if (err.ok())
                na = add(Array);
        }
        break;
    case 8:
        if (na >= 0 && nodes[size_t(na)].kind == Array) {
            auto& l = nodes[size_t(na)].must;
            if (l.empty())
                break;
            size_t i = rng.below(l.size());
            tiro_array_set(vm, A, i, B, err);
            if (err.ok())
                l[i] = nb;
            else
                fail("array", "array_set " + err.name());
        }
        break;
    case 9:
        if (na >= 0 && nodes[size_t(na)].kind == Array) {
            auto& l = nodes[size_t(na)].must;
            if (l.empty())
                break;
            tiro_array_pop(vm, A, err);
            l.pop_back();
        }
        break;
    case 10:
        if (na >= 0 && nodes[size_t(na)].kind == Array) {
            tiro_array_clear(vm, A, err);
            if (err.ok())
                nodes[size_t(na)].must.clear();
        }
        break;
    case 11: {
        size_t n = 1 + rng.below(3);
        H t(vm);
        tiro_make_tuple(vm, n, t, err);
        if (!err.ok())
            break;
        int id = add(Tuple);
        nodes[size_t(id)].must.assign(n, -1);
        tiro_tuple_set(vm, t, 0, B, err);
        nodes[size_t(id)].must[0] = nb;
        if (n > 1) {
            tiro_tuple_set(vm, t, n - 1, C, err);
            nodes[size_t(id)].must[n - 1] = nc;
        }
        tiro_value_copy(vm, t, A, err);
        na = id;
        break;
    }
    case 12: {
        H keys(vm), k(vm), schema(vm), rec(vm);
        tiro_make_array(vm, 2, keys, err);
        bool ok = err.ok();
        for (auto s : {"left", "right"}) {
            tiro_make_string(vm, ts(s), k, err);
            ok = ok && err.ok();
            tiro_array_push(vm, keys, k, err);
            ok = ok && err.ok();
        }
        if (!ok)
            break;
        tiro_make_record_schema(vm, keys, schema, err);
        ok = ok && err.ok();
        if (!ok)
            break;
        tiro_make_record(vm, schema, rec, err);
        if (!err.ok())
            break;
        int id = add(Record);
        tiro_make_string(vm, ts("left"), k, err);
        if (!err.ok())
            break;
        tiro_record_set(vm, rec, k, B, err);
        if (err.ok())
            nodes[size_t(id)].must.push_back(nb);
        tiro_value_copy(vm, rec, A, err);
        na = id;
        break;
    }
    case 13: {
        if (rng.chance(2))
            tiro_make_success(vm, B, A, err);
        else
            tiro_make_error(vm, B, A, err);
        if (err.ok()) {
            int id = add(Box);
            nodes[size_t(id)].must.push_back(nb);
            slot_node[size_t(a)] = id;
        }
        break;
    }
    case 14:
        tiro_value_copy(vm, B, A, err);
        na = nb;
        break;
    case 15: case 16:
        tiro_make_null(vm, A);
        na = -1;
        break;
    case 17: {
        tiro_global_free(A);
        na = -1;
        slots[size_t(a)] = tiro_global_new(vm, err);
        if (!slots[size_t(a)]) {
            vp::fault = vp::FaultControl();
            slots[size_t(a)] = tiro_global_new(vm, err);
        }
        break;
    }
    case 18:
        if (nb >= 0 && (nodes[size_t(nb)].kind == Array || nodes[size_t(nb)].kind == Tuple) && !nodes[size_t(nb)].must.empty()) {
            size_t i = rng.below(nodes[size_t(nb)].must.size());
            const int child = nodes[size_t(nb)].must[i];
            if (nodes[size_t(nb)].kind == Array)
                tiro_array_get(vm, B, i, A, err);
            else
                tiro_tuple_get(vm, B, i, A, err);
            if (!err.ok())
                fail("get", err.name());
            na = child;
        }
        break;
    case 19: case 20: case 21:
        if (vp::fault.at || vp::fault.rate)
            break;
        new_coroutine(0);
        break;
    case 22:
        if (na >= 0 && nodes[size_t(na)].kind == Coro && nodes[size_t(na)].state == 0) {
            tiro_coroutine_start(vm, A, err);
            if (err.ok()) {
                nodes[size_t(na)].state = 1;
                scheduled.push_back(na);
            } else {
                fail("start", err.name());
            }
        }
        break;
    case 23:
        if (na >= 0 && nodes[size_t(na)].kind == Coro)
            set_callback(A, na, rng.chance(3) ? 1 + int(rng.below(4)) : 0);
        break;
    case 24: case 25:
        if (!(vp::fault.at || vp::fault.rate) || rng.chance(20))
            run();
        break;
    case 26: {
        // complete or abandon a token
        std::vector<size_t> open;
        for (size_t i = 0; i < tokens.size(); ++i)
            open.push_back(i);
        if (open.empty())
            break;
        size_t i = open[rng.below(open.size())];
        auto& t = tokens[i];
        Node& n = nodes[size_t(t.coro)];
        switch (t.completed ? 2 : rng.below(4)) {
        case 0:
            tiro_async_token_panic_msg(t.token, ts("host panic"), err);
            if (err.ok()) {
                t.completed = true;
                n.type = 77;
                n.state = 1;
                scheduled.push_back(t.coro);
            }
            break;
        case 2: { // give up: nobody can resume the coroutine any more
            tiro_async_token_free(t.token);
            tokens.erase(tokens.begin() + ptrdiff_t(i));
            break;
        }
        default:
            tiro_async_token_return_value(t.token, B, err);
            if (err.ok()) {
                t.completed = true;
                n.pending = nb;
                n.must.push_back(nb);
                n.state = 1;
                scheduled.push_back(t.coro);
            } else if (vp::mon.faults == faults_before) {
                fail("token", err.name());
            }
        }
        break;
    }
    case 27:
        if (nb >= 0 && nodes[size_t(nb)].kind == Coro) {
            Node& n = nodes[size_t(nb)];
            const bool done = tiro_coroutine_completed(vm, B);
            if (!uncertain && done != (n.state == 3))
                fail("completed", std::string(FNS[n.fn].name) + " completed=" + std::to_string(done) + ", expected state "
                        + std::to_string(n.state));
            if (done && n.state == 3 && !n.must.empty()) {
                const int res = n.must[0];
                tiro_coroutine_result(vm, B, A, err);
                if (err.ok())
                    na = res;
            }
        } else if (nb >= 0 && nodes[size_t(nb)].kind == Native) {
            check_native(nb, B);
        }
        break;
    case 28:
        for (size_t i = 0, n = rng.below(40); i < n; ++i) {
            H g(vm);
            tiro_make_tuple(vm, 1 + rng.below(300), g, err);
        }
        break;
    case 29:
        if (rng.chance(2)) {
            auto f = vp::fault;
            vp::fault = vp::FaultControl();
            force();
            vp::fault = f;
        } else if (!depth) {
            // let one of the next allocations fail
            if (vp::fault.at || vp::fault.rate) {
                vp::fault = vp::FaultControl();
            } else if (want_faults) {
                vp::fault = vp::FaultControl();
                vp::fault.at = 1 + rng.below(12);
            }
        }
        break;
    }
    note("op " + std::to_string(opcode) + " a=" + std::to_string(a) + " b=" + std::to_string(b) + " na="
        + std::to_string(slot_node[size_t(a)]) + " nb=" + std::to_string(nb) + (vp::mon.faults != faults_before ? " FAULT" : ""));
    if (vp::mon.faults != faults_before && vp::fault.at)
        vp::fault = vp::FaultControl();
    check_reach();
}

} // namespace

static json run_case(const json& c) {
    json out = json::object();
    vp::gc = vp::GcControl();
    vp::mon = vp::HeapMonitor();
    vp::fault = vp::FaultControl();
    World w(c["seed"].get<uint64_t>());
    w.want_faults = c.value("faults", false);
    tiro_vm_settings_t st;
    tiro_vm_settings_init(&st);
    st.page_size = c.value("page", size_t(0));
    st.userdata = &w;
    Err err;
    tiro_vm_t vm = w.vm = tiro_vm_new(&st, err);
    if (!vm) {
        out["error"] = "vm_new " + err.name();
        return out;
    }
    tiro_vm_load_std(vm, err);
    {
        // the host module
        H name(vm), f0(vm), f1(vm), f2(vm), mod(vm), null(vm);
        tiro_make_string(vm, ts("fresh"), name, err);
        tiro_make_sync_function(vm, name, fn_fresh, 1, nullptr, f0, err);
        tiro_make_string(vm, ts("susp"), name, err);
        tiro_make_async_function(vm, name, fn_susp, 1, nullptr, f1, err);
        tiro_make_string(vm, ts("res"), name, err);
        tiro_resumable_frame_desc_t d{name, 3, 1, nullptr, fn_res};
        tiro_make_resumable_function(vm, &d, f2, err);
        tiro_module_member_t members[] = {{ts("fresh"), f0}, {ts("susp"), f1}, {ts("res"), f2}};
        tiro_make_module(vm, ts("host"), members, 3, mod, err);
        tiro_vm_load_module(vm, mod, err);
        if (!err.ok()) {
            out["error"] = "host module " + err.name();
            return out;
        }
    }
    auto compiled = compile({{"name", "lt"}, {"files", json::array({json::array({"lt.tiro", SOURCE})})}});
    if (!compiled.module) {
        out["error"] = compiled.info;
        return out;
    }
    tiro_vm_load_bytecode(vm, compiled.module, err);
    tiro_module_free(compiled.module);
    if (!err.ok())
        out["error"] = "load " + err.name() + err.details();
    for (auto& f : FNS) {
        w.functions.push_back(tiro_global_new(vm, err));
        tiro_vm_get_export(vm, ts("lt"), ts(f.name), w.functions.back(), err);
        if (!err.ok()) {
            out["error"] = std::string("export ") + f.name + " " + err.name();
            return out;
        }
    }
    for (size_t i = 0, n = c.value("slots", 16); i < n; ++i) {
        w.slots.push_back(tiro_global_new(vm, err));
        w.slot_node.push_back(-1);
    }
    if (c.contains("gc")) {
        vp::gc.enabled = true;
        vp::gc.mode = c["gc"][0];
        vp::gc.n = c["gc"][1];
        vp::gc.rng ^= c["seed"].get<uint64_t>() * 0x9E3779B97F4A7C15ull;
    }
    const int ops = c["ops"];
    for (int i = 0; i < ops && w.bad.empty(); ++i)
        w.op(0);
    vp::fault = vp::FaultControl();
    for (size_t i = 0; i < w.slots.size(); ++i)
        if (w.slot_node[i] >= 0 && w.nodes[size_t(w.slot_node[i])].kind == Native)
            w.check_native(w.slot_node[i], w.slots[i]);
    w.force();
    // shutdown: some handles and tokens are still there
    const int keep = int(w.rng.below(3));
    if (keep != 1)
        for (auto h : w.slots)
            tiro_global_free(h);
    if (keep == 2) {
        for (auto& n : w.slot_node)
            n = -1;
        w.force();
    }
    for (auto& t : w.tokens)
        tiro_async_token_free(t.token);
    w.tokens.clear();
    vp::gc.enabled = false;
    const size_t left_before = [&] {
        size_t n = 0;
        for (auto& x : w.nodes)
            n += x.kind == Native && x.has_finalizer && !x.finalized;
        return n;
    }();
    const auto mon = vp::mon;
    w.freeing = true;
    tiro_vm_free(vm);
    size_t natives = 0, regs_bad = 0;
    for (auto& n : w.nodes)
        if (n.kind == Native) {
            ++natives;
            if (n.has_finalizer && !n.finalized)
                w.fail("never-finalized", "native object " + std::to_string(n.id) + " of " + std::to_string(n.size)
                        + " bytes was never finalized");
        }
    for (auto& r : w.regs) {
        if (r->has_cleanup && r->cleanups != 1) {
            ++regs_bad;
            w.fail("cleanup-count", "callback " + std::to_string(r->id) + (r->failed ? " (failed)" : "") + " cleaned up "
                    + std::to_string(r->cleanups) + " times");
        }
    }
    if (w.last_event)
        w.fail("cleanup-late", "pending cleanup at shutdown");
    if (vp::mon.held())
        w.fail("leak", std::to_string(vp::mon.held()) + " bytes still held after tiro_vm_free");
    out["bad"] = w.bad;
    out["natives"] = natives;
    out["finalized_before_free"] = natives - left_before;
    out["regs"] = w.regs.size();
    out["calls"] = w.calls;
    out["cleanups"] = w.cleanups;
    out["gcs"] = mon.gcs;
    out["forced"] = w.forced;
    out["faults"] = mon.faults;
    out["signature"] = w.signature.substr(0, 400);
    out["uncertain"] = w.uncertain;
    return out;
}

int main(int argc, char** argv) {
    return batch::main_loop(argc, argv, run_case);
}
