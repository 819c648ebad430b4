// API contract driver (C19): random histories of calls of the public C interface, valid and invalid, against a model of
// the values behind the handles. Every call has a set of faults (bad argument, wrong type, index, key, state); the call
// must fail with the code of one of them when there is one, must leave every value and every result handle as it was
// then, and must have its documented effect otherwise.
#include "batch.hpp"
#include "host.hpp"

#include <functional>
#include <set>

using namespace host;

namespace {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed)
        : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s * 2685821657736338717ull >> 11;
    }
    size_t below(size_t n) { return size_t(next() % n); }
    bool chance(size_t n) { return below(n) == 0; }
    template<typename T>
    const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

enum Kind { Null, Bool, Int, Float, Str, Buf, Fn, Tup, Rec, Schema, Arr, Res, Exc, Coro, Mod, Type, Nat, Other };

tiro_kind_t kind_of(Kind k) {
    static const tiro_kind_t table[] = {TIRO_KIND_NULL, TIRO_KIND_BOOLEAN, TIRO_KIND_INTEGER, TIRO_KIND_FLOAT,
        TIRO_KIND_STRING, TIRO_KIND_BUFFER, TIRO_KIND_FUNCTION, TIRO_KIND_TUPLE, TIRO_KIND_RECORD, TIRO_KIND_RECORD_SCHEMA,
        TIRO_KIND_ARRAY, TIRO_KIND_RESULT, TIRO_KIND_EXCEPTION, TIRO_KIND_COROUTINE, TIRO_KIND_MODULE, TIRO_KIND_TYPE,
        TIRO_KIND_NATIVE, TIRO_KIND_INTERNAL};
    return table[k];
}

/// What a function does when it is called (the functions of the script module and the native ones).
enum Behaviour { Unknown, RetNull, Swap, One, Boom, Append, Ident, Closure, NativeSync, NativeAsync, NativeRes };

struct Value {
    Kind k = Null;
    bool b = false;
    int64_t i = 0;
    double d = 0;
    std::string s;              // string content, exception message, module name
    bool known = true;          // is the content known?
    std::vector<Value*> e;      // elements; record fields; result: {value}; coroutine: arguments; module: members
    std::vector<std::string> keys;
    std::vector<unsigned char> bytes;
    bool ok = false;            // result: success
    bool frozen = false;        // tuple used as argument list
    void* data = nullptr;
    size_t size = 0;
    const tiro_native_type_t* nt = nullptr;
    int state = 0;              // coroutine: 0 new, 1 started, 2 waiting, 3 done, 4 stuck / unknown
    Value* fn = nullptr;
    Value* result = nullptr;
    Behaviour beh = Unknown;
    size_t argc = 0, locals = 0;
    Value* closure = nullptr;
    int cbid = -1;
};

using Codes = std::set<int>;

struct Token {
    tiro_async_token_t token;
    Value* coro;
    bool used = false;
};

struct Callback {
    struct World* w;
    Value* coro;
    int calls = 0, cleanups = 0;
    bool has_cleanup = true, failed = false, replaced = false;
};

tiro_native_type_t TYPES[] = {
    {{"Alpha", 5}, 1, nullptr}, {{"Beta", 4}, 8, nullptr}, {{"", 0}, alignof(std::max_align_t), nullptr}};

const char* SOURCE = R"(
import std;
export func nul() = null;
export func swap(x, y) = (y, x);
export func one(x) = [x];
export func boom() = std.panic("boom");
export func app(a, v) { a.append(v); return a; }
export func ident(x) = x;
export const number = 42;
func make_closure(v) = func() = v;
export func closed(v) = make_closure(v);
export func internals() = [map{1: 2}, set{3}, #symbol, std.new_string_builder(), [1].append, std.print, std.PI, map{1: 2}.keys(), map{}.size, "x".contains];
func hidden() = 1;
)";

struct World {
    Rng rng;
    tiro_vm_t vm = nullptr;
    std::vector<std::unique_ptr<Value>> arena;
    std::vector<tiro_handle_t> slots;
    std::vector<Value*> model;
    std::vector<Token> tokens;
    std::vector<std::unique_ptr<Callback>> callbacks;
    std::vector<Value*> ready;
    std::vector<tiro_handle_t> spare; // temporaries for verification
    std::set<std::string> modules;
    std::map<std::string, Value*> module_objects;
    std::string printed;
    json bad = json::array();
    bool std_loaded = false, traces = false;
    uint64_t calls = 0, errors = 0, checked = 0, faults = 0, executed = 0, frames = 0;
    std::map<std::string, uint64_t> outcomes; // function/code -> count
    std::vector<std::string> log;
    Value* running = nullptr;
    Value* null_value;
    int depth = 0;

    explicit World(uint64_t seed)
        : rng(seed) { null_value = add(Null); }

    Value* add(Kind k) {
        arena.push_back(std::make_unique<Value>());
        arena.back()->k = k;
        return arena.back().get();
    }
    Value* copy_of(const Value& v) {
        arena.push_back(std::make_unique<Value>(v));
        return arena.back().get();
    }
    void fail(const std::string& key, const std::string& what) {
        if (bad.size() < 6)
            bad.push_back({key, what + " | last calls: " + tail()});
    }
    std::string tail() {
        std::string r;
        for (size_t i = log.size() > 8 ? log.size() - 8 : 0; i < log.size(); ++i)
            r += log[i] + "; ";
        return r;
    }

    // ---- verification -------------------------------------------------------------------------------------------

    tiro_handle_t temp(size_t level) {
        while (spare.size() <= level) {
            Err err;
            auto h = tiro_global_new(vm, err);
            if (!h) {
                fail("global", "tiro_global_new failed: " + err.name());
                std::abort();
            }
            spare.push_back(h);
        }
        return spare[level];
    }

    void expect(bool cond, const char* what, const Value& v) {
        if (!cond)
            fail(std::string("accessor-") + what, std::string(what) + " of a " + tiro_kind_str(kind_of(v.k)) + " disagrees with the model");
    }

    /// All accessors that have no error argument; those of other kinds must return their neutral value.
    void accessors(tiro_handle_t h, const Value& v) {
        ++checked;
        expect(tiro_value_kind(vm, h) == kind_of(v.k), "value_kind", v);
        expect(tiro_boolean_value(vm, h) == !(v.k == Null || (v.k == Bool && !v.b)), "boolean_value", v);
        if (v.known || (v.k != Int && v.k != Float)) {
            const int64_t iv = tiro_integer_value(vm, h);
            const double fv = tiro_float_value(vm, h);
            if (v.k == Int) {
                expect(iv == v.i, "integer_value", v);
                expect(fv == double(v.i), "float_value", v);
            } else if (v.k == Float) {
                if (std::fabs(v.d) < 9.2e18)
                    expect(iv == int64_t(v.d), "integer_value", v);
                expect(std::isnan(v.d) ? std::isnan(fv) : fv == v.d, "float_value", v);
            } else {
                expect(iv == 0, "integer_value", v);
                expect(fv == 0, "float_value", v);
            }
        }
        expect(tiro_tuple_size(vm, h) == (v.k == Tup ? v.e.size() : 0) || !v.known, "tuple_size", v);
        expect(tiro_array_size(vm, h) == (v.k == Arr ? v.e.size() : 0) || !v.known, "array_size", v);
        expect(tiro_result_is_success(vm, h) == (v.k == Res && v.ok), "result_is_success", v);
        expect(tiro_result_is_error(vm, h) == (v.k == Res && !v.ok), "result_is_error", v);
        if (v.k == Buf) {
            unsigned char* p = tiro_buffer_data(vm, h);
            expect(tiro_buffer_size(vm, h) == v.bytes.size(), "buffer_size", v);
            expect(p != nullptr || v.bytes.empty(), "buffer_data", v);
            if (p && !v.bytes.empty())
                expect(std::memcmp(p, v.bytes.data(), v.bytes.size()) == 0, "buffer_content", v);
            if (tiro_buffer_is_pinned(vm, h) && v.data)
                expect(p == v.data, "buffer_moved", v);
        } else {
            expect(tiro_buffer_size(vm, h) == 0, "buffer_size", v);
            expect(tiro_buffer_data(vm, h) == nullptr, "buffer_data", v);
            expect(!tiro_buffer_is_pinned(vm, h), "buffer_is_pinned", v);
        }
        expect(tiro_native_size(vm, h) == (v.k == Nat ? v.bytes.size() : 0), "native_size", v);
        expect(tiro_native_type_descriptor(vm, h) == (v.k == Nat ? v.nt : nullptr), "native_type_descriptor", v);
        void* np = tiro_native_data(vm, h);
        expect((np != nullptr) == (v.k == Nat), "native_data", v);
        if (np && v.k == Nat) {
            expect(std::memcmp(np, v.bytes.data(), v.bytes.size()) == 0, "native_content", v);
            expect(reinterpret_cast<uintptr_t>(np) % v.nt->alignment == 0, "native_alignment", v);
        }
        if (v.k == Coro && v.state == 4)
            return;
        expect(tiro_coroutine_started(vm, h) == (v.k == Coro && v.state != 0), "coroutine_started", v);
        expect(tiro_coroutine_completed(vm, h) == (v.k == Coro && v.state == 3), "coroutine_completed", v);
    }

    void must(Err& err, const char* what, const Value& v) {
        if (!err.ok())
            fail(std::string("accessor-") + what, std::string(what) + " of a " + tiro_kind_str(kind_of(v.k)) + " failed with " + err.name() + " "
                    + err.details());
    }

    void verify(tiro_handle_t h, Value& v, std::set<Value*>& seen, size_t level = 0) {
        accessors(h, v);
        if (!seen.insert(&v).second || level > 60 || bad.size() >= 6)
            return;
        Err err;
        if (!v.known && v.k != Tup && v.k != Arr)
            return;
        switch (v.k) {
        case Str: {
            tiro_string_t s{};
            tiro_string_value(vm, h, &s, err);
            must(err, "string_value", v);
            expect(std::string_view(s.data, s.length) == v.s, "string_value", v);
            char* c = nullptr;
            tiro_string_cstr(vm, h, &c, err);
            must(err, "string_cstr", v);
            expect(c && std::memcmp(c, v.s.c_str(), v.s.size() + 1) == 0, "string_cstr", v);
            std::free(c);
            break;
        }
        case Tup:
        case Arr:
            for (size_t i = 0; i < v.e.size(); ++i) {
                auto t = temp(level);
                v.k == Tup ? tiro_tuple_get(vm, h, i, t, err) : tiro_array_get(vm, h, i, t, err);
                must(err, "element", v);
                verify(t, *v.e[i], seen, level + 1);
            }
            break;
        case Rec: {
            {
                auto t = temp(level), k = temp(level + 1);
                std::multiset<std::string> have, want(v.keys.begin(), v.keys.end());
                tiro_record_keys(vm, h, t, err);
                must(err, "record_keys", v);
                for (size_t i = 0, n = tiro_array_size(vm, t); i < n; ++i) {
                    tiro_array_get(vm, t, i, k, err);
                    tiro_string_t s{};
                    tiro_string_value(vm, k, &s, err);
                    must(err, "record_keys", v);
                    have.insert(std::string(s.data, s.length));
                }
                expect(have == want, "record_keys", v);
            }
            for (size_t i = 0; i < v.keys.size(); ++i) {
                auto t = temp(level), k = temp(level + 1);
                tiro_make_string(vm, ts(v.keys[i]), k, err);
                tiro_record_get(vm, h, k, t, err);
                must(err, "record_get", v);
                verify(t, *v.e[i], seen, level + 1);
            }
            break;
        }
        case Res: {
            auto t = temp(level);
            v.ok ? tiro_result_value(vm, h, t, err) : tiro_result_error(vm, h, t, err);
            must(err, "result", v);
            verify(t, *v.e[0], seen, level + 1);
            break;
        }
        case Exc: {
            auto t = temp(level);
            tiro_exception_message(vm, h, t, err);
            must(err, "exception_message", v);
            tiro_string_t s{};
            tiro_string_value(vm, t, &s, err);
            must(err, "exception_message", v);
            if (!v.s.empty())
                expect(std::string_view(s.data, s.length) == v.s, "exception_message", v);
            tiro_exception_trace(vm, h, t, err);
            must(err, "exception_trace", v);
            auto k = tiro_value_kind(vm, t);
            expect(k == TIRO_KIND_NULL || (traces && k == TIRO_KIND_STRING), "exception_trace", v);
            break;
        }
        case Coro:
            if (v.state == 3 && v.result) {
                auto t = temp(level);
                tiro_coroutine_result(vm, h, t, err);
                must(err, "coroutine_result", v);
                verify(t, *v.result, seen, level + 1);
            }
            break;
        case Mod:
            for (size_t i = 0; i < v.keys.size(); ++i) {
                auto t = temp(level);
                tiro_module_get_export(vm, h, ts(v.keys[i]), t, err);
                must(err, "module_get_export", v);
                verify(t, *v.e[i], seen, level + 1);
            }
            break;
        case Type:
            if (!v.s.empty()) {
                auto t = temp(level);
                tiro_type_name(vm, h, t, err);
                must(err, "type_name", v);
                tiro_string_t s{};
                tiro_string_value(vm, t, &s, err);
                expect(std::string_view(s.data, s.length) == v.s, "type_name", v);
            }
            break;
        default: break;
        }
    }
    void verify_slot(size_t i) {
        std::set<Value*> seen;
        verify(slots[i], *model[i], seen);
    }
    void verify_all() {
        std::set<Value*> seen;
        for (size_t i = 0; i < slots.size(); ++i)
            verify(slots[i], *model[i], seen);
        for (size_t i = 0; i + 1 < slots.size(); i += 1 + rng.below(3)) {
            size_t j = rng.below(slots.size());
            const bool same = tiro_value_same(vm, slots[i], slots[j]);
            const Value &a = *model[i], &b = *model[j];
            if (model[i] == model[j] && !same)
                fail("same", "two copies of one value are not the same");
            const bool has_identity = a.k >= Buf && a.k != Fn && a.k != Type && a.k != Other;
            if (same && (a.k != b.k || (has_identity && model[i] != model[j])
                            || (a.known && b.known && ((a.k == Bool && a.b != b.b) || (a.k == Int && a.i != b.i) || (a.k == Str && a.s != b.s)))))
                fail("same", std::string("two different values are reported as the same: ") + tiro_kind_str(kind_of(a.k)));
        }
    }

    // ---- calls --------------------------------------------------------------------------------------------------

    bool inject = false;

    /// Performs a call that can fail. `faults`: the codes of everything wrong with it; `effect` updates the model.
    /// `touched`: slots whose value is verified afterwards. Returns true if the call succeeded.
    bool call(const std::string& name, const Codes& wrong, const std::function<void(tiro_error_t*)>& fn,
        const std::function<void()>& effect, std::initializer_list<int> touched, bool may_fail_alloc = false) {
        ++calls;
        log.push_back(name);
        if (log.size() > 64)
            log.erase(log.begin(), log.begin() + 32);
        const auto before = vp::mon.faults;
        const bool injecting = inject && rng.chance(4);
        if (injecting) {
            vp::fault.count = 0;
            vp::fault.at = 1 + rng.below(4);
        }
        tiro_error_t err = nullptr;
        // Sometimes the caller is not interested in errors, or passes an error which it already has.
        const size_t style = rng.below(12);
        bool silent = style == 0 && !(may_fail_alloc || injecting);
        tiro_error_t preset = nullptr;
        if (style == 1 && !wrong.empty()) {
            tiro_make_null(vm, nullptr);
            tiro_value_copy(nullptr, nullptr, nullptr, &preset);
            err = preset;
        }
        fn(silent ? nullptr : &err);
        vp::fault.at = 0;
        const bool faulted = vp::mon.faults != before;
        if (faulted)
            ++faults;
        bool success;
        int code = 0;
        if (preset) {
            if (err != preset || tiro_error_errc(err) != TIRO_ERROR_BAD_ARG)
                fail("preset-error", name + " changed an error that was already set");
            success = false;
        } else if (silent) {
            success = wrong.empty();
        } else {
            code = tiro_error_errc(err);
            success = !err;
            if (err) {
                if (code == TIRO_OK)
                    fail("error-ok", name + " reported an error with code OK");
                if (!tiro_error_details(err) || !tiro_error_message(err) || !tiro_error_name(err)
                    || std::string(tiro_error_name(err)) != tiro_errc_name(tiro_errc_t(code)))
                    fail("error-object", name + ": inconsistent error object");
            }
            const std::string got = err ? tiro_errc_name(tiro_errc_t(code)) : "OK";
            ++outcomes[name.substr(0, name.find(' ')) + "/" + got];
            if (wrong.empty() && err && !(code == TIRO_ERROR_ALLOC && (faulted || may_fail_alloc)))
                fail("unexpected-" + name.substr(0, name.find(' ')), name + " failed with " + got + " " + tiro_error_details(err));
            if (!wrong.empty()) {
                if (!err)
                    fail("accepted-" + name.substr(0, name.find(' ')), name + " succeeded, expected " + tiro_errc_name(tiro_errc_t(*wrong.begin())));
                else if (!wrong.count(code) && !(code == TIRO_ERROR_ALLOC && (faulted || may_fail_alloc)))
                    fail("code-" + name.substr(0, name.find(' ')), name + " failed with " + got + ", expected " + tiro_errc_name(tiro_errc_t(*wrong.begin())));
            }
        }
        if (err)
            ++errors;
        tiro_error_free(err);
        if (success && wrong.empty())
            effect();
        for (int i : touched)
            if (i >= 0)
                verify_slot(size_t(i));
        return success;
    }

    int slot() { return rng.chance(60) ? -1 : int(rng.below(slots.size())); }
    /// A slot that holds the given kind, most of the time.
    int slot_of(Kind k) {
        if (!rng.chance(16)) {
            size_t start = rng.below(slots.size());
            for (size_t i = 0; i < slots.size(); ++i) {
                size_t j = (start + i) % slots.size();
                if (model[j]->k == k)
                    return int(j);
            }
        }
        return slot();
    }
    tiro_handle_t h(int i) { return i < 0 ? nullptr : slots[size_t(i)]; }
    Value& m(int i) { return i < 0 ? *null_value : *model[size_t(i)]; }
    tiro_vm_t maybe_vm() { return rng.chance(120) ? nullptr : vm; }
    std::string d(int i) { return i < 0 ? "NULL" : std::to_string(i) + ":" + tiro_kind_str(kind_of(model[size_t(i)]->k)); }
    void set(int i, Value* v) { model[size_t(i)] = v; }

    Codes args(tiro_vm_t v, std::initializer_list<int> handles) {
        Codes c;
        if (!v)
            c.insert(TIRO_ERROR_BAD_ARG);
        for (int i : handles)
            if (i < 0)
                c.insert(TIRO_ERROR_BAD_ARG);
        return c;
    }
    void type(Codes& c, int i, Kind k) {
        if (i >= 0 && m(i).k != k)
            c.insert(TIRO_ERROR_BAD_TYPE);
    }

    std::string text() {
        static const std::vector<std::string> pool = {"", "a", "b", "key", "name", "foo", std::string("a\0b", 3), "\xff\xfe", "häß",
            std::string(300, 'x'), "map", "std", "true", "left"};
        return rng.pick(pool);
    }
    size_t odd_size() {
        static const std::vector<size_t> pool = {size_t(1) << 33, size_t(1) << 40, size_t(1) << 60, (size_t(1) << 61) - 1, size_t(1) << 61, (size_t(1) << 61) + 1,
            (size_t(1) << 62) + 5, (size_t(1) << 63), SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 7, SIZE_MAX - 8, SIZE_MAX - 15, SIZE_MAX - 16,
            SIZE_MAX - 24, SIZE_MAX / 2, SIZE_MAX / 8, SIZE_MAX / 8 + 1, SIZE_MAX / 16, UINT32_MAX, size_t(UINT32_MAX) + 1, size_t(INT32_MAX)};
        return rng.pick(pool);
    }
    size_t index(size_t size) {
        switch (rng.below(8)) {
        case 0: return size;
        case 1: return size + 1 + rng.below(5);
        case 2: return odd_size();
        default: return size ? rng.below(size) : 0;
        }
    }

    void run_coroutines();
    void finish(Value& c, Value* result);
    void execute(Value& c);
    void scalars();
    void containers();
    void records();
    void results();
    void functions();
    void coroutines();
    void modules_();
    void natives();
    void types();
    void op();
    Value* exception(const std::string& msg) {
        auto* x = add(Exc);
        x->s = msg;
        return x;
    }
    Value* make_result(bool ok, Value* v) {
        auto* r = add(Res);
        r->ok = ok;
        r->e = {v};
        return r;
    }
};

World* W = nullptr;

void World::scalars() {
    const int r = slot(), a = slot();
    auto v = maybe_vm();
    switch (rng.below(12)) {
    case 0:
        tiro_make_null(v, h(r));
        ++calls;
        if (v && r >= 0)
            set(r, add(Null)), verify_slot(size_t(r));
        break;
    case 1: {
        const bool x = rng.chance(2);
        call("make_boolean " + d(r), args(v, {r}), [&](auto e) { tiro_make_boolean(v, x, h(r), e); },
            [&] { auto* n = add(Bool); n->b = x; set(r, n); }, {r});
        break;
    }
    case 2: {
        static const std::vector<int64_t> pool = {0, 1, -1, 42, INT64_MAX, INT64_MIN, (int64_t(1) << 62) - 1, int64_t(1) << 62,
            -(int64_t(1) << 62), -(int64_t(1) << 62) - 1, (int64_t(1) << 61), int64_t(1) << 53, (int64_t(1) << 53) + 1, INT32_MAX, INT32_MIN};
        const int64_t x = rng.chance(3) ? int64_t(rng.next()) - int64_t(rng.next()) : rng.pick(pool);
        call("make_integer " + d(r), args(v, {r}), [&](auto e) { tiro_make_integer(v, x, h(r), e); },
            [&] { auto* n = add(Int); n->i = x; set(r, n); }, {r});
        break;
    }
    case 3: {
        static const std::vector<double> pool = {0.0, -0.0, 1.5, -2.75, 1e300, -1e300, 9223372036854775807.0, -9223372036854775808.0, 9.2e18, 0.1,
            INFINITY, -INFINITY, NAN, 5e-324, 1e19, 4611686018427387904.0};
        const double x = rng.pick(pool);
        call("make_float " + d(r), args(v, {r}), [&](auto e) { tiro_make_float(v, x, h(r), e); },
            [&] { auto* n = add(Float); n->d = x; set(r, n); }, {r});
        break;
    }
    case 4:
    case 5: {
        const auto s = text();
        tiro_string_t t = ts(s);
        auto c = args(v, {r});
        if (rng.chance(20)) {
            t.data = nullptr;
            if (t.length)
                c.insert(TIRO_ERROR_BAD_ARG);
        }
        call("make_string " + d(r), c, [&](auto e) { tiro_make_string(v, t, h(r), e); },
            [&] { auto* n = add(Str); n->s = s; set(r, n); }, {r});
        break;
    }
    case 6: { // string accessors with wrong types and NULL results
        auto c = args(v, {a});
        type(c, a, Str);
        tiro_string_t out{"x", 1};
        const bool null_out = rng.chance(10);
        if (null_out)
            c.insert(TIRO_ERROR_BAD_ARG);
        call("string_value " + d(a), c, [&](auto e) { tiro_string_value(v, h(a), null_out ? nullptr : &out, e); },
            [&] { if (m(a).known) expect(std::string_view(out.data, out.length) == m(a).s, "string_value", m(a)); }, {a});
        if (!c.empty() && (out.length != 1 || out.data[0] != 'x'))
            fail("output-changed", "string_value assigned its output although it failed");
        break;
    }
    case 7: {
        auto c = args(v, {a});
        type(c, a, Str);
        const bool null_out = rng.chance(10);
        if (null_out)
            c.insert(TIRO_ERROR_BAD_ARG);
        char* out = nullptr;
        call("string_cstr " + d(a), c, [&](auto e) { tiro_string_cstr(v, h(a), null_out ? nullptr : &out, e); }, [&] {}, {a});
        if (!c.empty() && out)
            fail("output-changed", "string_cstr assigned its output although it failed");
        std::free(out);
        break;
    }
    case 8:
        call("value_copy " + d(a) + " " + d(r), args(v, {a, r}), [&](auto e) { tiro_value_copy(v, h(a), h(r), e); },
            [&] { set(r, model[size_t(a)]); }, {a, r});
        break;
    case 9:
        call("value_to_string " + d(a) + " " + d(r), args(v, {a, r}), [&](auto e) { tiro_value_to_string(v, h(a), h(r), e); },
            [&] {
                auto* n = add(Str);
                const Value& x = m(a);
                n->known = x.k == Null || x.k == Bool || x.k == Int || (x.k == Str && x.known);
                if (x.k == Null)
                    n->s = "null";
                else if (x.k == Bool)
                    n->s = x.b ? "true" : "false";
                else if (x.k == Int)
                    n->s = std::to_string(x.i), n->known = x.known;
                else
                    n->s = x.s;
                set(r, n);
            },
            {r});
        break;
    case 10: { // NULL machine or handle: neutral values
        ++calls;
        const tiro_handle_t x = rng.chance(2) ? nullptr : h(a);
        const tiro_vm_t y = x ? nullptr : maybe_vm();
        bool neutral = tiro_value_kind(y, x) == TIRO_KIND_INVALID && !tiro_boolean_value(y, x) && tiro_integer_value(y, x) == 0
                       && tiro_float_value(y, x) == 0 && !tiro_buffer_is_pinned(y, x) && tiro_buffer_size(y, x) == 0
                       && !tiro_buffer_data(y, x) && tiro_tuple_size(y, x) == 0 && tiro_array_size(y, x) == 0
                       && !tiro_result_is_success(y, x) && !tiro_result_is_error(y, x) && !tiro_coroutine_started(y, x)
                       && !tiro_coroutine_completed(y, x) && !tiro_native_type_descriptor(y, x) && !tiro_native_data(y, x)
                       && tiro_native_size(y, x) == 0 && !tiro_vm_userdata(nullptr) && tiro_vm_page_size(nullptr) == 0
                       && tiro_vm_max_heap_size(nullptr) == 0 && !tiro_vm_has_ready(nullptr) && !tiro_global_get_vm(nullptr);
        if (!neutral)
            fail("neutral", "an accessor returned something for a NULL machine or handle");
        tiro_global_free(nullptr);
        tiro_error_free(nullptr);
        tiro_vm_free(nullptr);
        tiro_compiler_free(nullptr);
        tiro_module_free(nullptr);
        tiro_async_token_free(nullptr);
        tiro_vm_settings_init(nullptr);
        if (tiro_error_errc(nullptr) != TIRO_OK || !tiro_error_details(nullptr) || !tiro_error_name(nullptr) || !tiro_error_message(nullptr))
            fail("neutral", "accessors of a NULL error");
        if (tiro_value_same(vm, nullptr, h(std::max(a, 0))) || tiro_value_same(vm, h(std::max(a, 0)), nullptr))
            fail("neutral", "NULL is the same as a value");
        break;
    }
    case 11: { // another global handle
        Err err;
        auto g = tiro_global_new(vm, err);
        ++calls;
        if (!g) {
            fail("global", "tiro_global_new failed: " + err.name());
            break;
        }
        if (tiro_value_kind(vm, g) != TIRO_KIND_NULL)
            fail("global", "a new global handle is not null");
        if (tiro_global_get_vm(g) != vm)
            fail("global", "tiro_global_get_vm returned another machine");
        if (a >= 0) { // replace a slot by the new handle
            tiro_value_copy(vm, slots[size_t(a)], g, err);
            tiro_global_free(slots[size_t(a)]);
            slots[size_t(a)] = g;
            verify_slot(size_t(a));
        } else
            tiro_global_free(g);
        tiro_global_new(nullptr, err);
        if (err.code() != TIRO_ERROR_BAD_ARG)
            fail("global", "tiro_global_new(NULL) returned " + err.name());
        break;
    }
    }
}

void World::containers() {
    const int r = slot(), x = slot();
    auto v = maybe_vm();
    switch (rng.below(12)) {
    case 0: {
        const bool odd = rng.chance(4);
        const size_t n = odd ? odd_size() : rng.below(6);
        auto c = args(v, {r});
        if (n > (size_t(1) << 32))
            c.insert(TIRO_ERROR_ALLOC);
        call("make_tuple " + std::to_string(n) + " " + d(r), c, [&](auto e) { tiro_make_tuple(v, n, h(r), e); },
            [&] {
                auto* t = add(Tup);
                if (odd)
                    t->known = false;
                else
                    t->e.assign(n, null_value);
                set(r, t);
            },
            {r}, n > 1000);
        break;
    }
    case 1: {
        const bool odd = rng.chance(4);
        const size_t n = odd ? odd_size() : rng.below(20);
        auto c = args(v, {r});
        if (n > (size_t(1) << 32))
            c.insert(TIRO_ERROR_ALLOC);
        call("make_array " + std::to_string(n) + " " + d(r), c, [&](auto e) { tiro_make_array(v, n, h(r), e); },
            [&] { set(r, add(Arr)); }, {r}, n > 1000);
        break;
    }
    case 2:
    case 3: {
        const bool tup = rng.chance(2);
        const int t = slot_of(tup ? Tup : Arr);
        const size_t i = index(m(t).e.size());
        auto c = args(v, {t, r});
        type(c, t, tup ? Tup : Arr);
        if (t >= 0 && i >= m(t).e.size())
            c.insert(TIRO_ERROR_OUT_OF_BOUNDS);
        if (!m(t).known)
            return;
        call(std::string(tup ? "tuple" : "array") + "_get " + d(t) + " " + std::to_string(i) + " " + d(r), c,
            [&](auto e) { tup ? tiro_tuple_get(v, h(t), i, h(r), e) : tiro_array_get(v, h(t), i, h(r), e); },
            [&] { set(r, m(t).e[i]); }, {t, r});
        break;
    }
    case 4:
    case 5: {
        const bool tup = rng.chance(2);
        const int t = slot_of(tup ? Tup : Arr);
        const size_t i = index(m(t).e.size());
        auto c = args(v, {t, x});
        type(c, t, tup ? Tup : Arr);
        if (t >= 0 && i >= m(t).e.size())
            c.insert(TIRO_ERROR_OUT_OF_BOUNDS);
        if (!m(t).known || m(t).frozen)
            return;
        call(std::string(tup ? "tuple" : "array") + "_set " + d(t) + " " + std::to_string(i) + " " + d(x), c,
            [&](auto e) { tup ? tiro_tuple_set(v, h(t), i, h(x), e) : tiro_array_set(v, h(t), i, h(x), e); },
            [&] { m(t).e[i] = model[size_t(x)]; }, {t, x});
        break;
    }
    case 6:
    case 7:
    case 8: {
        const int t = slot_of(Arr);
        auto c = args(v, {t, x});
        type(c, t, Arr);
        call("array_push " + d(t) + " " + d(x), c, [&](auto e) { tiro_array_push(v, h(t), h(x), e); },
            [&] { m(t).e.push_back(model[size_t(x)]); }, {t, x});
        break;
    }
    case 9: {
        const int t = slot_of(Arr);
        auto c = args(v, {t});
        type(c, t, Arr);
        if (t >= 0 && m(t).e.empty())
            c.insert(TIRO_ERROR_OUT_OF_BOUNDS);
        call("array_pop " + d(t), c, [&](auto e) { tiro_array_pop(v, h(t), e); }, [&] { m(t).e.pop_back(); }, {t});
        break;
    }
    case 10: {
        const int t = slot_of(Arr);
        auto c = args(v, {t});
        type(c, t, Arr);
        if (!rng.chance(3))
            return;
        call("array_clear " + d(t), c, [&](auto e) { tiro_array_clear(v, h(t), e); }, [&] { m(t).e.clear(); }, {t});
        break;
    }
    case 11: {
        const bool odd = rng.chance(4);
        const size_t n = odd ? odd_size() : rng.below(200);
        auto c = args(v, {r});
        if (n > (size_t(1) << 34)) // no code is documented
            c.insert({TIRO_ERROR_ALLOC, TIRO_ERROR_BAD_ARG, TIRO_ERROR_INTERNAL});
        if (odd && n <= (size_t(1) << 34) && !rng.chance(8))
            return;
        call("make_buffer " + std::to_string(n) + " " + d(r), c, [&](auto e) { tiro_make_buffer(v, n, h(r), e); },
            [&] {
                auto* b = add(Buf);
                b->bytes.assign(n, 0);
                unsigned char* p = tiro_buffer_data(vm, h(r));
                b->data = p;
                set(r, b);
                verify_slot(size_t(r)); // must be zero
                for (size_t i = 0; p && i < n && n < 1000; ++i)
                    p[i] = b->bytes[i] = (unsigned char)(rng.next());
            },
            {r}, n > 1000);
        break;
    }
    }
}

void World::records() {
    const int r = slot(), x = slot();
    auto v = maybe_vm();
    switch (rng.below(6)) {
    case 0: {
        const int k = slot_of(Arr);
        auto c = args(v, {k, r});
        type(c, k, Arr);
        std::set<std::string> names;
        if (k >= 0 && m(k).k == Arr)
            for (auto* s : m(k).e) {
                if (s->k != Str)
                    c.insert(TIRO_ERROR_BAD_TYPE);
                else if (!s->known)
                    return;
                else if (!names.insert(s->s).second)
                    c.insert({TIRO_ERROR_BAD_ARG, TIRO_ERROR_BAD_KEY, TIRO_ERROR_INTERNAL}); // keys must be unique; the code is unspecified
            }
        call("make_record_schema " + d(k) + " " + d(r), c, [&](auto e) { tiro_make_record_schema(v, h(k), h(r), e); },
            [&] {
                auto* s = add(Schema);
                for (auto* n : m(k).e)
                    s->keys.push_back(n->s);
                set(r, s);
            },
            {k, r});
        break;
    }
    case 1: { // a schema of known names
        Err err;
        auto t = temp(0), k = temp(1);
        tiro_make_array(vm, 0, t, err);
        std::vector<std::string> names;
        for (auto* n : {"a", "foo", "key", "left", ""})
            if (rng.chance(2)) {
                names.push_back(n);
                tiro_make_string(vm, ts(n), k, err);
                tiro_array_push(vm, t, k, err);
            }
        auto c = args(v, {r});
        call("make_record_schema own " + d(r), c, [&](auto e) { tiro_make_record_schema(v, t, h(r), e); },
            [&] {
                auto* s = add(Schema);
                s->keys = names;
                set(r, s);
            },
            {r});
        break;
    }
    case 2: {
        const int s = slot_of(Schema);
        auto c = args(v, {s, r});
        type(c, s, Schema);
        call("make_record " + d(s) + " " + d(r), c, [&](auto e) { tiro_make_record(v, h(s), h(r), e); },
            [&] {
                auto* n = add(Rec);
                n->keys = m(s).keys;
                n->e.assign(n->keys.size(), null_value);
                set(r, n);
            },
            {s, r});
        break;
    }
    case 3: {
        const int s = slot_of(Rec);
        auto c = args(v, {s, r});
        type(c, s, Rec);
        call("record_keys " + d(s) + " " + d(r), c, [&](auto e) { tiro_record_keys(v, h(s), h(r), e); },
            [&] {
                // The order is that of the implementation; the model copies it after checking the names.
                auto* n = add(Arr);
                auto* source = &m(s);
                std::multiset<std::string> want(source->keys.begin(), source->keys.end());
                Err err;
                for (size_t i = 0, l = tiro_array_size(vm, h(r)); i < l; ++i) {
                    auto t = temp(0);
                    tiro_array_get(vm, h(r), i, t, err);
                    tiro_string_t str{};
                    tiro_string_value(vm, t, &str, err);
                    auto* e = add(Str);
                    e->s = err.ok() ? std::string(str.data, str.length) : "?";
                    auto it = want.find(e->s);
                    if (it == want.end())
                        fail("record-keys", "unexpected key " + e->s);
                    else
                        want.erase(it);
                    n->e.push_back(e);
                }
                if (!want.empty())
                    fail("record-keys", "missing key " + *want.begin());
                set(r, n);
            },
            {r});
        break;
    }
    case 4:
    case 5: {
        const bool get = rng.chance(2);
        const int s = slot_of(Rec), k = slot_of(Str);
        auto c = args(v, {s, k, get ? r : x});
        type(c, s, Rec);
        type(c, k, Str);
        if (k >= 0 && m(k).k == Str && !m(k).known)
            return;
        size_t pos = 0;
        if (s >= 0 && m(s).k == Rec && k >= 0 && m(k).k == Str) {
            while (pos < m(s).keys.size() && m(s).keys[pos] != m(k).s)
                ++pos;
            if (pos == m(s).keys.size())
                c.insert(TIRO_ERROR_BAD_KEY);
        }
        if (get)
            call("record_get " + d(s) + " " + d(k) + " " + d(r), c, [&](auto e) { tiro_record_get(v, h(s), h(k), h(r), e); },
                [&] { set(r, m(s).e[pos]); }, {s, k, r});
        else
            call("record_set " + d(s) + " " + d(k) + " " + d(x), c, [&](auto e) { tiro_record_set(v, h(s), h(k), h(x), e); },
                [&] { m(s).e[pos] = model[size_t(x)]; }, {s, k, x});
        break;
    }
    }
}

void World::results() {
    const int r = slot(), x = slot();
    auto v = maybe_vm();
    switch (rng.below(6)) {
    case 0:
        call("make_success " + d(x) + " " + d(r), args(v, {x, r}), [&](auto e) { tiro_make_success(v, h(x), h(r), e); },
            [&] { set(r, make_result(true, model[size_t(x)])); }, {x == r ? -1 : x, r});
        break;
    case 1:
        call("make_error " + d(x) + " " + d(r), args(v, {x, r}), [&](auto e) { tiro_make_error(v, h(x), h(r), e); },
            [&] { set(r, make_result(false, model[size_t(x)])); }, {x == r ? -1 : x, r});
        break;
    case 2:
    case 3: {
        const bool value = rng.chance(2);
        const int s = slot_of(Res);
        auto c = args(v, {s, r});
        type(c, s, Res);
        if (s >= 0 && m(s).k == Res && m(s).ok != value)
            c.insert(TIRO_ERROR_BAD_STATE);
        call(std::string(value ? "result_value " : "result_error ") + d(s) + " " + d(r), c,
            [&](auto e) { value ? tiro_result_value(v, h(s), h(r), e) : tiro_result_error(v, h(s), h(r), e); },
            [&] { set(r, m(s).e[0]); }, {s, r});
        break;
    }
    case 4:
    case 5: {
        const bool msg = rng.chance(2);
        const int s = slot_of(Exc);
        auto c = args(v, {s, r});
        type(c, s, Exc);
        call(std::string(msg ? "exception_message " : "exception_trace ") + d(s) + " " + d(r), c,
            [&](auto e) { msg ? tiro_exception_message(v, h(s), h(r), e) : tiro_exception_trace(v, h(s), h(r), e); },
            [&] {
                Value* n;
                if (msg) {
                    n = add(Str);
                    n->s = m(s).s;
                    n->known = !n->s.empty();
                } else {
                    n = add(tiro_value_kind(vm, h(r)) == TIRO_KIND_NULL ? Null : Str);
                    n->known = n->k == Null;
                }
                set(r, n);
            },
            {r});
        break;
    }
    }
}

// ---- native functions ----------------------------------------------------------------------------------------------

/// The calls every frame type supports, with good and bad arguments. Returns the model values of the arguments.
template<typename F>
void probe_frame(F frame, size_t (*count)(F), void (*arg)(F, size_t, tiro_handle_t, tiro_error_t*),
    void (*closure)(F, tiro_handle_t, tiro_error_t*)) {
    World& w = *W;
    ++w.frames;
    Value& c = *w.running;
    if (!c.fn)
        return;
    const size_t n = count(frame);
    if (n != c.e.size())
        w.fail("frame-arg-count", "frame has " + std::to_string(n) + " arguments, the call had " + std::to_string(c.e.size()));
    if (count(nullptr) != 0)
        w.fail("frame-null", "argument count of a NULL frame");
    const int r = w.slot();
    const size_t i = w.index(n);
    Codes wrong = w.args(w.vm, {r});
    const bool no_frame = w.rng.chance(20);
    if (no_frame)
        wrong.insert(TIRO_ERROR_BAD_ARG);
    if (i >= n)
        wrong.insert(TIRO_ERROR_OUT_OF_BOUNDS);
    w.call("frame_arg " + std::to_string(i) + " " + w.d(r), wrong, [&](auto e) { arg(no_frame ? nullptr : frame, i, w.h(r), e); },
        [&] { w.set(r, c.e[i]); }, {r});
    const int q = w.slot();
    Codes cw = w.args(w.vm, {q});
    if (no_frame)
        cw.insert(TIRO_ERROR_BAD_ARG);
    w.call("frame_closure " + w.d(q), cw, [&](auto e) { closure(no_frame ? nullptr : frame, w.h(q), e); },
        [&] { w.set(q, c.fn->closure ? c.fn->closure : w.null_value); }, {q});
}

void native_sync(tiro_vm_t vm, tiro_sync_frame_t frame) {
    World& w = *W;
    if (!w.running)
        return;
    if (vm != w.vm)
        w.fail("frame-vm", "a native function received another machine");
    ++w.depth;
    probe_frame<tiro_sync_frame_t>(frame, tiro_sync_frame_arg_count, tiro_sync_frame_arg, tiro_sync_frame_closure);
    for (size_t i = w.rng.below(4); i; --i)
        w.op();
    const int r = w.slot();
    Value& c = *w.running;
    switch (w.rng.below(4)) {
    case 0: c.result = w.make_result(true, w.null_value); break; // nothing set: null
    case 1: {
        const auto s = w.rng.chance(2) ? "sync panic" : "";
        const bool no_frame = w.rng.chance(10);
        tiro_string_t t = ts(s);
        const bool bad_string = w.rng.chance(8);
        if (bad_string)
            t = {nullptr, 3};
        Codes wrong;
        if (no_frame || bad_string)
            wrong.insert(TIRO_ERROR_BAD_ARG);
        c.result = w.make_result(true, w.null_value);
        w.call("sync_panic", wrong, [&](auto e) { tiro_sync_frame_panic_msg(no_frame ? nullptr : frame, t, e); },
            [&] { c.result = w.make_result(false, w.exception(s)); }, {});
        break;
    }
    default:
        c.result = w.make_result(true, w.null_value);
        w.call("sync_return " + w.d(r), w.args(w.vm, {r}), [&](auto e) { tiro_sync_frame_return_value(frame, w.h(r), e); },
            [&] { c.result = w.make_result(true, &w.m(r)); }, {r});
    }
    --w.depth;
}

void native_async(tiro_vm_t, tiro_async_frame_t frame) {
    World& w = *W;
    if (!w.running)
        return;
    ++w.depth;
    probe_frame<tiro_async_frame_t>(frame, tiro_async_frame_arg_count, tiro_async_frame_arg, tiro_async_frame_closure);
    Value& c = *w.running;
    const int r = w.slot();
    c.result = w.make_result(true, w.null_value);
    switch (w.rng.below(5)) {
    case 0: break;
    case 1:
        w.call("async_return " + w.d(r), w.args(w.vm, {r}), [&](auto e) { tiro_async_frame_return_value(frame, w.h(r), e); },
            [&] { c.result = w.make_result(true, &w.m(r)); }, {r});
        break;
    case 2:
        w.call("async_panic", {}, [&](auto e) { tiro_async_frame_panic_msg(frame, ts("async panic"), e); },
            [&] { c.result = w.make_result(false, w.exception("async panic")); }, {});
        break;
    default: {
        Err err;
        if (tiro_async_frame_token(nullptr, err) || err.code() != TIRO_ERROR_BAD_ARG)
            w.fail("frame-null", "token of a NULL frame");
        tiro_async_frame_yield(nullptr, err);
        if (err.code() != TIRO_ERROR_BAD_ARG)
            w.fail("frame-null", "yield of a NULL frame: " + err.name());
        tiro_async_frame_return_value(nullptr, w.h(r), err);
        if (err.code() != TIRO_ERROR_BAD_ARG)
            w.fail("frame-null", "return_value of a NULL frame: " + err.name());
        auto t = tiro_async_frame_token(frame, err);
        if (!t) {
            w.fail("token", "no token: " + err.name());
            break;
        }
        tiro_async_frame_yield(frame, err);
        if (!err.ok())
            w.fail("token", "yield failed: " + err.name());
        w.tokens.push_back({t, &c});
        c.state = 2;
        c.result = nullptr;
    }
    }
    --w.depth;
}

void native_res(tiro_vm_t, tiro_resumable_frame_t frame) {
    World& w = *W;
    if (!w.running || !w.running->fn)
        return;
    Value& c = *w.running;
    Value& fn = *c.fn;
    const int state = tiro_resumable_frame_state(frame);
    if (state == TIRO_RESUMABLE_STATE_END || (state != 0 && state != 7 && state != 9))
        return;
    ++w.depth;
    auto* locals = &c.keys; // unused for coroutines otherwise
    (void) locals;
    probe_frame<tiro_resumable_frame_t>(frame, tiro_resumable_frame_arg_count, tiro_resumable_frame_arg, tiro_resumable_frame_closure);
    const size_t n = tiro_resumable_frame_local_count(frame);
    if (n != fn.locals)
        w.fail("frame-local-count", "frame has " + std::to_string(n) + " locals, wanted " + std::to_string(fn.locals));
    if (tiro_resumable_frame_local_count(nullptr) || tiro_resumable_frame_state(nullptr))
        w.fail("frame-null", "accessors of a NULL frame");
    static thread_local std::map<Value*, std::map<size_t, Value*>> store;
    if (state == 0)
        store[&c].clear();
    auto& values = store[&c];
    for (int k = 0; k < 3; ++k) {
        const int r = w.slot();
        const size_t i = w.index(n);
        const bool no_frame = w.rng.chance(20);
        Codes wrong = w.args(w.vm, {r});
        if (no_frame)
            wrong.insert(TIRO_ERROR_BAD_ARG);
        if (i >= n)
            wrong.insert(TIRO_ERROR_OUT_OF_BOUNDS);
        auto f = no_frame ? nullptr : frame;
        if (w.rng.chance(2))
            w.call("frame_set_local " + std::to_string(i) + " " + w.d(r), wrong, [&](auto e) { tiro_resumable_frame_set_local(f, i, w.h(r), e); },
                [&] { values[i] = &w.m(r); }, {r});
        else
            w.call("frame_local " + std::to_string(i) + " " + w.d(r), wrong, [&](auto e) { tiro_resumable_frame_local(f, i, w.h(r), e); },
                [&] { auto it = values.find(i); w.set(r, it == values.end() ? w.null_value : it->second); }, {r});
    }
    if (state == 9) {
        const int r = w.slot();
        w.call("invoke_return " + w.d(r), w.args(w.vm, {r}), [&](auto e) { tiro_resumable_frame_invoke_return(frame, w.h(r), e); },
            [&] {
                auto* res = w.add(Arr); // the invoked function is One: a fresh array of the argument
                res->e = {c.closure};
                w.set(r, res);
            },
            {r});
    }
    const int r = w.slot();
    c.result = w.make_result(true, w.null_value);
    // bad calls do not change what the frame does
    Err err;
    tiro_resumable_frame_invoke(nullptr, 1, nullptr, nullptr, err);
    if (err.code() != TIRO_ERROR_BAD_ARG)
        w.fail("frame-null", "invoke of a NULL frame: " + err.name());
    tiro_resumable_frame_set_state(nullptr, 1, err);
    if (err.code() != TIRO_ERROR_BAD_ARG)
        w.fail("frame-null", "set_state of a NULL frame: " + err.name());
    tiro_resumable_frame_panic_msg(frame, {nullptr, 2}, err);
    if (err.code() != TIRO_ERROR_BAD_ARG)
        w.fail("bad-message", "panic_msg with an invalid string: " + err.name());
    {
        const int f = w.slot(), a = w.slot();
        Codes wrong = w.args(w.vm, {f});
        if (f >= 0 && w.m(f).k != Fn)
            wrong.insert(TIRO_ERROR_BAD_TYPE);
        if (a >= 0 && w.m(a).k != Null && w.m(a).k != Tup)
            wrong.insert(TIRO_ERROR_BAD_TYPE);
        if (!wrong.empty())
            w.call("frame_invoke " + w.d(f) + " " + w.d(a), wrong, [&](auto e) { tiro_resumable_frame_invoke(frame, 5, w.h(f), w.h(a), e); }, [&] {}, {f, a});
        if (tiro_resumable_frame_state(frame) != state)
            w.fail("frame-state", "a failed call changed the state of the frame");
    }
    const size_t choice = w.rng.below(6);
    if (choice < 2 && state == 0) { // go on in another state
        tiro_resumable_frame_set_state(frame, 7, err);
        if (!err.ok() || tiro_resumable_frame_state(frame) != 7)
            w.fail("frame-state", "set_state");
    } else if (choice == 2 && state != 9) {
        auto f = w.temp(0), a = w.temp(1);
        tiro_vm_get_export(w.vm, ts("api"), ts("one"), f, err);
        if (!err.ok())
            w.fail("frame", "get_export in a native function: " + err.name());
        tiro_make_tuple(w.vm, 1, a, err);
        const int x = int(w.rng.below(w.slots.size()));
        tiro_tuple_set(w.vm, a, 0, w.h(x), err);
        c.closure = &w.m(x);
        tiro_resumable_frame_invoke(frame, 9, f, a, err);
        if (!err.ok())
            w.fail("frame-invoke", "invoke failed: " + err.name());
    } else if (choice == 3) {
        w.call("res_panic", {}, [&](auto e) { tiro_resumable_frame_panic_msg(frame, ts("res panic"), e); },
            [&] { c.result = w.make_result(false, w.exception("res panic")); }, {});
    } else if (choice == 4) {
        tiro_resumable_frame_set_state(frame, TIRO_RESUMABLE_STATE_END, err);
        if (!err.ok())
            w.fail("frame-state", "set_state to END: " + err.name());
    } else {
        if (!w.call("res_return " + w.d(r), w.args(w.vm, {r}), [&](auto e) { tiro_resumable_frame_return_value(frame, w.h(r), e); },
                [&] { c.result = w.make_result(true, &w.m(r)); }, {r}))
            tiro_resumable_frame_set_state(frame, TIRO_RESUMABLE_STATE_END, err);
        else if (tiro_resumable_frame_state(frame) != TIRO_RESUMABLE_STATE_END)
            tiro_resumable_frame_set_state(frame, TIRO_RESUMABLE_STATE_END, err);
    }
    --w.depth;
}

void World::functions() {
    const int r = slot(), n = slot_of(Str), c = slot();
    auto v = maybe_vm();
    size_t argc = rng.below(4);
    if (rng.chance(8)) {
        static const std::vector<size_t> pool = {1024, 1025, 1000, UINT32_MAX, size_t(UINT32_MAX) + 1, size_t(UINT32_MAX) + 2, SIZE_MAX};
        argc = rng.pick(pool);
    }
    Codes wrong = args(v, {n, r});
    type(wrong, n, Str);
    if (argc > 1024)
        wrong.insert(TIRO_ERROR_BAD_ARG);
    const bool no_func = rng.chance(20);
    if (no_func)
        wrong.insert(TIRO_ERROR_BAD_ARG);
    auto effect = [&](Behaviour b) {
        auto* f = add(Fn);
        f->beh = b;
        f->argc = argc;
        f->closure = c < 0 ? nullptr : model[size_t(c)];
        set(r, f);
        return f;
    };
    switch (rng.below(3)) {
    case 0:
        call("make_sync_function " + std::to_string(argc) + " " + d(n) + " " + d(r), wrong,
            [&](auto e) { tiro_make_sync_function(v, h(n), no_func ? nullptr : native_sync, argc, h(c), h(r), e); },
            [&] { effect(NativeSync); }, {n == r ? -1 : n, r});
        break;
    case 1:
        call("make_async_function " + std::to_string(argc) + " " + d(n) + " " + d(r), wrong,
            [&](auto e) { tiro_make_async_function(v, h(n), no_func ? nullptr : native_async, argc, h(c), h(r), e); },
            [&] { effect(NativeAsync); }, {n == r ? -1 : n, r});
        break;
    case 2: {
        tiro_resumable_frame_desc_t desc{};
        desc.name = h(n);
        desc.arg_count = argc;
        desc.local_count = rng.below(4);
        if (rng.chance(8)) {
            static const std::vector<size_t> pool = {16384, 16385, UINT32_MAX, size_t(UINT32_MAX) + 1, SIZE_MAX};
            desc.local_count = rng.pick(pool);
        }
        if (desc.local_count > 16384)
            wrong.insert(TIRO_ERROR_BAD_ARG);
        desc.closure = h(c);
        desc.func = no_func ? nullptr : native_res;
        const bool no_desc = rng.chance(30);
        if (no_desc)
            wrong.insert(TIRO_ERROR_BAD_ARG);
        call("make_resumable_function " + std::to_string(argc) + " " + std::to_string(desc.local_count) + " " + d(n) + " " + d(r), wrong,
            [&](auto e) { tiro_make_resumable_function(v, no_desc ? nullptr : &desc, h(r), e); },
            [&] { effect(NativeRes)->locals = desc.local_count; }, {n == r ? -1 : n, r});
        break;
    }
    }
}

// ---- coroutines ----------------------------------------------------------------------------------------------------

void on_done(tiro_vm_t vm, tiro_handle_t coro, void* ud) {
    auto* cb = static_cast<Callback*>(ud);
    World& w = *cb->w;
    ++cb->calls;
    if (vm != w.vm)
        w.fail("callback-vm", "callback received another machine");
    if (tiro_value_kind(vm, coro) != TIRO_KIND_COROUTINE || !tiro_coroutine_completed(vm, coro))
        w.fail("callback-coroutine", "callback received something that is not a completed coroutine");
}
void on_cleanup(void* ud) {
    ++static_cast<Callback*>(ud)->cleanups;
}

void World::finish(Value& c, Value* result) {
    c.state = 3;
    c.result = result;
}

/// The outcome of a scripted function call.
void World::execute(Value& c) {
    ++executed;
    Value& f = *c.fn;
    if (f.beh == Unknown) {
        c.result = nullptr; // any
        c.state = 4;
        return;
    }
    if (f.beh >= NativeSync ? c.e.size() < f.argc : c.e.size() != f.argc) {
        finish(c, make_result(false, exception("")));
        return;
    }
    switch (f.beh) {
    case RetNull: finish(c, make_result(true, null_value)); break;
    case Swap: {
        auto* t = add(Tup);
        t->e = {c.e[1], c.e[0]};
        finish(c, make_result(true, t));
        break;
    }
    case One: {
        auto* t = add(Arr);
        t->e = {c.e[0]};
        finish(c, make_result(true, t));
        break;
    }
    case Boom: finish(c, make_result(false, exception("boom"))); break;
    case Append:
        if (c.e[0]->k == Arr) {
            c.e[0]->e.push_back(c.e[1]);
            finish(c, make_result(true, c.e[0]));
        } else if (c.e[0]->k == Other)
            finish(c, nullptr); // may have a method of that name
        else
            finish(c, make_result(false, exception("")));
        break;
    case Ident: finish(c, make_result(true, c.e[0])); break;
    case Closure: {
        auto* g = add(Fn);
        g->beh = Unknown;
        finish(c, make_result(true, g));
        break;
    }
    default: break;
    }
}

void World::run_coroutines() {
    // Native functions find out which coroutine runs by the order of the queue; to keep that simple there is at most one.
    auto list = ready;
    ready.clear();
    const bool inj = inject;
    inject = false; // failures inside of a run leave stuck coroutines, this is C05's subject
    Err err;
    running = list.empty() ? nullptr : list[0];
    auto before = tokens.size();
    if (running && running->state == 1 && running->fn->beh < NativeSync)
        execute(*running);
    if (tiro_vm_has_ready(vm) != !list.empty())
        fail("has-ready", "tiro_vm_has_ready is wrong");
    Value* c = running;
    tiro_vm_run_ready(vm, err);
    ++calls;
    running = nullptr;
    inject = inj;
    (void) before;
    if (!err.ok())
        fail("run", "run_ready failed: " + err.name() + " " + err.details());
    if (c && c->state < 3 && c->fn->beh >= NativeSync) {
        if (c->e.size() < c->fn->argc)
            finish(*c, make_result(false, exception("")));
        else if (c->state != 2)
            c->state = 3;
    }
    if (c && c->cbid >= 0 && c->state == 3) {
        auto& cb = *callbacks[size_t(c->cbid)];
        if (cb.calls != 1 || cb.cleanups != (cb.has_cleanup ? 1 : 0))
            fail("callback", "callback of a completed coroutine: " + std::to_string(cb.calls) + " calls, " + std::to_string(cb.cleanups) + " cleanups");
        c->cbid = -1;
    }
}

void World::coroutines() {
    const int r = slot();
    auto v = maybe_vm();
    switch (rng.below(13)) {
    case 10:
    case 11:
    case 12: { // a call with the right number of arguments, started at once
        int f = slot_of(Fn);
        for (int k = 0; k < 6 && (f < 0 || m(f).k != Fn || m(f).beh == Unknown || m(f).argc > 4); ++k)
            f = slot_of(Fn);
        if (depth || !ready.empty() || f < 0 || r < 0 || m(f).k != Fn || m(f).beh == Unknown || m(f).argc > 4)
            return;
        Err err;
        auto t = temp(0);
        const size_t n = m(f).argc + (m(f).beh >= NativeSync && rng.chance(4));
        tiro_make_tuple(vm, n, t, err);
        auto* c = add(Coro);
        for (size_t i = 0; i < n; ++i) {
            const int x = int(rng.below(slots.size()));
            tiro_tuple_set(vm, t, i, h(x), err);
            c->e.push_back(&m(x));
        }
        c->fn = &m(f);
        call("make_coroutine call " + d(f) + " " + d(r), {}, [&](auto e) { tiro_make_coroutine(vm, h(f), t, h(r), e); }, [&] { set(r, c); }, {r});
        if (&m(r) != c)
            return;
        call("coroutine_start " + d(r), {}, [&](auto e) { tiro_coroutine_start(vm, h(r), e); },
            [&] { c->state = 1; ready.push_back(c); }, {r});
        run_coroutines();
        verify_slot(size_t(r));
        break;
    }
    case 0:
    case 1:
    case 2: {
        const int f = slot_of(Fn), a = rng.chance(4) ? -1 : slot_of(Tup);
        Codes wrong = args(v, {f, r});
        type(wrong, f, Fn);
        if (a >= 0 && m(a).k != Tup && m(a).k != Null)
            wrong.insert(TIRO_ERROR_BAD_TYPE);
        if (a >= 0 && !m(a).known)
            return;
        Value* fn = f >= 0 ? model[size_t(f)] : nullptr;
        Value* ar = a >= 0 ? model[size_t(a)] : nullptr;
        call("make_coroutine " + d(f) + " " + d(a) + " " + d(r), wrong, [&](auto e) { tiro_make_coroutine(v, h(f), h(a), h(r), e); },
            [&] {
                auto* c = add(Coro);
                c->fn = fn;
                if (ar && ar->k == Tup) {
                    c->e = ar->e;
                    ar->frozen = true;
                }
                set(r, c);
            },
            {r});
        break;
    }
    case 3:
    case 4:
    case 5: {
        if (depth || !ready.empty())
            return;
        const int c = slot_of(Coro);
        Codes wrong = args(v, {c});
        type(wrong, c, Coro);
        if (c >= 0 && m(c).k == Coro && m(c).state != 0)
            wrong.insert(TIRO_ERROR_BAD_STATE);
        if (c >= 0 && m(c).k == Coro && m(c).state == 0 && m(c).fn->beh == Unknown)
            return; // what it would do is not known
        call("coroutine_start " + d(c), wrong, [&](auto e) { tiro_coroutine_start(v, h(c), e); },
            [&] { m(c).state = 1; ready.push_back(&m(c)); }, {c});
        break;
    }
    case 6: {
        const int c = slot_of(Coro);
        Codes wrong = args(v, {c, r});
        type(wrong, c, Coro);
        if (c >= 0 && m(c).k == Coro && (m(c).state == 4 || (m(c).state == 3 && !m(c).result)))
            return;
        if (c >= 0 && m(c).k == Coro && m(c).state != 3)
            wrong.insert(TIRO_ERROR_BAD_STATE);
        call("coroutine_result " + d(c) + " " + d(r), wrong, [&](auto e) { tiro_coroutine_result(v, h(c), h(r), e); },
            [&] { set(r, m(c).result); }, {c, r});
        break;
    }
    case 7: {
        const int c = slot_of(Coro);
        if (c >= 0 && m(c).k == Coro && (m(c).state >= 3 || m(c).cbid >= 0))
            return;
        Codes wrong = args(v, {c});
        type(wrong, c, Coro);
        const bool no_cb = rng.chance(8);
        if (no_cb)
            wrong.insert(TIRO_ERROR_BAD_ARG);
        callbacks.push_back(std::make_unique<Callback>());
        auto* cb = callbacks.back().get();
        cb->w = this;
        cb->has_cleanup = !rng.chance(4);
        const int id = int(callbacks.size()) - 1;
        const bool ok = call("coroutine_set_callback " + d(c), wrong,
            [&](auto e) { tiro_coroutine_set_callback(v, h(c), no_cb ? nullptr : on_done, cb->has_cleanup ? on_cleanup : nullptr, cb, e); },
            [&] { m(c).cbid = id; }, {c});
        const bool registered = wrong.empty() && c >= 0 && m(c).cbid == id;
        (void) ok;
        if (!registered && cb->cleanups != (cb->has_cleanup ? 1 : 0))
            fail("failed-callback", "a failed registration ran its cleanup " + std::to_string(cb->cleanups) + " times");
        if (registered && (cb->cleanups || cb->calls))
            fail("early-callback", "registering a callback ran it or its cleanup");
        break;
    }
    case 8:
        if (!depth)
            run_coroutines();
        break;
    case 9: { // tokens
        if (depth || tokens.empty() || !ready.empty())
            return;
        const size_t i = rng.below(tokens.size());
        Token& t = tokens[i];
        if (rng.chance(6)) { // freed: the coroutine can not go on unless the token was used
            if (t.used) {
                tiro_async_token_free(t.token);
                tokens.erase(tokens.begin() + long(i));
            }
            return;
        }
        const bool panic = rng.chance(3);
        const bool no_token = rng.chance(15);
        Codes wrong;
        if (no_token)
            wrong.insert(TIRO_ERROR_BAD_ARG);
        else if (t.used)
            wrong.insert({TIRO_ERROR_BAD_STATE, TIRO_ERROR_BAD_ARG, TIRO_ERROR_INTERNAL}); // an error, the code is not documented
        auto token = no_token ? nullptr : t.token;
        Value* coro = t.coro;
        if (!panic && r < 0)
            wrong.insert(TIRO_ERROR_BAD_ARG);
        auto effect = [&](Value* res) {
            tokens[i].used = true;
            coro->state = 5; // scheduled again
            ready.push_back(coro);
            coro->result = res;
        };
        if (panic)
            call("token_panic", wrong, [&](auto e) { tiro_async_token_panic_msg(token, ts("token panic"), e); },
                [&] { effect(make_result(false, exception("token panic"))); }, {});
        else
            call("token_return " + d(r), wrong, [&](auto e) { tiro_async_token_return_value(token, h(r), e); },
                [&] { effect(make_result(true, model[size_t(r)])); }, {r});
        if (!ready.empty()) { // run it right away: it does nothing but return
            Err err;
            ready.clear();
            tiro_vm_run_ready(vm, err);
            if (!err.ok())
                fail("run", "run_ready failed: " + err.name() + " " + err.details());
            coro->state = 3;
            if (coro->cbid >= 0) {
                auto& cb = *callbacks[size_t(coro->cbid)];
                if (cb.calls != 1 || cb.cleanups != (cb.has_cleanup ? 1 : 0))
                    fail("callback", "callback of a resumed coroutine: " + std::to_string(cb.calls) + " calls");
                coro->cbid = -1;
            }
        }
        break;
    }
    }
}

// ---- modules, natives, types ------------------------------------------------------------------------------------------

void World::modules_() {
    const int r = slot();
    auto v = maybe_vm();
    static const std::vector<std::string> names = {"m1", "m2", "m3", "m4", "api", "std", "", "m.x", "\xff"};
    switch (rng.below(6)) {
    case 0: {
        const auto name = rng.pick(names);
        std::vector<std::string> keys;
        for (auto* n : {"a", "b", "foo", "", "c"})
            if (*n ? rng.chance(2) : rng.chance(25))
                keys.push_back(n);
        std::vector<tiro_module_member_t> members;
        std::vector<Value*> values;
        Codes wrong = args(v, {r});
        if (name.empty())
            wrong.insert(TIRO_ERROR_BAD_ARG);
        for (auto& k : keys) {
            const int x = slot();
            tiro_module_member_t mem{ts(k), h(x)};
            if (x < 0 || k.empty())
                wrong.insert(TIRO_ERROR_BAD_ARG);
            if (rng.chance(60)) {
                mem.name = {nullptr, 4};
                wrong.insert(TIRO_ERROR_BAD_ARG);
            }
            members.push_back(mem);
            values.push_back(&m(x));
        }
        const bool no_members = rng.chance(20);
        if (no_members && !members.empty())
            wrong.insert(TIRO_ERROR_BAD_ARG);
        call("make_module " + name + " " + std::to_string(keys.size()) + " " + d(r), wrong,
            [&](auto e) { tiro_make_module(v, ts(name), no_members ? nullptr : members.data(), members.size(), h(r), e); },
            [&] {
                auto* n = add(Mod);
                n->s = name;
                n->keys = keys;
                n->e = values;
                set(r, n);
            },
            {r});
        break;
    }
    case 1: {
        const int x = slot_of(Mod);
        Codes wrong = args(v, {x});
        type(wrong, x, Mod);
        if (x >= 0 && m(x).k == Mod && modules.count(m(x).s))
            wrong.insert(TIRO_ERROR_MODULE_EXISTS);
        call("vm_load_module " + d(x), wrong, [&](auto e) { tiro_vm_load_module(v, h(x), e); },
            [&] { modules.insert(m(x).s); module_objects[m(x).s] = &m(x); }, {x});
        break;
    }
    case 2: {
        const auto name = rng.pick(names);
        static const std::vector<std::string> exports = {"a", "b", "foo", "number", "hidden", "", "print", "zzz", "make_closure"};
        const auto ex = rng.pick(exports);
        Codes wrong = args(v, {r});
        if (name.empty() || ex.empty())
            wrong.insert(TIRO_ERROR_BAD_ARG);
        Value* found = nullptr;
        Value other;
        if (!modules.count(name))
            wrong.insert(TIRO_ERROR_MODULE_NOT_FOUND);
        else if (name == "api") {
            if (ex == "number") {
                found = add(Int);
                found->i = 42;
            } else
                wrong.insert(TIRO_ERROR_EXPORT_NOT_FOUND);
        } else if (name == "std") {
            if (ex == "print") {
                found = add(Fn);
            } else
                wrong.insert(TIRO_ERROR_EXPORT_NOT_FOUND);
        } else {
            Value& mod = *module_objects[name];
            for (size_t i = 0; i < mod.keys.size(); ++i)
                if (mod.keys[i] == ex)
                    found = mod.e[i];
            if (!found)
                wrong.insert(TIRO_ERROR_EXPORT_NOT_FOUND);
        }
        call("vm_get_export " + name + "." + ex + " " + d(r), wrong, [&](auto e) { tiro_vm_get_export(v, ts(name), ts(ex), h(r), e); },
            [&] { set(r, found); }, {r});
        break;
    }
    case 3: {
        const int x = slot_of(Mod);
        static const std::vector<std::string> exports = {"a", "b", "foo", "", "zzz"};
        const auto ex = rng.pick(exports);
        Codes wrong = args(v, {x, r});
        type(wrong, x, Mod);
        if (ex.empty())
            wrong.insert(TIRO_ERROR_BAD_ARG);
        Value* found = nullptr;
        if (x >= 0 && m(x).k == Mod) {
            for (size_t i = 0; i < m(x).keys.size(); ++i)
                if (m(x).keys[i] == ex)
                    found = m(x).e[i];
            if (!found)
                wrong.insert(TIRO_ERROR_EXPORT_NOT_FOUND);
        }
        call("module_get_export " + d(x) + " " + ex + " " + d(r), wrong, [&](auto e) { tiro_module_get_export(v, h(x), ts(ex), h(r), e); },
            [&] { set(r, found); }, {x, r});
        break;
    }
    case 4: {
        if (!rng.chance(6))
            return;
        Codes wrong = args(v, {});
        if (modules.count("std"))
            wrong.insert(TIRO_ERROR_MODULE_EXISTS);
        call("vm_load_std", wrong, [&](auto e) { tiro_vm_load_std(v, e); }, [&] { modules.insert("std"); }, {});
        break;
    }
    case 5: { // functions of the script module
        struct Known { const char* name; Behaviour b; size_t argc; };
        static const std::vector<Known> known = {{"nul", RetNull, 0}, {"swap", Swap, 2}, {"one", One, 1}, {"boom", Boom, 0}, {"app", Append, 2},
            {"ident", Ident, 1}, {"closed", Closure, 1}};
        const auto k = rng.pick(known);
        Codes wrong = args(v, {r});
        call(std::string("vm_get_export api.") + k.name + " " + d(r), wrong, [&](auto e) { tiro_vm_get_export(v, ts("api"), ts(k.name), h(r), e); },
            [&] {
                auto* f = add(Fn);
                f->beh = k.b;
                f->argc = k.argc;
                set(r, f);
            },
            {r});
        break;
    }
    }
}

void World::natives() {
    const int r = slot();
    auto v = maybe_vm();
    tiro_native_type_t* t = &TYPES[rng.below(3)];
    size_t n = 1 + rng.below(64);
    Codes wrong = args(v, {r});
    static tiro_native_type_t odd[] = {{{"Bad", 3}, 3, nullptr}, {{nullptr, 4}, 8, nullptr}, {{"Huge", 4}, 1u << 20, nullptr}, {{"Zero", 4}, 0, nullptr}};
    bool big = false;
    switch (rng.below(12)) {
    case 0: t = nullptr; wrong.insert(TIRO_ERROR_BAD_ARG); break;
    case 1: n = 0; wrong.insert(TIRO_ERROR_BAD_ARG); break;
    case 2: t = &odd[0]; wrong.insert(TIRO_ERROR_BAD_ARG); break;
    case 3: t = &odd[1]; wrong.insert(TIRO_ERROR_BAD_ARG); break;
    case 4: t = &odd[2]; wrong.insert({TIRO_ERROR_ALLOC, TIRO_ERROR_BAD_ARG}); break;
    case 5: t = &odd[3]; wrong.insert(TIRO_ERROR_BAD_ARG); break;
    case 6:
        n = odd_size();
        if (n <= (size_t(1) << 34))
            return;
        wrong.insert(TIRO_ERROR_ALLOC);
        big = true;
        break;
    }
    call("make_native " + std::to_string(n) + " " + d(r), wrong, [&](auto e) { tiro_make_native(v, t, n, h(r), e); },
        [&] {
            auto* o = add(Nat);
            o->nt = t;
            o->bytes.resize(n);
            auto* p = static_cast<unsigned char*>(tiro_native_data(vm, h(r)));
            for (size_t i = 0; p && i < n; ++i)
                p[i] = o->bytes[i] = (unsigned char)(rng.next());
            set(r, o);
        },
        {r}, big);
}

void World::types() {
    const int r = slot(), x = slot();
    auto v = maybe_vm();
    switch (rng.below(4)) {
    case 0:
    case 1: {
        if (m(x).k == Other)
            return;
        call("value_type " + d(x) + " " + d(r), args(v, {x, r}), [&](auto e) { tiro_value_type(v, h(x), h(r), e); },
            [&] {
                auto* t = add(Type);
                auto kind = kind_of(m(x).k);
                // the type of the kind is the same type
                Err err;
                auto tmp = temp(0);
                tiro_kind_type(vm, kind, tmp, err);
                if (!err.ok() || !tiro_value_same(vm, tmp, h(r)))
                    fail("value-type", std::string("type of a value and of its kind differ: ") + tiro_kind_str(kind));
                set(r, t);
            },
            {r});
        break;
    }
    case 2: {
        static const std::vector<int> kinds = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 99, TIRO_KIND_INTERNAL, TIRO_KIND_INVALID};
        const auto k = tiro_kind_t(rng.pick(kinds));
        Codes wrong = args(v, {r});
        if (k > TIRO_KIND_NATIVE)
            wrong.insert(TIRO_ERROR_BAD_ARG);
        if (!tiro_kind_str(k))
            fail("kind-str", "tiro_kind_str returned NULL");
        call("kind_type " + std::to_string(int(k)) + " " + d(r), wrong, [&](auto e) { tiro_kind_type(v, k, h(r), e); },
            [&] { set(r, add(Type)); }, {r});
        break;
    }
    case 3: {
        const int t = slot_of(Type);
        Codes wrong = args(v, {t, r});
        type(wrong, t, Type);
        call("type_name " + d(t) + " " + d(r), wrong, [&](auto e) { tiro_type_name(v, h(t), h(r), e); },
            [&] {
                auto* n = add(Str);
                n->known = false;
                set(r, n);
            },
            {r});
        break;
    }
    }
}

void World::op() {
    if (bad.size() >= 6)
        return;
    switch (rng.below(17)) {
    case 14:
    case 15:
    case 16: coroutines(); break;
    case 0:
    case 1: scalars(); break;
    case 2:
    case 3:
    case 4: containers(); break;
    case 5: records(); break;
    case 6: results(); break;
    case 7: functions(); break;
    case 8:
    case 9:
    case 10: coroutines(); break;
    case 11: modules_(); break;
    case 12: natives(); break;
    case 13: types(); break;
    }
}

// ---- one case -----------------------------------------------------------------------------------------------------

void configure_gc(const json& c) {
    vp::gc = {};
    vp::fault = {};
    vp::mon = {};
    if (c.contains("gc")) {
        vp::gc.enabled = true;
        vp::gc.mode = c["gc"][0];
        vp::gc.n = c["gc"][1];
    }
}

tiro_module_t compile_source(const char* name, const char* src) {
    Err err;
    auto comp = tiro_compiler_new(ts(name), err);
    tiro_compiler_add_file(comp, ts("f.tiro"), ts(src), err);
    if (err.ok())
        tiro_compiler_run(comp, err);
    tiro_module_t mod = nullptr;
    if (err.ok())
        tiro_compiler_take_module(comp, &mod, err);
    tiro_compiler_free(comp);
    return mod;
}

json run_values(const json& c) {
    World w(c["seed"].get<uint64_t>());
    W = &w;
    configure_gc(c);
    tiro_module_t mod = compile_source("api", SOURCE);
    tiro_vm_settings_t settings;
    tiro_vm_settings_init(&settings);
    settings.page_size = c.value("page", 0);
    settings.max_heap_size = c.value("max", uint64_t(0));
    settings.userdata = &w;
    settings.print_stdout = [](tiro_string_t s, void* ud) { static_cast<World*>(ud)->printed.append(s.data, s.length); };
    w.traces = settings.enable_panic_stack_trace = c.value("traces", false);
    json r;
    Err err;
    w.vm = tiro_vm_new(&settings, err);
    if (!w.vm || !mod) {
        r["error"] = "start " + err.name() + " " + err.details();
        return r;
    }
    if (tiro_vm_userdata(w.vm) != &w)
        w.fail("vm-settings", "userdata differs");
    if (settings.page_size && tiro_vm_page_size(w.vm) != settings.page_size)
        w.fail("vm-settings", "page size differs");
    if (settings.max_heap_size && tiro_vm_max_heap_size(w.vm) != settings.max_heap_size)
        w.fail("vm-settings", "heap limit differs");
    tiro_vm_load_std(w.vm, err);
    w.modules.insert("std");
    tiro_vm_load_bytecode(w.vm, mod, err);
    w.modules.insert("api");
    if (!err.ok())
        w.fail("load", err.details());
    tiro_vm_load_bytecode(w.vm, mod, err);
    if (err.code() != TIRO_ERROR_MODULE_EXISTS)
        w.fail("load-twice", "loading a module twice returned " + err.name());
    tiro_vm_load_bytecode(w.vm, nullptr, err);
    if (err.code() != TIRO_ERROR_BAD_ARG)
        w.fail("load-null", "loading NULL returned " + err.name());
    tiro_vm_load_bytecode(nullptr, mod, err);
    if (err.code() != TIRO_ERROR_BAD_ARG)
        w.fail("load-null", "loading into NULL returned " + err.name());
    tiro_vm_run_ready(nullptr, err);
    if (err.code() != TIRO_ERROR_BAD_ARG)
        w.fail("run-null", "running NULL returned " + err.name());
    tiro_module_free(mod);
    const size_t n = c.value("slots", 16);
    for (size_t i = 0; i < n; ++i) {
        w.slots.push_back(tiro_global_new(w.vm, err));
        w.model.push_back(w.null_value);
    }
    { // values of internal kinds, bound methods
        auto f = w.temp(0), co = w.temp(1);
        tiro_vm_get_export(w.vm, ts("api"), ts("internals"), f, err);
        tiro_make_coroutine(w.vm, f, nullptr, co, err);
        tiro_coroutine_start(w.vm, co, err);
        tiro_vm_run_ready(w.vm, err);
        tiro_coroutine_result(w.vm, co, f, err);
        tiro_result_value(w.vm, f, f, err);
        if (!err.ok() || tiro_value_kind(w.vm, f) != TIRO_KIND_ARRAY)
            w.fail("start", "internals: " + err.name() + " " + err.details());
        for (size_t i = 0; i < std::min(n / 2, size_t(tiro_array_size(w.vm, f))); ++i) {
            size_t j = w.rng.below(n);
            tiro_array_get(w.vm, f, (i + w.rng.below(10)) % tiro_array_size(w.vm, f), w.slots[j], err);
            auto k = tiro_value_kind(w.vm, w.slots[j]);
            auto* v = w.add(k == TIRO_KIND_FUNCTION ? Fn : k == TIRO_KIND_FLOAT ? Float : Other);
            v->d = 3.141592653589793;
            if (v->k == Float)
                v->d = tiro_float_value(w.vm, w.slots[j]);
            w.model[j] = v;
        }
    }
    for (size_t i = 0; i < n; ++i) // some of everything
        for (int k = 0; k < 8 && w.model[i]->k == Null; ++k)
            switch (w.rng.below(4)) {
            case 0: w.functions(); break;
            case 1: w.modules_(); break;
            case 2: w.containers(); break;
            default: w.scalars();
            }
    w.inject = c.value("faults", false);
    const long ops = c.value("ops", 200);
    for (long i = 0; i < ops && w.bad.empty(); ++i) {
        w.op();
        if (w.rng.chance(30))
            w.verify_all();
    }
    if (w.bad.empty())
        w.verify_all();
    // Tokens and handles are left to the machine in half of the cases.
    if (w.rng.chance(2)) {
        for (auto& t : w.tokens)
            tiro_async_token_free(t.token);
        for (auto h : w.slots)
            tiro_global_free(h);
        for (auto h : w.spare)
            tiro_global_free(h);
    }
    tiro_vm_free(w.vm);
    for (auto& cb : w.callbacks)
        if (cb->cleanups != (cb->has_cleanup ? 1 : 0))
            w.fail("cleanup", "a callback was cleaned up " + std::to_string(cb->cleanups) + " times by the end");
    r["bad"] = w.bad;
    r["calls"] = w.calls;
    r["errors"] = w.errors;
    r["checked"] = w.checked;
    r["faults"] = w.faults;
    r["frames"] = w.frames;
    r["executed"] = w.executed;
    r["gcs"] = vp::mon.gcs;
    json o = json::object();
    for (auto& [k, v] : w.outcomes)
        o[k] = v;
    r["outcomes"] = o;
    W = nullptr;
    return r;
}

/// The compiler interface as a state machine.
json run_compiler(const json& c) {
    Rng rng(c["seed"].get<uint64_t>());
    configure_gc(c);
    json bad = json::array();
    std::map<std::string, uint64_t> outcomes;
    uint64_t calls = 0;
    std::string log;
    auto fail = [&](const std::string& key, const std::string& what) {
        if (bad.size() < 6)
            bad.push_back({key, what + " | " + log.substr(log.size() > 400 ? log.size() - 400 : 0)});
    };
    auto expect = [&](const std::string& name, Err& err, const Codes& wrong) {
        ++calls;
        log += name + "=" + err.name() + "; ";
        ++outcomes[name + "/" + err.name()];
        if (wrong.empty() ? !err.ok() : !wrong.count(err.code()))
            fail("compiler-" + name, name + " returned " + err.name() + " " + err.details() + ", expected "
                    + (wrong.empty() ? std::string("OK") : tiro_errc_name(tiro_errc_t(*wrong.begin()))));
    };
    struct Messages {
        int n = 0, errors = 0, stop = -1;
        bool bad = false, running = false;
    } msg;
    Err err;
    static const std::vector<std::string> sources = {"export func f(x) = x + 1;\n", "export const a = 1;\n", "", "func f( {", "export func g() = unknown;\n",
        "import nothing.here;\nexport func k() = 1;\n", "func unused() { var x = 1; }\n", "func a() = b(;\nfunc c() = ];\n", std::string("\0\xff", 2),
        "export func w() { return 1; return 2; }\n", "export func dup() = 1;\nexport func dup() = 2;\n",
        "export func div() = 1 / 0;\n", "export func ovf() = 9223372036854775807 + 1;\n"};
    // which of them are valid on their own
    static const std::vector<int> valid = {1, 1, 1, 0, 0, 1, 1, 0, 0, 1, 0, 1, 1};
    for (int round = 0; round < 12 && bad.empty(); ++round) {
        log += "new; ";
        const bool bad_name = rng.chance(12);
        tiro_string_t name = bad_name ? (rng.chance(2) ? tiro_string_t{"", 0} : tiro_string_t{nullptr, 3}) : ts("mod");
        auto comp = tiro_compiler_new(name, err);
        expect("new", err, bad_name ? Codes{TIRO_ERROR_BAD_ARG} : Codes{});
        if ((comp == nullptr) != bad_name)
            fail("compiler-new", "unexpected result of tiro_compiler_new");
        if (!comp)
            continue;
        bool started = false, ok = false, taken = false, callback = false, any_invalid = false, dup = false;
        std::set<int> requested;
        std::set<std::string> names;
        size_t files = 0;
        msg = {};
        tiro_compiler_set_message_callback(comp,
            [](const tiro_compiler_message_t* m, void* ud) {
                auto* s = static_cast<Messages*>(ud);
                s->bad = s->bad || !s->running || !m->text.data || (m->severity != TIRO_SEVERITY_ERROR && m->severity != TIRO_SEVERITY_WARNING);
                s->errors += m->severity == TIRO_SEVERITY_ERROR;
                return s->n++ != s->stop;
            },
            &msg, err);
        callback = true;
        expect("set_message_callback", err, {});
        if (rng.chance(4))
            msg.stop = int(rng.below(3));
        for (int step = 0; step < 14 && bad.empty(); ++step) {
            auto target = rng.chance(20) ? nullptr : comp;
            Codes wrong;
            if (!target)
                wrong.insert(TIRO_ERROR_BAD_ARG);
            switch (rng.below(started ? 7 : 9)) {
            case 0:
            case 7: {
                const size_t k = rng.chance(2) ? (rng.chance(2) ? rng.below(2) : 11 + rng.below(2)) : rng.below(sources.size());
                std::string fname = "f" + std::to_string(files) + ".tiro";
                if (rng.chance(15))
                    fname = "";
                tiro_string_t content = ts(sources[k]);
                const bool bad_content = rng.chance(20);
                if (bad_content)
                    content = {nullptr, 7};
                if (fname.empty() || bad_content)
                    wrong.insert(TIRO_ERROR_BAD_ARG);
                if (target && started)
                    wrong.insert(TIRO_ERROR_BAD_STATE);
                std::string own = sources[k]; // the content is copied: the buffer may change afterwards
                if (!bad_content)
                    content = ts(own);
                tiro_compiler_add_file(target, ts(fname), content, err);
                std::fill(own.begin(), own.end(), '?');
                std::fill(fname.begin(), fname.end(), '?');
                expect("add_file", err, wrong);
                if (wrong.empty()) {
                    ++files;
                    any_invalid = any_invalid || !valid[k];
                    if (valid[k] && sources[k].size() > 0 && !names.insert(sources[k]).second)
                        dup = true; // the same names are declared twice
                }
                break;
            }
            case 1: {
                static const std::vector<int> kinds = {1, 2, 3, 4, 1, 2, 3, 4, 0, 5, 7};
                const int k = rng.pick(kinds);
                if (k < 1 || k > 4)
                    wrong.insert(TIRO_ERROR_BAD_ARG);
                if (target && started)
                    wrong.insert(TIRO_ERROR_BAD_STATE);
                tiro_compiler_request_attachment(target, tiro_attachment_t(k), err);
                expect("request_attachment", err, wrong);
                if (wrong.empty())
                    requested.insert(k);
                break;
            }
            case 2:
            case 8: {
                if (step < 3 && !rng.chance(6))
                    break;
                if (target && started)
                    wrong.insert(TIRO_ERROR_BAD_STATE);
                msg.n = msg.errors = 0;
                msg.running = true;
                tiro_compiler_run(target, err);
                msg.running = false;
                if (wrong.empty()) {
                    ++calls;
                    log += "run=" + err.name() + "; ";
                    ++outcomes["run/" + err.name()];
                    started = true;
                    ok = err.ok();
                    const bool stopped = msg.stop >= 0 && msg.n > msg.stop;
                    if (files && !stopped) {
                        if (ok && (any_invalid || dup))
                            fail("compiler-run", "invalid sources compiled");
                        if (!ok && !any_invalid && !dup)
                            fail("compiler-run", "valid sources failed: " + err.name() + " " + err.details());
                        if (!ok && err.code() != TIRO_ERROR_BAD_SOURCE)
                            fail("compiler-run", "invalid sources: " + err.name() + " " + err.details());
                        if (ok != (msg.errors == 0))
                            fail("compiler-run", "result and messages disagree");
                    }
                    if (stopped && ok)
                        fail("compiler-stop", "the message callback asked to stop, the compiler succeeded");
                    if (stopped && msg.n > msg.stop + 1)
                        fail("compiler-stop", "more messages after the message callback asked to stop");
                    if (msg.bad)
                        fail("compiler-message", "a malformed message");
                } else
                    expect("run", err, wrong);
                break;
            }
            case 3:
                ++calls;
                if (tiro_compiler_has_module(nullptr))
                    fail("compiler-has-module", "NULL has a module");
                if (tiro_compiler_has_module(comp) != (ok && !taken))
                    fail("compiler-has-module", std::string("has_module is ") + (ok && !taken ? "false after success" : "true without a successful run"));
                break;
            case 4: {
                tiro_module_t mod = nullptr;
                const bool no_out = rng.chance(10);
                if (no_out)
                    wrong.insert(TIRO_ERROR_BAD_ARG);
                if (target && !(ok && !taken))
                    wrong.insert(TIRO_ERROR_BAD_STATE);
                tiro_compiler_take_module(target, no_out ? nullptr : &mod, err);
                expect("take_module", err, wrong);
                if (wrong.empty()) {
                    taken = true;
                    if (!mod)
                        fail("compiler-take-module", "no module");
                    if (rng.chance(2)) { // the module outlives the compiler and can be loaded more than once
                        tiro_compiler_free(comp);
                        comp = nullptr;
                    }
                    for (int k = 0; k < 2; ++k) {
                        Err e2;
                        auto vm = tiro_vm_new(nullptr, e2);
                        tiro_vm_load_std(vm, e2);
                        tiro_vm_load_bytecode(vm, mod, e2);
                        if (!e2.ok() && e2.code() != TIRO_ERROR_MODULE_NOT_FOUND)
                            fail("compiler-load", "loading a compiled module: " + e2.name() + " " + e2.details());
                        tiro_vm_free(vm);
                    }
                } else if (mod)
                    fail("compiler-take-module", "a module although the call failed");
                tiro_module_free(mod);
                break;
            }
            case 5:
            case 6: {
                static const std::vector<int> kinds = {1, 2, 3, 4, 0, 5, 7};
                const int k = rng.pick(kinds);
                char* s = nullptr;
                const bool no_out = rng.chance(10);
                if (no_out)
                    wrong.insert(TIRO_ERROR_BAD_ARG);
                if (k < 1 || k > 4)
                    wrong.insert(TIRO_ERROR_BAD_ARG);
                if (target && !(started && ok && requested.count(k)))
                    wrong.insert(TIRO_ERROR_BAD_STATE);
                tiro_compiler_get_attachment(target, tiro_attachment_t(k), no_out ? nullptr : &s, err);
                if (target && started && !ok && !no_out && requested.count(k)) {
                    // a failed compilation may or may not have got as far as the attachment
                    if (err.ok() ? !s : err.code() != TIRO_ERROR_BAD_STATE)
                        fail("compiler-attachment", "attachment of a failed compilation: " + err.name());
                    ++calls;
                } else {
                    expect("get_attachment", err, wrong);
                    if (wrong.empty() && (!s || (files && !*s)))
                        fail("compiler-attachment", "empty attachment");
                    if (!wrong.empty() && s)
                        fail("compiler-attachment", "an attachment although the call failed");
                }
                std::free(s);
                break;
            }
            }
            if (!comp)
                break;
        }
        (void) callback;
        tiro_compiler_free(comp);
    }
    json r;
    r["bad"] = bad;
    r["calls"] = calls;
    json o = json::object();
    for (auto& [k, v] : outcomes)
        o["compiler:" + k] = v;
    r["outcomes"] = o;
    return r;
}

/// Settings, error codes and other things that need no machine.
json run_settings(const json& c) {
    Rng rng(c["seed"].get<uint64_t>());
    configure_gc(c);
    json bad = json::array();
    uint64_t calls = 0;
    auto fail = [&](const std::string& key, const std::string& what) {
        if (bad.size() < 6)
            bad.push_back({key, what});
    };
    std::map<std::string, uint64_t> outcomes;
    for (int i = 0; i < 40; ++i) {
        tiro_vm_settings_t s;
        std::memset(&s, 0xab, sizeof s);
        tiro_vm_settings_init(&s);
        if (s.page_size || s.max_heap_size || s.userdata || s.print_stdout || s.enable_panic_stack_trace)
            fail("settings-init", "tiro_vm_settings_init left a field that is not the default");
        static const std::vector<size_t> pages = {0, 1 << 16, 1 << 17, 1 << 20, 1 << 24, 1 << 15, 1 << 25, 65537, 65535, 100000, 1, size_t(1) << 32, SIZE_MAX,
            size_t(1) << 63, (1 << 16) + (1 << 17)};
        static const std::vector<size_t> heaps = {0, SIZE_MAX, 1 << 16, 1, 100, 1 << 20, 1 << 24, 65537};
        s.page_size = rng.pick(pages);
        s.max_heap_size = rng.pick(heaps);
        s.userdata = rng.chance(2) ? &s : nullptr;
        const bool valid_page = s.page_size == 0
                                || ((s.page_size & (s.page_size - 1)) == 0 && s.page_size >= (1 << 16) && s.page_size <= (1 << 24));
        Err err;
        auto vm = tiro_vm_new(&s, err);
        ++calls;
        ++outcomes["vm_new/" + err.name()];
        if ((vm != nullptr) != err.ok())
            fail("vm-new", "result and error of tiro_vm_new disagree: " + err.name());
        const std::string what = "page size " + std::to_string(s.page_size) + ", heap limit " + std::to_string(s.max_heap_size);
        if (!valid_page && vm)
            fail("vm-new-page-size", "a machine with an invalid " + what);
        if (valid_page && !vm && (s.max_heap_size == 0 || s.max_heap_size >= (1 << 26)))
            fail("vm-new", "no machine for " + what + ": " + err.name() + " " + err.details());
        if (vm) {
            if (s.page_size && tiro_vm_page_size(vm) != s.page_size)
                fail("vm-settings", "page size differs");
            if (s.max_heap_size && tiro_vm_max_heap_size(vm) != s.max_heap_size)
                fail("vm-settings", "heap limit differs");
            if (tiro_vm_userdata(vm) != s.userdata)
                fail("vm-settings", "userdata differs");
            if (tiro_vm_has_ready(vm))
                fail("vm-new", "a new machine has something to do");
            tiro_vm_run_ready(vm, err);
            if (!err.ok())
                fail("vm-new", "running a new machine: " + err.name());
            tiro_vm_load_std(vm, err);
            if (!err.ok() && err.code() != TIRO_ERROR_ALLOC)
                fail("load-std", err.name() + " " + err.details());
            else if (err.ok()) {
                tiro_vm_load_std(vm, err);
                if (err.code() != TIRO_ERROR_MODULE_EXISTS && err.code() != TIRO_ERROR_ALLOC)
                    fail("load-std", "loaded twice: " + err.name());
            }
        }
        tiro_vm_free(vm);
    }
    std::set<std::string> names;
    for (int e = 0; e < 1024; ++e) {
        ++calls;
        const char *n = tiro_errc_name(tiro_errc_t(e)), *m = tiro_errc_message(tiro_errc_t(e));
        if (!n || !m || !*n || !*m)
            fail("errc", "no name or message for code " + std::to_string(e));
        else if ((e <= 10 || e == 1000) && !names.insert(n).second)
            fail("errc", "two codes share the name " + std::string(n));
    }
    names.clear();
    for (int k = 0; k < 1024; ++k) {
        const char* n = tiro_kind_str(tiro_kind_t(k));
        if (!n || !*n)
            fail("kind-str", "no name for kind " + std::to_string(k));
        else if ((k <= TIRO_KIND_NATIVE || k == TIRO_KIND_INTERNAL) && !names.insert(n).second)
            fail("kind-str", "two kinds share the name " + std::string(n));
    }
    for (int k = 0; k < 4; ++k)
        if (!tiro_severity_str(tiro_severity_t(k)))
            fail("severity", "no name");
    json r;
    r["bad"] = bad;
    r["calls"] = calls;
    json o = json::object();
    for (auto& [k, v] : outcomes)
        o[k] = v;
    r["outcomes"] = o;
    return r;
}

json run_case(const json& c) {
    const auto kind = c.value("kind", "values");
    if (kind == "compiler")
        return run_compiler(c);
    if (kind == "settings")
        return run_settings(c);
    return run_values(c);
}

} // namespace

int main(int argc, char** argv) {
    return batch::main_loop(argc, argv, run_case);
}
