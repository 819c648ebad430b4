// C++ interface driver (C27): a random walk over include/tiropp on two machines, checked against a model of every value,
// of the validity of every handle and of the ownership of every C++ object that was passed in.
// Case: {"id","seed","ops","gc":[mode,n,seed],"fault":rate,"checks":bool}
#include "batch.hpp"
#include "vphooks.hpp"

#include "tiropp/api.hpp"
#include "tiropp/native_type.hpp"

#include <any>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>

using batch::json;
using tiro::value_kind;

namespace {

#ifdef TIRO_HANDLE_CHECKS
constexpr bool checked = true;
#else
constexpr bool checked = false;
#endif

json bad;
std::map<std::string, long> counts;
uint64_t trail;

void note(const std::string& what) {
    ++counts[what];
    for (char ch : what)
        trail = (trail ^ uint8_t(ch)) * 1099511628211ull;
}

void fail(const std::string& key, const std::string& detail) {
    if (bad.size() < 5)
        bad.push_back({key, detail});
}

#define EXPECT(cond, key, detail) \
    do {                          \
        if (!(cond))              \
            fail(key, detail);    \
    } while (0)

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed)
        : s(seed * 0x9E3779B97F4A7C15ull + 0x51ed270b) { next(); next(); }
    uint64_t next() {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s * 2685821657736338717ull >> 11;
    }
    size_t below(size_t n) { return n ? size_t(next() % n) : 0; }
    bool one_in(size_t n) { return below(n) == 0; }
};

/// Every instance is accounted for: what it carries must be destroyed exactly once.
struct Counted {
    static std::map<int, int> alive; // id -> number of instances which carry it
    static long instances, made;
    static int next_id;
    int id;
    Counted()
        : id(++next_id) {
        ++instances;
        ++made;
        ++alive[id];
    }
    Counted(const Counted& o)
        : id(o.id) {
        ++instances;
        if (id)
            ++alive[id];
    }
    Counted(Counted&& o) noexcept
        : id(std::exchange(o.id, 0)) { ++instances; }
    Counted& operator=(const Counted&) = delete;
    ~Counted() {
        --instances;
        if (id && --alive[id] == 0)
            alive.erase(id);
        id = -1;
    }
};
std::map<int, int> Counted::alive;
long Counted::instances, Counted::made;
int Counted::next_id;

struct Small {
    Counted c;
    int64_t value;
};
struct Big {
    char pad[700];
    std::string text;
    Counted c;
};
struct alignas(64) Aligned {
    Counted c;
};

// ---- model of values

struct Value;
using P = std::shared_ptr<Value>;

struct Value {
    value_kind kind = value_kind::null;
    int64_t i = 0;
    double f = 0;
    std::string s;                // string, message, name of a type
    std::vector<P> e;             // tuple, array
    std::map<std::string, P> r;   // record
    bool ok = false;              // result
    P inner;                      // result
    std::vector<unsigned char> b; // buffer
    int native = -1;              // which native type
    int carries = 0;              // id of the instance
    bool destroyed = false;
    int fn = -1;
    P closure;
    std::vector<std::string> keys; // schema
    bool prefix = false;           // message is a prefix
};

P mk(value_kind k) {
    auto p = std::make_shared<Value>();
    p->kind = k;
    return p;
}
P null_value() { return mk(value_kind::null); }
P integer_value(int64_t i) {
    P p = mk(value_kind::integer);
    p->i = i;
    return p;
}
P string_value(std::string s) {
    P p = mk(value_kind::string);
    p->s = std::move(s);
    return p;
}
P result_value(bool ok, P v) {
    P p = mk(value_kind::result);
    p->ok = ok;
    p->inner = std::move(v);
    return p;
}
P panic_value(std::string msg, bool prefix = false) {
    P x = mk(value_kind::exception);
    x->s = std::move(msg);
    x->prefix = prefix;
    return result_value(false, x);
}

struct Slot {
    tiro::handle h;
    P v; // nullptr: invalid
};

struct Machine;

struct Pending { // a call in progress
    P expect;    // nullptr: must not complete
    int calls = 0;
};

struct Token {
    tiro::async_token token;
    std::shared_ptr<Pending> p;
    int used = 0;
};

struct World { // lives in the userdata of the machine
    Machine* m;
    std::deque<Token> tokens;
    Counted c;
};

struct Walk;

struct Machine {
    std::string expected_out, out;
    std::unique_ptr<tiro::vm> v;
    std::vector<Slot> slots;
    std::vector<std::shared_ptr<Pending>> pending;
    std::vector<std::shared_ptr<Pending>*> starting; // calls in the order of their start
    std::deque<std::shared_ptr<Pending>> token_calls; // async calls which will ask for a token, in the order of their start
    int modules = 0;
};

World& world(tiro::vm& v) { return *std::any_cast<std::shared_ptr<World>&>(v.userdata()); }

std::string hex(const std::string& s) {
    std::string r;
    char b[4];
    for (unsigned char ch : s.substr(0, 40)) {
        std::snprintf(b, sizeof b, "%02x", ch);
        r += b;
    }
    return r;
}

tiro::native_type<Small>* type_small;
tiro::native_type<Big>* type_big;

void verify(const tiro::handle& h, const P& v, int depth, const char* where) {
    const std::string w = where;
    struct NoFaults { // (observing must not fail)
        vp::FaultControl saved = vp::fault;
        NoFaults() { vp::fault = vp::FaultControl(); }
        ~NoFaults() { vp::fault = saved; }
    } no_faults;
    if (!v) {
        EXPECT(!h.valid(), "valid:" + w, "a handle that was moved from is still valid");
        return;
    }
    if (!h.valid()) {
        fail("invalid:" + w, "the handle is invalid but should hold a " + std::string(tiro::to_string(v->kind)));
        return;
    }
    value_kind k = h.kind();
    if (k != v->kind) {
        fail("kind:" + w, std::string("expected ") + tiro::to_string(v->kind) + " got " + tiro::to_string(k));
        return;
    }
    switch (k) {
    case value_kind::boolean: EXPECT(h.as<tiro::boolean>().value() == v->ok, "boolean:" + w, ""); break;
    case value_kind::integer: EXPECT(h.as<tiro::integer>().value() == v->i, "integer:" + w, std::to_string(v->i)); break;
    case value_kind::float_: EXPECT(h.as<tiro::float_>().value() == v->f, "float:" + w, std::to_string(v->f)); break;
    case value_kind::string: {
        auto s = h.as<tiro::string>();
        EXPECT(s.value() == v->s && s.view() == v->s, "string:" + w, hex(v->s) + " / " + hex(s.value()));
        break;
    }
    case value_kind::buffer: {
        auto b = h.as<tiro::buffer>();
        EXPECT(b.size() == v->b.size() && (!b.size() || !memcmp(b.data(), v->b.data(), b.size())), "buffer:" + w, "");
        EXPECT(b.is_pinned(), "buffer_pinned:" + w, "");
        break;
    }
    case value_kind::tuple: {
        auto t = h.as<tiro::tuple>();
        EXPECT(t.size() == v->e.size(), "tuple_size:" + w, std::to_string(v->e.size()) + " / " + std::to_string(t.size()));
        if (depth > 0 && t.size() == v->e.size())
            for (size_t i = 0; i < v->e.size() && i < 8; ++i)
                verify(t.get(i), v->e[i], depth - 1, where);
        break;
    }
    case value_kind::array: {
        auto t = h.as<tiro::array>();
        EXPECT(t.size() == v->e.size(), "array_size:" + w, std::to_string(v->e.size()) + " / " + std::to_string(t.size()));
        if (depth > 0 && t.size() == v->e.size())
            for (size_t i = 0; i < v->e.size() && i < 8; ++i)
                verify(t.get(i), v->e[i], depth - 1, where);
        break;
    }
    case value_kind::record: {
        auto r = h.as<tiro::record>();
        auto keys = r.keys();
        std::set<std::string> a, b;
        for (size_t i = 0; i < keys.size(); ++i)
            a.insert(keys.get(i).as<tiro::string>().value());
        for (auto& [key, x] : v->r)
            b.insert(key);
        EXPECT(a == b && keys.size() == b.size(), "record_keys:" + w, "");
        if (depth > 0 && a == b)
            for (auto& [key, x] : v->r) {
                auto ks = tiro::make_string(tiro::vm::unsafe_from_raw_vm(h.raw_vm()), key);
                verify(r.get(ks), x, depth - 1, where);
            }
        break;
    }
    case value_kind::result: {
        auto r = h.as<tiro::result>();
        EXPECT(r.is_success() == v->ok && r.is_error() == !v->ok, "result:" + w,
            std::string("expected ") + (v->ok ? "success" : "error")
                + (r.is_error() && r.error().is<tiro::exception>() ? ": " + r.error().as<tiro::exception>().message().value() : ""));
        if (depth > 0 && r.is_success() == v->ok)
            verify(v->ok ? r.value() : r.error(), v->inner, depth - 1, where);
        try {
            if (v->ok)
                r.error();
            else
                r.value();
            fail("result_access:" + w, "no error for the wrong accessor");
        } catch (const tiro::api_error& e) {
            EXPECT(e.code() == tiro::api_errc::bad_state || e.code() == tiro::api_errc::alloc, "result_access_code:" + w, e.what());
        }
        break;
    }
    case value_kind::exception: {
        auto x = h.as<tiro::exception>();
        std::string m = x.message().value();
        EXPECT(v->prefix ? m.compare(0, v->s.size(), v->s) == 0 : m == v->s, "message:" + w, "expected " + v->s + " got " + m);
        value_kind t = x.trace().kind();
        EXPECT(t == value_kind::null || t == value_kind::string, "trace:" + w, tiro::to_string(t));
        break;
    }
    case value_kind::native: {
        auto n = h.as<tiro::native>();
        if (v->native == 0) {
            EXPECT(type_small->is_instance(n) && !type_big->is_instance(n), "native_type:" + w, "");
            EXPECT(type_small->is_destroyed(n) == v->destroyed, "native_destroyed:" + w, "");
            try {
                Small* s = type_small->access(n);
                EXPECT(!v->destroyed, "native_access:" + w, "destroyed instance is accessible");
                EXPECT(s->value == v->i && s->c.id == v->carries, "native_value:" + w, std::to_string(s->value));
            } catch (const tiro::generic_error&) {
                EXPECT(v->destroyed, "native_access:" + w, "");
            }
        } else {
            EXPECT(type_big->is_instance(n) && !type_small->is_instance(n), "native_type:" + w, "");
            EXPECT(type_big->is_destroyed(n) == v->destroyed, "native_destroyed:" + w, "");
            if (!v->destroyed) {
                Big* s = type_big->access(n);
                EXPECT(s->text == v->s && s->c.id == v->carries && reinterpret_cast<uintptr_t>(s) % alignof(Big) == 0, "native_value:" + w, s->text);
            }
            try {
                type_small->access(n);
                fail("native_confusion:" + w, "");
            } catch (const tiro::generic_error&) {
            }
        }
        break;
    }
    case value_kind::type: EXPECT(h.as<tiro::type>().name().value() == v->s, "type_name:" + w, v->s); break;
    default: break;
    }
}

// ---- functions for the machine

struct Custom : std::exception {
    std::string m;
    explicit Custom(std::string s)
        : m(std::move(s)) {}
    const char* what() const noexcept override { return m.c_str(); }
};

tiro::handle s_args(tiro::vm& v, tiro::sync_frame& f) {
    Counted guard;
    auto t = tiro::make_tuple(v, f.arg_count() + 1);
    t.set(0, f.closure());
    for (size_t i = 0; i < f.arg_count(); ++i)
        t.set(i + 1, f.arg(i));
    return std::move(t);
}
tiro::handle s_throw(tiro::vm&, tiro::sync_frame& f) {
    Counted guard;
    throw Custom(f.arg(0).to_string().value());
}
tiro::handle s_throw_int(tiro::vm&, tiro::sync_frame&) {
    Counted guard;
    throw 42;
}
tiro::handle s_index(tiro::vm&, tiro::sync_frame& f) {
    Counted guard;
    return f.arg(f.arg_count() + 7);
}
tiro::handle s_cast(tiro::vm&, tiro::sync_frame& f) {
    Counted guard;
    return f.closure().as<tiro::coroutine>().result();
}
void a_now(tiro::vm&, tiro::async_frame& f) { f.return_value(f.arg(0)); }
void a_panic(tiro::vm&, tiro::async_frame& f) { f.panic_msg("no " + f.arg(0).to_string().value()); }
void a_throw(tiro::vm&, tiro::async_frame& f) {
    Counted guard;
    throw Custom(f.arg(0).to_string().value());
}
void a_throw_int(tiro::vm&, tiro::async_frame&) { throw Counted(); }
void a_token(tiro::vm& v, tiro::async_frame& f) {
    World& w = world(v);
    auto p = w.m->token_calls.front();
    w.m->token_calls.pop_front();
    w.tokens.push_back({f.token(), p});
    f.yield();
}
void r_sum(tiro::vm& v, tiro::resumable_frame& f) { // calls arg 0 (a function without arguments) twice and returns both results
    Counted guard;
    switch (f.state()) {
    case tiro::resumable_frame::start:
        f.set_local(0, f.closure());
        f.invoke(1, f.arg(0).as<tiro::function>(), tiro::make_tuple(v, 1));
        return;
    case 1: {
        f.set_local(1, f.invoke_return());
        auto t = tiro::make_tuple(v, 1);
        t.set(0, f.local(0));
        f.invoke(2, f.arg(0).as<tiro::function>(), t);
        return;
    }
    case 2: {
        auto t = tiro::make_tuple(v, 2);
        t.set(0, f.local(1));
        t.set(1, f.invoke_return());
        f.return_value(t);
        return;
    }
    case tiro::resumable_frame::end: ++counts["resumable_end"]; return;
    default: fail("resumable_state", std::to_string(f.state()));
    }
}
void r_throw(tiro::vm&, tiro::resumable_frame& f) {
    if (f.state() == tiro::resumable_frame::end)
        return;
    Counted guard;
    if (f.local_count() != 2)
        throw 1;
    throw Custom(f.arg(0).to_string().value());
}
void r_throw_int(tiro::vm&, tiro::resumable_frame& f) {
    if (f.state() == tiro::resumable_frame::end)
        return;
    throw Counted();
}

constexpr int function_count = 13;

tiro::function make_fn(tiro::vm& v, int k, const tiro::handle& closure) {
    auto name = tiro::make_string(v, "fn" + std::to_string(k));
    switch (k) {
    case 0: return tiro::make_sync_function<s_args>(v, name, 1, closure);
    case 1: return tiro::make_sync_function<s_throw>(v, name, 1, closure);
    case 2: return tiro::make_sync_function<s_throw_int>(v, name, 1, closure);
    case 3: return tiro::make_sync_function<s_index>(v, name, 1, closure);
    case 4: return tiro::make_sync_function<s_cast>(v, name, 1, closure);
    case 5: return tiro::make_async_function<a_now>(v, name, 1, closure);
    case 6: return tiro::make_async_function<a_panic>(v, name, 1, closure);
    case 7: return tiro::make_async_function<a_throw>(v, name, 1, closure);
    case 8: return tiro::make_async_function<a_throw_int>(v, name, 1, closure);
    case 9: return tiro::make_async_function<a_token>(v, name, 1, closure);
    case 10: return tiro::make_resumable_function<r_sum>(v, name, 1, 2, closure);
    case 11: return tiro::make_resumable_function<r_throw>(v, name, 1, 2, closure);
    default: return tiro::make_resumable_function<r_throw_int>(v, name, 1, 2, closure);
    }
}

/// What a call of function k with the given argument returns. The rendering of the argument is only known for scalars.
P outcome(int k, const P& closure, const P& arg) {
    const std::string text = arg->kind == value_kind::integer ? std::to_string(arg->i) : arg->kind == value_kind::string ? arg->s : "";
    const bool known = arg->kind == value_kind::integer || arg->kind == value_kind::string;
    auto cstr = [&](const std::string& s) { return s.substr(0, s.find('\0')); };
    switch (k) {
    case 0: {
        P t = mk(value_kind::tuple);
        t->e = {closure, arg};
        return result_value(true, t);
    }
    case 1:
    case 7:
    case 11: return panic_value(known ? cstr(text) : "", !known);
    case 2:
    case 8:
    case 12: return panic_value("unknown exception");
    case 3: return panic_value("tiro::error: ", true);
    case 4: return panic_value("Bad handle cast (expected a value of kind COROUTINE but encountered a ", true);
    case 5: return result_value(true, arg);
    case 6: return panic_value("no " + text, !known);
    default: return nullptr;
    }
}

// ---- the walk

struct Walk {
    Rng r;
    std::vector<std::unique_ptr<Machine>> ms;
    uint64_t fault_rate;

    explicit Walk(uint64_t seed)
        : r(seed) {}

    Machine& machine() { return *ms[r.below(ms.size())]; }

    std::string random_text() {
        std::string s;
        for (size_t n = r.one_in(6) ? r.below(300) : r.below(9); n > 0; --n)
            s += r.one_in(20) ? '\0' : char('a' + r.below(26));
        return s;
    }

    size_t pick(Machine& m) { return r.below(m.slots.size()); }

    std::optional<size_t> find(Machine& m, value_kind k) {
        std::vector<size_t> c;
        for (size_t i = 0; i < m.slots.size(); ++i)
            if (m.slots[i].v && m.slots[i].v->kind == k)
                c.push_back(i);
        if (c.empty())
            return {};
        return c[r.below(c.size())];
    }

    size_t valid(Machine& m) {
        for (int i = 0; i < 20; ++i) {
            size_t k = pick(m);
            if (m.slots[k].v)
                return k;
        }
        put(m, tiro::make_null(*m.v), null_value());
        return m.slots.size() - 1;
    }

    void put(Machine& m, tiro::handle h, P v) {
        if (m.slots.size() < 24 || r.one_in(4)) {
            m.slots.push_back({std::move(h), std::move(v)});
            if (m.slots.size() > 40)
                m.slots.erase(m.slots.begin() + long(r.below(20)));
            return;
        }
        Slot& s = m.slots[pick(m)];
        s.h = std::move(h);
        s.v = std::move(v);
        EXPECT(!h.valid(), "moved_from", "the source of a move is still valid");
    }

    template<typename F>
    void expect_api_error(tiro::api_errc code, const char* what, F&& f) {
        try {
            f();
            fail(std::string("no_error:") + what, "");
        } catch (const tiro::api_error& e) {
            if (e.code() == tiro::api_errc::alloc && vp::mon.faults)
                return;
            EXPECT(e.code() == code, std::string("code:") + what, e.what());
            const std::string w = e.what();
            EXPECT(w.find(e.name()) != w.npos && w.find(e.message()) != w.npos && w.find(e.details()) != w.npos && *e.name() && *e.message(),
                std::string("error_text:") + what, w);
            EXPECT(std::string(e.name()) == tiro::name(code) && std::string(e.message()) == tiro::message(code),
                std::string("error_name:") + what, w);
            note(std::string("error:") + e.name());
        }
    }

    void make(Machine& m) {
        tiro::vm& v = *m.v;
        const size_t k = r.below(15);
        note("make" + std::to_string(k));
        switch (k) {
        case 0: put(m, tiro::make_null(v), null_value()); break;
        case 1: {
            P p = mk(value_kind::boolean);
            p->ok = r.one_in(2);
            put(m, tiro::make_boolean(v, p->ok), p);
            break;
        }
        case 2: {
            int64_t x = r.one_in(3) ? int64_t(r.next() * 0x9E3779B97F4A7C15ull) : int64_t(r.below(100)) - 50;
            put(m, tiro::make_integer(v, x), integer_value(x));
            break;
        }
        case 3: {
            P p = mk(value_kind::float_);
            p->f = double(r.next()) / 7 - 1000;
            put(m, tiro::make_float(v, p->f), p);
            break;
        }
        case 4:
        case 5: {
            P p = string_value(random_text());
            put(m, tiro::make_string(v, p->s), p);
            break;
        }
        case 6: {
            P p = mk(value_kind::buffer);
            p->b.resize(r.one_in(5) ? 3000 + r.below(100000) : r.below(50));
            auto b = tiro::make_buffer(v, p->b.size());
            for (size_t i = 0; i < b.size(); ++i) {
                EXPECT(b.data()[i] == 0, "buffer_zero", "");
                b.data()[i] = p->b[i] = uint8_t(i * 7 + p->b.size());
            }
            put(m, b, p);
            break;
        }
        case 7: {
            P p = mk(value_kind::tuple);
            size_t n = r.below(5);
            auto t = tiro::make_tuple(v, n);
            for (size_t i = 0; i < n; ++i)
                p->e.push_back(null_value());
            put(m, std::move(t), p);
            break;
        }
        case 8: {
            P p = mk(value_kind::array);
            put(m, tiro::make_array(v, r.below(10)), p);
            break;
        }
        case 9: {
            P p = mk(value_kind::record);
            auto keys = tiro::make_array(v, 0);
            for (size_t n = r.below(4); n > 0; --n) {
                std::string key = "k" + std::to_string(n);
                keys.push(tiro::make_string(v, key));
                p->r[key] = null_value();
            }
            auto schema = tiro::make_record_schema(v, keys);
            EXPECT(schema.kind() == value_kind::record_schema, "schema_kind", "");
            put(m, tiro::make_record(v, schema), p);
            break;
        }
        case 10: {
            size_t i = valid(m);
            bool ok = r.one_in(2);
            P p = result_value(ok, m.slots[i].v);
            put(m, ok ? tiro::make_success(v, m.slots[i].h) : tiro::make_error(v, m.slots[i].h), p);
            break;
        }
        case 11:
        case 12: {
            P p = mk(value_kind::native);
            if (k == 11) {
                p->native = 0;
                p->i = int64_t(r.below(1000));
                Small s{Counted(), p->i};
                p->carries = s.c.id;
                try {
                    auto n = type_small->make(v, std::move(s));
                    EXPECT(s.c.id == 0, "native_moved", "");
                    put(m, std::move(n), p);
                } catch (const tiro::api_error&) {
                    EXPECT(s.c.id == p->carries, "native_moved_on_failure", "");
                    throw;
                }
            } else {
                p->native = 1;
                p->s = random_text();
                Big b;
                b.text = p->s;
                p->carries = b.c.id;
                put(m, type_big->make(v, std::move(b)), p);
            }
            note("native");
            break;
        }
        case 13: {
            size_t i = valid(m);
            P p = mk(value_kind::function);
            p->fn = int(r.below(function_count));
            p->closure = m.slots[i].v;
            put(m, make_fn(v, p->fn, m.slots[i].h), p);
            break;
        }
        default: {
            tiro::native_type<Aligned> t("Aligned");
            Aligned a;
            const int id = a.c.id;
            expect_api_error(tiro::api_errc::alloc, "alignment", [&] { t.make(v, std::move(a)); });
            EXPECT(a.c.id == id, "native_moved_on_failure", "");
        }
        }
    }

    /// Copies and moves between slots, also from and to invalid handles and other machines.
    void transfer(Machine& m) {
        size_t a = pick(m), b = pick(m);
        const size_t k = r.below(9);
        note("transfer" + std::to_string(k) + (m.slots[a].v ? "v" : "i") + (m.slots[b].v ? "v" : "i") + (a == b ? "s" : ""));
        switch (k) {
        case 0: m.slots[a].h = m.slots[b].h, m.slots[a].v = m.slots[b].v; break;
        case 1: {
            Slot& x = m.slots[a];
            Slot& y = m.slots[b];
            tiro::handle& src = y.h;
            x.h = std::move(src);
            P v = y.v;
            if (a != b)
                y.v = nullptr;
            x.v = v;
            break;
        }
        case 2: {
            tiro::handle c(m.slots[a].h);
            verify(c, m.slots[a].v, 1, "copy");
            if (m.slots[a].v)
                EXPECT(tiro::same(*m.v, c, m.slots[a].h), "same_copy", "");
            break;
        }
        case 3: {
            tiro::handle c(std::move(m.slots[a].h));
            verify(c, m.slots[a].v, 1, "move");
            verify(m.slots[a].h, nullptr, 0, "moved");
            if (r.one_in(2))
                m.slots[a].h = std::move(c);
            else
                m.slots[a].v = nullptr;
            break;
        }
        case 4: { // another machine
            Machine& o = machine();
            size_t c = pick(o);
            Slot tmp{o.slots[c].h, o.slots[c].v};
            if (&o == &m) {
                m.slots[a].h = tmp.h;
                m.slots[a].v = tmp.v;
                break;
            }
            tiro::handle x(m.slots[a].h);
            x = o.slots[c].h;
            EXPECT(x.raw_vm() == o.v->raw_vm(), "assigned_vm", "");
            verify(x, o.slots[c].v, 1, "assign_other_machine");
            tiro::handle y(m.slots[a].h);
            y = std::move(x);
            EXPECT(y.raw_vm() == o.v->raw_vm() && !x.valid(), "moved_vm", "");
            verify(y, o.slots[c].v, 1, "move_other_machine");
            x = m.slots[a].h;
            verify(x, m.slots[a].v, 1, "assign_invalid_other_machine");
            if (checked && m.slots[a].v && o.slots[c].v) {
                try {
                    tiro::same(*m.v, m.slots[a].h, o.slots[c].h);
                    fail("mixed_machines", "values of two machines were compared");
                } catch (const tiro::bad_handle_check&) {
                    note("mixed");
                }
            }
            break;
        }
        case 5:
            if (m.slots[a].v && m.slots[b].v) {
                bool s = tiro::same(*m.v, m.slots[a].h, m.slots[b].h);
                if (m.slots[a].v == m.slots[b].v)
                    EXPECT(s, "same", tiro::to_string(m.slots[a].v->kind));
                else if (m.slots[a].v->kind != m.slots[b].v->kind || m.slots[a].v->kind == value_kind::array
                         || m.slots[a].v->kind == value_kind::native || m.slots[a].v->kind == value_kind::record)
                    EXPECT(!s, "not_same", tiro::to_string(m.slots[a].v->kind));
            }
            break;
        case 6: cast<tiro::null>(m, a), cast<tiro::boolean>(m, a), cast<tiro::integer>(m, a); break;
        case 7: cast<tiro::string>(m, a), cast<tiro::tuple>(m, a), cast<tiro::array>(m, a), cast<tiro::record>(m, a), cast<tiro::native>(m, a); break;
        default:
            cast<tiro::result>(m, a), cast<tiro::function>(m, a), cast<tiro::coroutine>(m, a), cast<tiro::exception>(m, a),
                cast<tiro::float_>(m, a), cast<tiro::module>(m, a), cast<tiro::type>(m, a), cast<tiro::buffer>(m, a), cast<tiro::record_schema>(m, a);
        }
    }

    template<typename T>
    void cast(Machine& m, size_t a) {
        Slot& s = m.slots[a];
        const value_kind want = tiro::detail::kind_of<T>();
        const bool move = r.one_in(3);
        const bool fits = s.v && s.v->kind == want;
        try {
            EXPECT(!(s.v || !checked) || s.h.template is<T>() == fits, "is", tiro::to_string(want));
            tiro::handle copy(s.h);
            T t = move ? std::move(copy).template as<T>() : copy.template as<T>();
            EXPECT(fits, "cast", std::string(tiro::to_string(want)) + " from " + (s.v ? tiro::to_string(s.v->kind) : "invalid"));
            EXPECT(copy.valid() == !move, "cast_moves", "");
            verify(t, s.v, 1, "cast");
            T u(t), w(std::move(t));
            t = u;
            verify(t, s.v, 1, "cast_assigned");
            u = std::move(w);
            verify(u, s.v, 1, "cast_moved");
            verify(w, nullptr, 1, "cast_moved");
            note("cast");
        } catch (const tiro::bad_handle_cast& e) {
            EXPECT(!fits, "bad_cast", e.what());
            EXPECT(std::string(e.details()).find(tiro::to_string(want)) != std::string::npos && std::string(e.what()).find(e.details()) != std::string::npos,
                "bad_cast_text", e.what());
            note("bad_cast");
        } catch (const tiro::bad_handle_check&) {
            EXPECT(!s.v && checked, "bad_check", "");
            note("bad_check");
        }
        verify(s.h, s.v, 0, "after_cast");
    }

    void containers(Machine& m) {
        const size_t k = r.below(9);
        size_t x = valid(m);
        note("container" + std::to_string(k));
        auto with = [&](value_kind kind, auto&& f) {
            if (auto i = find(m, kind))
                f(m.slots[*i].h, m.slots[*i].v);
        };
        switch (k) {
        case 0:
            with(value_kind::tuple, [&](tiro::handle& h, P v) {
                size_t i = r.below(v->e.size() + 2);
                auto t = h.as<tiro::tuple>();
                if (i < v->e.size()) {
                    t.set(i, m.slots[x].h);
                    v->e[i] = m.slots[x].v;
                } else
                    expect_api_error(tiro::api_errc::out_of_bounds, "tuple_set", [&] { t.set(i, m.slots[x].h); });
            });
            break;
        case 1:
            with(value_kind::tuple, [&](tiro::handle& h, P v) {
                size_t i = r.below(v->e.size() + 2);
                auto t = h.as<tiro::tuple>();
                if (i < v->e.size())
                    put(m, t.get(i), v->e[i]);
                else
                    expect_api_error(tiro::api_errc::out_of_bounds, "tuple_get", [&] { t.get(i); });
            });
            break;
        case 2:
        case 3:
            with(value_kind::array, [&](tiro::handle& h, P v) {
                auto t = h.as<tiro::array>();
                for (size_t n = r.one_in(4) ? r.below(40) : 1; n > 0; --n) {
                    t.push(m.slots[x].h);
                    v->e.push_back(m.slots[x].v);
                }
            });
            break;
        case 4:
            with(value_kind::array, [&](tiro::handle& h, P v) {
                size_t i = r.below(v->e.size() + 2);
                auto t = h.as<tiro::array>();
                if (i < v->e.size()) {
                    t.set(i, m.slots[x].h);
                    v->e[i] = m.slots[x].v;
                    put(m, t.get(i), v->e[i]);
                } else {
                    expect_api_error(tiro::api_errc::out_of_bounds, "array_set", [&] { t.set(i, m.slots[x].h); });
                    expect_api_error(tiro::api_errc::out_of_bounds, "array_get", [&] { t.get(i); });
                }
            });
            break;
        case 5:
            with(value_kind::array, [&](tiro::handle& h, P v) {
                auto t = h.as<tiro::array>();
                if (v->e.empty())
                    expect_api_error(tiro::api_errc::out_of_bounds, "array_pop", [&] { t.pop(); });
                else if (r.one_in(5)) {
                    t.clear();
                    v->e.clear();
                } else {
                    t.pop();
                    v->e.pop_back();
                }
            });
            break;
        case 6:
        case 7:
            with(value_kind::record, [&](tiro::handle& h, P v) {
                auto t = h.as<tiro::record>();
                std::string key = "k" + std::to_string(r.below(5));
                auto ks = tiro::make_string(*m.v, key);
                if (v->r.count(key)) {
                    if (k == 6) {
                        t.set(ks, m.slots[x].h);
                        v->r[key] = m.slots[x].v;
                    } else
                        put(m, t.get(ks), v->r[key]);
                } else {
                    expect_api_error(tiro::api_errc::bad_key, "record_get", [&] { t.get(ks); });
                    expect_api_error(tiro::api_errc::bad_key, "record_set", [&] { t.set(ks, m.slots[x].h); });
                }
            });
            break;
        default:
            with(value_kind::native, [&](tiro::handle& h, P v) {
                auto n = h.as<tiro::native>();
                if (v->native == 0) {
                    if (r.one_in(3)) {
                        type_small->destroy(n);
                        EXPECT(v->destroyed || !Counted::alive.count(v->carries), "destroy", "instance is still alive");
                        v->destroyed = true;
                    } else if (!v->destroyed)
                        v->i = ++type_small->access(n)->value;
                } else if (r.one_in(3)) {
                    type_big->destroy(n);
                    v->destroyed = true;
                }
            });
        }
    }

    struct Callback {
        Counted c;
        std::shared_ptr<Pending> p;
        std::shared_ptr<tiro::handle> coro;
        void operator()(tiro::vm& v, const tiro::coroutine& co) {
            ++p->calls;
            EXPECT(p->calls == 1, "callback_twice", "");
            EXPECT(c.id > 0, "callback_gone", "");
            if (!p->expect) {
                fail("callback_early", "the call completed before its token was used");
                return;
            }
            EXPECT(co.started() && co.completed(), "callback_state", "");
            EXPECT(world(v).c.id > 0, "userdata", "");
            if (coro && coro->valid())
                EXPECT(tiro::same(v, *coro, co), "callback_coroutine", "");
            verify(co.result(), p->expect, 3, "call");
            note("completed");
        }
    };

    /// Starts a call of a random function.
    void call(Machine& m) {
        auto fi = find(m, value_kind::function);
        if (!fi)
            return;
        tiro::function fn = m.slots[*fi].h.as<tiro::function>();
        P f = m.slots[*fi].v;
        int k = f->fn;
        P arg, expect;
        tiro::handle ah(m.v->raw_vm());
        if (k == 10) { // needs a function: fn0 returns (closure, argument)
            P c = integer_value(int64_t(r.below(99)));
            ah = make_fn(*m.v, 0, tiro::make_integer(*m.v, c->i));
            P t = mk(value_kind::tuple), t1 = mk(value_kind::tuple), t2 = mk(value_kind::tuple);
            t1->e = {c, null_value()};
            t2->e = {c, f->closure};
            t->e = {t1, t2};
            expect = result_value(true, t);
        } else {
            size_t i = valid(m);
            ah = m.slots[i].h;
            arg = m.slots[i].v;
            expect = outcome(k, f->closure, arg);
        }
        auto args = tiro::make_tuple(*m.v, 1);
        args.set(0, ah);
        auto p = std::make_shared<Pending>();
        p->expect = expect;
        note("call" + std::to_string(k));
        if (r.one_in(3)) {
            tiro::run_async(*m.v, fn, args, Callback{Counted(), p, nullptr});
        } else {
            auto co = tiro::make_coroutine(*m.v, fn, args);
            EXPECT(!co.started() && !co.completed(), "fresh_coroutine", "");
            if (r.one_in(3)) { // replaced callback
                Counted old;
                co.set_callback([old = std::move(old)](tiro::vm&, const tiro::coroutine&) { fail("replaced_callback", "invoked"); });
                co.set_callback(Callback{Counted(), p, std::make_shared<tiro::handle>(co)});
                note("replaced"); // (it is destroyed at some later time)
            } else
                co.set_callback(Callback{Counted(), p, std::make_shared<tiro::handle>(co)});
            if (r.one_in(4)) { // a failing registration destroys its callback exactly once and leaves the present one alone
                tiro::coroutine gone(co), other(std::move(gone));
                Counted c;
                const int id = c.id;
                try {
                    gone.set_callback([c = std::move(c)](tiro::vm&, const tiro::coroutine&) { fail("failed_callback", "invoked"); });
                    fail("failed_callback", "no error");
                } catch (const tiro::error&) {
                    note("failed_callback");
                }
                EXPECT(!Counted::alive.count(id), "failed_callback", "not destroyed");
            }
            if (r.one_in(6)) {
                m.pending.push_back(p);
                p->expect = nullptr; // never started
                return;
            }
            co.start();
            expect_api_error(tiro::api_errc::bad_state, "start_twice", [&] { co.start(); });
            expect_api_error(tiro::api_errc::bad_state, "result_early", [&] { co.result(); });
        }
        m.pending.push_back(p);
        if (k == 9)
            m.token_calls.push_back(p);
    }

    void run(Machine& m) {
        note("run");
        const auto before = vp::fault;
        vp::fault.at = 0, vp::fault.rate = 0; // (a call that fails for lack of memory never completes)
        m.v->run_ready();
        vp::fault = before;
        EXPECT(!m.v->has_ready(), "has_ready", "");
        for (auto& p : m.pending)
            EXPECT(p->calls == (p->expect ? 1 : 0), "callback_count", "expected " + std::to_string(p->expect ? 1 : 0) + " got " + std::to_string(p->calls));
        for (size_t i = 0; i < m.pending.size();)
            if (m.pending[i]->calls && m.pending[i].use_count() == 1)
                m.pending.erase(m.pending.begin() + long(i));
            else
                ++i;
        EXPECT(m.out == m.expected_out, "print", "");
    }

    void tokens(Machine& m) {
        World& w = world(*m.v);
        if (w.tokens.empty())
            return;
        const size_t i = r.below(w.tokens.size());
        Token& t = w.tokens[i];
        const size_t k = r.below(4);
        note("token" + std::to_string(k) + (t.used ? "u" : ""));
        size_t x = valid(m);
        if (k == 0 && !t.used) {
            t.token.return_value(m.slots[x].h);
            t.p->expect = result_value(true, m.slots[x].v);
            ++t.used;
        } else if (k == 1 && !t.used) {
            std::string msg = random_text();
            t.token.panic_msg(msg);
            t.p->expect = panic_value(msg);
            ++t.used;
        } else if (t.used && k < 2) {
            try { // (which error is not documented)
                if (k == 0)
                    t.token.return_value(m.slots[x].h);
                else
                    t.token.panic_msg("x");
                fail("token_twice", "no error");
            } catch (const tiro::api_error&) {
                note("token_twice");
            }
        } else if (k == 2) {
            tiro::async_token moved(std::move(t.token));
            t.token = std::move(moved);
            EXPECT(t.token.raw_token() && !moved.raw_token(), "token_move", "");
        } else if (r.one_in(3)) // dropped: never completes unless it was used
            w.tokens.erase(w.tokens.begin() + long(i));
    }

    void compile(Machine& m) {
        const size_t k = r.below(6);
        note("compile" + std::to_string(k));
        std::string name = "m" + std::to_string(++m.modules);
        struct Stop {
            Counted c;
            int n;
        };
        Counted c;
        const int id = c.id;
        int messages = 0;
        {
            tiro::compiler comp(name);
            if (r.one_in(2)) {
                tiro::compiler other("unused");
                other = std::move(comp);
                comp = std::move(other);
            }
            int throw_at = k == 2 ? 1 + int(r.below(2)) : 0;
            if (k != 5 || r.one_in(2))
                comp.set_message_callback([c = std::move(c), &messages, throw_at](const tiro::compiler_message& msg) {
                    ++messages;
                    EXPECT(!msg.text.empty() && msg.file == "f", "message", std::string(msg.text));
                    if (msg.severity == tiro::severity::error)
                        EXPECT(msg.line >= 1 && msg.column >= 1, "message_position", "");
                    if (messages == throw_at)
                        throw Stop{Counted(), messages};
                });
            if (k == 3) {
                comp.set_message_callback(nullptr);
                EXPECT(!Counted::alive.count(id), "message_callback", "not destroyed when it was removed");
            }
            tiro::compiler moved(std::move(comp));
            const bool good = k < 2 || k == 5;
            const int64_t n = int64_t(r.below(1000));
            moved.add_file("f", good ? "import std;\nexport func get(x) { std.print(\"<$x>\"); return (x, " + std::to_string(n) + "); }\n"
                                     : std::string("func f() { return a; }\nfunc g() { return b; }\nfunc h() { return c; }\n"));
            const bool dump = r.one_in(2);
            if (dump)
                moved.request_attachment(tiro::attachment::bytecode);
            try {
                moved.run();
                EXPECT(good, "compile", "a bad source was accepted");
            } catch (const tiro::api_error& e) {
                EXPECT((!good && (e.code() == tiro::api_errc::bad_source)) || (e.code() == tiro::api_errc::alloc && vp::mon.faults), "compile_error", e.what());
                EXPECT(!throw_at, "callback_exception", "the exception of the callback was lost");
            } catch (const Stop& s) {
                EXPECT(throw_at == s.n && messages == throw_at && s.c.id > 0, "callback_exception", "");
                note("callback_exception");
            }
            if (k == 4)
                EXPECT(messages == 3, "messages", std::to_string(messages));
            EXPECT(moved.has_module() == good, "has_module", "");
            expect_api_error(tiro::api_errc::bad_state, "run_twice", [&] { moved.run(); });
            if (dump && good)
                EXPECT(moved.get_attachment(tiro::attachment::bytecode).find("get") != std::string::npos, "attachment", "");
            expect_api_error(tiro::api_errc::bad_state, "attachment_not_requested", [&] { moved.get_attachment(tiro::attachment::cst); });
            if (good) {
                tiro::compiled_module mod = moved.take_module();
                EXPECT(!moved.has_module(), "take_module", "");
                tiro::compiled_module again(std::move(mod));
                expect_api_error(tiro::api_errc::bad_state, "take_twice", [&] { moved.take_module(); });
                m.v->load(again);
                expect_api_error(tiro::api_errc::module_exists, "load_twice", [&] { m.v->load(again); });
                auto fn = tiro::get_export(*m.v, name, "get").as<tiro::function>();
                expect_api_error(tiro::api_errc::export_not_found, "no_export", [&] { tiro::get_export(*m.v, name, "nothing"); });
                expect_api_error(tiro::api_errc::module_not_found, "no_module", [&] { tiro::get_export(*m.v, "nothing", "get"); });
                auto args = tiro::make_tuple(*m.v, 1);
                const int64_t a = int64_t(r.below(100));
                args.set(0, tiro::make_integer(*m.v, a));
                P t = mk(value_kind::tuple);
                t->e = {integer_value(a), integer_value(n)};
                auto p = std::make_shared<Pending>();
                p->expect = result_value(true, t);
                tiro::run_async(*m.v, fn, args, Callback{Counted(), p, nullptr});
                m.expected_out += "<" + std::to_string(a) + ">\n";
                m.pending.push_back(p);
            } else
                expect_api_error(tiro::api_errc::bad_state, "take_none", [&] { moved.take_module(); });
        }
        EXPECT(c.id == id || !Counted::alive.count(id), "message_callback", "not destroyed with its compiler");
    }

    void modules(Machine& m) {
        std::string name = "n" + std::to_string(++m.modules);
        std::vector<std::pair<std::string, tiro::handle>> ex;
        std::map<std::string, P> model;
        for (size_t n = r.below(4); n > 0; --n) {
            size_t i = valid(m);
            ex.emplace_back("x" + std::to_string(n), m.slots[i].h);
            model[ex.back().first] = m.slots[i].v;
        }
        auto mod = tiro::make_module(*m.v, name, ex);
        for (auto& [k, v] : model)
            verify(mod.get_export(k), v, 1, "export");
        expect_api_error(tiro::api_errc::export_not_found, "module_export", [&] { mod.get_export("nothing"); });
        if (r.one_in(2)) {
            tiro::load_module(*m.v, mod);
            for (auto& [k, v] : model)
                verify(tiro::get_export(*m.v, name, k), v, 1, "loaded_export");
            expect_api_error(tiro::api_errc::module_exists, "load_module", [&] { tiro::load_module(*m.v, mod); });
        }
        note("module");
    }

    void info(Machine& m) {
        size_t i = valid(m);
        const Slot& s = m.slots[i];
        if (s.v->kind != value_kind::record_schema && s.v->kind != value_kind::coroutine) {
            auto t = s.h.type_of();
            EXPECT(t.kind() == value_kind::type && !t.name().value().empty(), "type_of", "");
        }
        if (s.v->kind == value_kind::integer)
            EXPECT(s.h.to_string().value() == std::to_string(s.v->i), "to_string", "");
        if (s.v->kind == value_kind::string)
            EXPECT(s.h.to_string().value() == s.v->s, "to_string", "");
        auto c = tiro::make_copy(*m.v, s.h.raw_handle());
        verify(c, s.v, 1, "make_copy");
        EXPECT(c.raw_handle() != s.h.raw_handle(), "make_copy", "");
        note("info");
    }

    void step() {
        Machine& m = machine();
        const size_t k = r.below(20);
        if (fault_rate) {
            vp::fault = vp::FaultControl();
            if (r.one_in(fault_rate))
                vp::fault.at = 1 + r.below(6);
        }
        try {
            if (k < 6)
                make(m);
            else if (k < 10)
                transfer(m);
            else if (k < 13)
                containers(m);
            else if (k < 15)
                call(m);
            else if (k == 15)
                run(m);
            else if (k == 16)
                tokens(m);
            else if (k == 17 && r.one_in(4))
                compile(m);
            else if (k == 18)
                modules(m);
            else
                info(m);
        } catch (const tiro::api_error& e) {
            EXPECT(e.code() == tiro::api_errc::alloc && vp::mon.faults, "unexpected_error", std::to_string(k) + ": " + e.what());
            note("fault");
        } catch (const std::bad_alloc&) {
            EXPECT(vp::mon.faults, "unexpected_bad_alloc", "");
            note("fault");
        } catch (const tiro::error& e) {
            fail("unexpected_exception", std::to_string(k) + ": " + e.message());
        }
        vp::fault = vp::FaultControl();
        size_t i = pick(m);
        verify(m.slots[i].h, m.slots[i].v, 2, "slot");
    }
};

json run_case_cpp(const json& c) {
    bad = json::array();
    counts.clear();
    trail = 1469598103934665603ull;
    vp::mon = vp::HeapMonitor();
    vp::gc = vp::GcControl();
    vp::fault = vp::FaultControl();
    Counted::alive.clear();
    Counted::instances = Counted::made = 0;
    Counted::next_id = 0;
    {
        tiro::native_type<Small> small_("Small");
        tiro::native_type<Small> small(std::move(small_));
        tiro::native_type<Big> big("Big");
        EXPECT(!small_.valid() && small.valid() && small.name() == "Small", "native_type_move", "");
        try {
            small_.name();
            fail("native_type_moved", "");
        } catch (const tiro::generic_error&) {
        }
        type_small = &small;
        type_big = &big;
        Walk w(c["seed"].get<uint64_t>());
        w.fault_rate = c.value("fault", 0);
        for (int i = 0; i < 2; ++i) {
            auto m = std::make_unique<Machine>();
            Machine* mp = m.get();
            tiro::vm_settings st;
            st.page_size = i ? 1 << 16 : 0;
            st.enable_panic_stack_traces = i;
            st.print_stdout = [mp, keep = std::make_shared<Counted>()](std::string_view s) { mp->out += s; };
            m->v = std::make_unique<tiro::vm>(std::move(st));
            auto wo = std::make_shared<World>();
            wo->m = mp;
            m->v->userdata() = wo;
            EXPECT(&tiro::vm::unsafe_from_raw_vm(m->v->raw_vm()) == m->v.get(), "from_raw", "");
            m->v->load_std();
            EXPECT(!i || m->v->page_size() == 1 << 16, "page_size", "");
            w.put(*m, tiro::make_null(*m->v), null_value());
            w.ms.push_back(std::move(m));
        }
        if (c.contains("gc")) {
            vp::gc.mode = c["gc"][0];
            vp::gc.n = c["gc"][1];
            vp::gc.rng ^= c["gc"][2].get<uint64_t>() * 0x9E3779B97F4A7C15ull;
            vp::gc.enabled = true;
        }
        const long ops = c["ops"];
        for (long i = 0; i < ops && bad.empty(); ++i)
            w.step();
        if (bad.empty() && c["seed"].get<uint64_t>() % 2)
            for (auto& m : w.ms)
                w.run(*m);
        long held = 0;
        for (auto& m : w.ms)
            held += long(world(*m->v).tokens.size());
        counts["tokens_at_end"] += held;
        counts["pending_at_end"] += long(w.ms[0]->pending.size() + w.ms[1]->pending.size());
        for (auto& m : w.ms)
            m->slots.clear();
        // the machines are destroyed with values, callbacks, calls in progress and tokens
        w.ms.clear();
        type_small = nullptr;
        type_big = nullptr;
    }
    vp::gc.enabled = false;
    EXPECT(Counted::instances == 0 && Counted::alive.empty(), "leaked_instances",
        std::to_string(Counted::instances) + " instances, " + std::to_string(Counted::alive.size()) + " identities");
    json out;
    out["bad"] = bad;
    out["counts"] = counts;
    out["made"] = Counted::made;
    out["faults"] = vp::mon.faults;
    out["gcs"] = vp::mon.gcs;
    out["checked"] = checked;
    out["trail"] = trail;
    return out;
}

} // namespace

int main(int argc, char** argv) { return batch::main_loop(argc, argv, run_case_cpp); }
