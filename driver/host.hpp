#pragma once
// Shared pieces of the drivers: RAII handles, value serialisation and the `host` module.
#include "tiro/api.h"
#include "vphooks.hpp"

#include <functional>
#include <nlohmann/json.hpp>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <string>
#include <string_view>
#include <vector>

namespace host {

using json = nlohmann::json;

inline tiro_string_t ts(std::string_view s) {
    return tiro_string_t{s.data(), s.size()};
}

/// Bytes are transported as latin-1 text so that arbitrary strings survive JSON.
inline std::string latin1(std::string_view s) {
    std::string r;
    r.reserve(s.size());
    for (unsigned char c : s) {
        if (c < 0x80)
            r += char(c);
        else {
            r += char(0xC0 | (c >> 6));
            r += char(0x80 | (c & 0x3F));
        }
    }
    return r;
}
inline std::string unlatin1(std::string_view s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c < 0x80)
            r += char(c);
        else {
            unsigned char d = s[++i];
            r += char(((c & 3) << 6) | (d & 0x3F));
        }
    }
    return r;
}

/// Collects an error and remembers code, message and details.
struct Err {
    tiro_error_t e = nullptr;
    ~Err() { tiro_error_free(e); }
    operator tiro_error_t*() {
        tiro_error_free(e);
        e = nullptr;
        return &e;
    }
    bool ok() const { return e == nullptr; }
    tiro_errc_t code() const { return e ? tiro_error_errc(e) : TIRO_OK; }
    std::string name() const { return e ? tiro_errc_name(tiro_error_errc(e)) : "TIRO_OK"; }
    std::string details() const { return e ? latin1(tiro_error_details(e)) : ""; }
};

struct H {
    tiro_handle_t h = nullptr;
    explicit H(tiro_vm_t vm) {
        Err err;
        h = tiro_global_new(vm, err);
    }
    ~H() { tiro_global_free(h); }
    H(const H&) = delete;
    operator tiro_handle_t() const { return h; }
};

inline std::string hexdouble(double d) {
    if (std::isnan(d))
        return "nan";
    char b[64];
    std::snprintf(b, sizeof b, "%a", d);
    return b;
}

inline json ser(tiro_vm_t vm, tiro_handle_t v, int depth = 0) {
    if (depth > 24)
        return json::array({"deep"});
    Err err;
    switch (tiro_value_kind(vm, v)) {
    case TIRO_KIND_NULL: return nullptr;
    case TIRO_KIND_BOOLEAN: return tiro_boolean_value(vm, v);
    case TIRO_KIND_INTEGER: return tiro_integer_value(vm, v);
    case TIRO_KIND_FLOAT: return json::array({"f", hexdouble(tiro_float_value(vm, v))});
    case TIRO_KIND_STRING: {
        tiro_string_t s{};
        tiro_string_value(vm, v, &s, err);
        if (!err.ok())
            return json::array({"error", err.name()});
        return latin1({s.data, s.length});
    }
    case TIRO_KIND_TUPLE: {
        json r = json::array({"t"});
        size_t n = tiro_tuple_size(vm, v);
        for (size_t i = 0; i < n; ++i) {
            H e(vm);
            tiro_tuple_get(vm, v, i, e, err);
            r.push_back(err.ok() ? ser(vm, e, depth + 1) : json::array({"error", err.name()}));
        }
        return r;
    }
    case TIRO_KIND_ARRAY: {
        json r = json::array({"a"});
        size_t n = tiro_array_size(vm, v);
        for (size_t i = 0; i < n; ++i) {
            H e(vm);
            tiro_array_get(vm, v, i, e, err);
            r.push_back(err.ok() ? ser(vm, e, depth + 1) : json::array({"error", err.name()}));
        }
        return r;
    }
    case TIRO_KIND_RECORD: {
        json r = json::array({"r"});
        H keys(vm);
        tiro_record_keys(vm, v, keys, err);
        if (!err.ok())
            return json::array({"error", err.name()});
        size_t n = tiro_array_size(vm, keys);
        for (size_t i = 0; i < n; ++i) {
            H k(vm), e(vm);
            tiro_array_get(vm, keys, i, k, err);
            tiro_record_get(vm, v, k, e, err);
            r.push_back(json::array({ser(vm, k, depth + 1),
                err.ok() ? ser(vm, e, depth + 1) : json::array({"error", err.name()})}));
        }
        return r;
    }
    case TIRO_KIND_RESULT: {
        H e(vm);
        if (tiro_result_is_success(vm, v)) {
            tiro_result_value(vm, v, e, err);
            return json::array({"ok", err.ok() ? ser(vm, e, depth + 1) : json(err.name())});
        }
        tiro_result_error(vm, v, e, err);
        return json::array({"err", err.ok() ? ser(vm, e, depth + 1) : json(err.name())});
    }
    case TIRO_KIND_EXCEPTION: {
        H m(vm), t(vm);
        tiro_exception_message(vm, v, m, err);
        json msg = err.ok() ? ser(vm, m, depth + 1) : json(err.name());
        tiro_exception_trace(vm, v, t, err);
        return json::array({"x", msg, err.ok() ? ser(vm, t, depth + 1) : json(err.name())});
    }
    case TIRO_KIND_BUFFER: {
        auto* p = tiro_buffer_data(vm, v);
        size_t n = tiro_buffer_size(vm, v);
        return json::array({"b", latin1({reinterpret_cast<const char*>(p), n})});
    }
    default: {
        auto k = tiro_value_kind(vm, v);
        H s(vm);
        tiro_value_to_string(vm, v, s, err);
        return json::array(
            {"k", tiro_kind_str(k), err.ok() ? ser(vm, s, depth + 1) : json(err.name())});
    }
    }
}

/// JSON -> value. Supports null, bool, int, string, ["f",hex], ["t"..], ["a"..].
inline void deser(tiro_vm_t vm, const json& j, tiro_handle_t out) {
    Err err;
    if (j.is_null())
        tiro_make_null(vm, out);
    else if (j.is_boolean())
        tiro_make_boolean(vm, j.get<bool>(), out, err);
    else if (j.is_number_integer())
        tiro_make_integer(vm, j.get<int64_t>(), out, err);
    else if (j.is_string())
        tiro_make_string(vm, ts(unlatin1(j.get<std::string>())), out, err);
    else if (j.is_array()) {
        auto tag = j[0].get<std::string>();
        if (tag == "f")
            tiro_make_float(vm, std::strtod(j[1].get<std::string>().c_str(), nullptr), out, err);
        else {
            H c(vm), e(vm);
            bool tup = tag == "t";
            tup ? tiro_make_tuple(vm, j.size() - 1, c, err) : tiro_make_array(vm, 0, c, err);
            for (size_t i = 1; i < j.size(); ++i) {
                deser(vm, j[i], e);
                tup ? tiro_tuple_set(vm, c, i - 1, e, err) : tiro_array_push(vm, c, e, err);
            }
            tiro_value_copy(vm, c, out, err);
        }
    }
}

/// Called whenever a native function or callback of the host runs (concurrency checks).
inline thread_local std::function<void()>* on_event = nullptr;

struct Session {
    tiro_vm_t vm = nullptr;
    json events = json::array();
    size_t max_events = 20000;
    struct Pending {
        tiro_async_token_t token;
        int mode;       // 0 return value, 1 panic
        tiro_handle_t value; // owned global
        bool twice = false;  // complete two times
    };
    std::deque<Pending> pending;
    std::vector<long> finalized;
    uint64_t native_created = 0;
    bool force_gc = false;

    void ev(json e) {
        if (on_event)
            (*on_event)();
        if (events.size() < max_events)
            events.push_back(std::move(e));
    }

    static Session* of(tiro_vm_t vm) { return static_cast<Session*>(tiro_vm_userdata(vm)); }

    int order = 0;      // completion order of the host: 0 oldest first, 1 newest first, 2 mixed
    uint64_t completions = 0;
    int started = 0;    // coroutines started by native functions

    bool complete_one() {
        if (pending.empty())
            return false;
        size_t index = order == 1 ? pending.size() - 1 : order == 2 ? (completions * 7 + 3) % pending.size() : 0;
        ++completions;
        Pending p = pending[index];
        pending.erase(pending.begin() + ptrdiff_t(index));
        for (int i = p.twice ? 0 : 1; i < 2; ++i)
            complete(p);
        tiro_async_token_free(p.token);
        tiro_global_free(p.value);
        return true;
    }

    void complete(Pending& p) {
        Err err;
        if (p.mode == 0) {
            tiro_async_token_return_value(p.token, p.value, err);
        } else {
            tiro_string_t s{};
            tiro_string_value(vm, p.value, &s, err);
            std::string copy(s.data ? s.data : "", s.length);
            tiro_async_token_panic_msg(p.token, ts(copy), err);
        }
        if (!err.ok())
            ev({"token_error", err.name(), err.details()});
    }
};

struct NativeData {
    Session* session;
    long id;
    uint64_t check;
};

inline void native_finalizer(void* data, size_t size) {
    NativeData nd;
    std::memcpy(&nd, data, sizeof nd);
    if (size < sizeof nd || nd.check != 0x1234567890abcdefull) {
        std::fprintf(stderr, "VP-MONITOR: finalizer called with corrupted native object\n");
        std::abort();
    }
    nd.check = 0;
    std::memcpy(data, &nd, sizeof nd);
    nd.session->finalized.push_back(nd.id);
}

inline tiro_native_type_t& native_type() {
    static tiro_native_type_t t = {ts("HostObject"), 8, native_finalizer};
    return t;
}

// ---- natives -------------------------------------------------------------------------------

inline void fn_log(tiro_vm_t vm, tiro_sync_frame_t f) {
    auto s = Session::of(vm);
    json e = json::array({"l"});
    size_t n = tiro_sync_frame_arg_count(f);
    for (size_t i = 0; i < n; ++i) {
        H a(vm);
        Err err;
        tiro_sync_frame_arg(f, i, a, err);
        e.push_back(ser(vm, a));
    }
    s->ev(std::move(e));
}
inline void fn_id(tiro_vm_t vm, tiro_sync_frame_t f) {
    H a(vm);
    Err err;
    tiro_sync_frame_arg(f, 0, a, err);
    tiro_sync_frame_return_value(f, a, err);
}
inline void fn_panic(tiro_vm_t vm, tiro_sync_frame_t f) {
    H a(vm);
    Err err;
    tiro_sync_frame_arg(f, 0, a, err);
    tiro_string_t s{};
    tiro_string_value(vm, a, &s, err);
    std::string copy(s.data ? s.data : "", s.length);
    tiro_sync_frame_panic_msg(f, ts(copy), err);
}
inline void fn_sum(tiro_vm_t vm, tiro_sync_frame_t f) {
    uint64_t r = 0; // wraps around
    size_t n = tiro_sync_frame_arg_count(f);
    for (size_t i = 0; i < n; ++i) {
        H a(vm);
        Err err;
        tiro_sync_frame_arg(f, i, a, err);
        r += uint64_t(tiro_integer_value(vm, a)) * uint64_t(i + 1);
    }
    H a(vm);
    Err err;
    tiro_make_integer(vm, int64_t(r), a, err);
    tiro_sync_frame_return_value(f, a, err);
}
/// host.native(id): a native object whose finalisation is recorded.
inline void fn_native(tiro_vm_t vm, tiro_sync_frame_t f) {
    H a(vm), o(vm);
    Err err;
    tiro_sync_frame_arg(f, 0, a, err);
    long id = long(tiro_integer_value(vm, a));
    tiro_sync_frame_arg(f, 1, a, err);
    size_t extra = tiro_sync_frame_arg_count(f) > 1 ? size_t(tiro_integer_value(vm, a)) : 0;
    tiro_make_native(vm, &native_type(), sizeof(NativeData) + extra, o, err);
    if (!err.ok()) {
        tiro_sync_frame_panic_msg(f, ts(err.name()), err);
        return;
    }
    NativeData nd{Session::of(vm), id, 0x1234567890abcdefull};
    std::memcpy(tiro_native_data(vm, o), &nd, sizeof nd);
    Session::of(vm)->native_created++;
    tiro_sync_frame_return_value(f, o, err);
}
/// host.native_id(obj): reads the id back (fails loudly if the object has been finalised).
inline void fn_native_id(tiro_vm_t vm, tiro_sync_frame_t f) {
    H a(vm), r(vm);
    Err err;
    tiro_sync_frame_arg(f, 0, a, err);
    NativeData nd{};
    if (auto* p = tiro_native_data(vm, a))
        std::memcpy(&nd, p, sizeof nd);
    if (nd.check != 0x1234567890abcdefull) {
        std::fprintf(stderr, "VP-MONITOR: reachable native object was finalized or corrupted\n");
        std::abort();
    }
    tiro_make_integer(vm, nd.id, r, err);
    tiro_sync_frame_return_value(f, r, err);
}
/// Forces a collection at the next allocation (which happens here).
inline void vp_force_gc(tiro_vm_t vm) {
    auto saved = vp::gc;
    vp::gc.enabled = true;
    vp::gc.mode = 1;
    vp::gc.n = 1;
    vp::gc.count = 0;
    {
        H a(vm);
        Err err;
        tiro_make_tuple(vm, 1, a, err);
    }
    vp::gc = saved;
}
/// host.gc(): forces a collection.
inline void fn_gc(tiro_vm_t vm, tiro_sync_frame_t f) {
    (void) f;
    vp_force_gc(vm);
}
inline void fn_gc_count(tiro_vm_t vm, tiro_sync_frame_t f) {
    H a(vm);
    Err err;
    tiro_make_integer(vm, int64_t(vp::mon.live_objects), a, err);
    tiro_sync_frame_return_value(f, a, err);
}
/// host.held(): bytes of heap memory currently obtained from the system.
inline void fn_held(tiro_vm_t vm, tiro_sync_frame_t f) {
    H a(vm);
    Err err;
    tiro_make_integer(vm, int64_t(vp::mon.held()), a, err);
    tiro_sync_frame_return_value(f, a, err);
}
/// host.finalized(id): how often the finalizer of `id` has run.
inline void fn_finalized(tiro_vm_t vm, tiro_sync_frame_t f) {
    H a(vm), r(vm);
    Err err;
    tiro_sync_frame_arg(f, 0, a, err);
    long id = long(tiro_integer_value(vm, a));
    int64_t n = 0;
    for (long x : Session::of(vm)->finalized)
        n += x == id;
    tiro_make_integer(vm, n, r, err);
    tiro_sync_frame_return_value(f, r, err);
}
inline void fn_closure(tiro_vm_t vm, tiro_sync_frame_t f) {
    H a(vm);
    Err err;
    tiro_sync_frame_closure(f, a, err);
    tiro_sync_frame_return_value(f, a, err);
}
/// host.str(a, ...): API string round trip of bytes given as integers
inline void fn_bytes(tiro_vm_t vm, tiro_sync_frame_t f) {
    std::string s;
    size_t n = tiro_sync_frame_arg_count(f);
    for (size_t i = 0; i < n; ++i) {
        H a(vm);
        Err err;
        tiro_sync_frame_arg(f, i, a, err);
        s += char(tiro_integer_value(vm, a));
    }
    H r(vm);
    Err err;
    tiro_make_string(vm, ts(s), r, err);
    tiro_sync_frame_return_value(f, r, err);
}

inline void fn_async_id(tiro_vm_t vm, tiro_async_frame_t f) {
    H a(vm);
    Err err;
    tiro_async_frame_arg(f, 0, a, err);
    tiro_async_frame_return_value(f, a, err);
}
inline void later_impl(tiro_vm_t vm, tiro_async_frame_t f, int mode, bool twice = false, bool yield = true) {
    Err err;
    Session::Pending p;
    p.mode = mode;
    p.twice = twice;
    p.value = tiro_global_new(vm, err);
    tiro_async_frame_arg(f, 0, p.value, err);
    p.token = tiro_async_frame_token(f, err);
    if (!p.token) {
        Session::of(vm)->ev({"host_error", err.name()});
        tiro_global_free(p.value);
        tiro_async_frame_panic_msg(f, ts("no token"), err);
        return;
    }
    if (yield)
        tiro_async_frame_yield(f, err);
    Session::of(vm)->pending.push_back(p);
}
/// host.big(kind, size): requests a (probably huge) object, returns the outcome.
inline void fn_big(tiro_vm_t vm, tiro_sync_frame_t f) {
    H k(vm), n(vm), o(vm), r(vm);
    Err err, e2;
    tiro_sync_frame_arg(f, 0, k, err);
    tiro_sync_frame_arg(f, 1, n, err);
    const size_t size = size_t(tiro_integer_value(vm, n));
    size_t actual = size;
    switch (tiro_integer_value(vm, k)) {
    case 0:
        tiro_make_buffer(vm, size, o, err);
        if (err.ok())
            actual = tiro_buffer_size(vm, o);
        break;
    case 1:
        tiro_make_tuple(vm, size, o, err);
        if (err.ok())
            actual = tiro_tuple_size(vm, o);
        break;
    case 2:
        tiro_make_array(vm, size, o, err);
        break;
    case 3: {
        static tiro_native_type_t big_type = {ts("BigObject"), 8, nullptr};
        tiro_make_native(vm, &big_type, size, o, err);
        if (err.ok())
            actual = tiro_native_size(vm, o);
        break;
    }
    }
    std::string result = err.name();
    if (err.ok() && actual != size)
        result = "WRONG_SIZE";
    tiro_make_string(vm, ts(result), r, e2);
    tiro_sync_frame_return_value(f, r, e2);
}
/// host.later(x): suspends the coroutine; the host completes it later with x.
inline void fn_later(tiro_vm_t vm, tiro_async_frame_t f) {
    later_impl(vm, f, 0);
}
inline void fn_later_panic(tiro_vm_t vm, tiro_async_frame_t f) {
    later_impl(vm, f, 1);
}
/// host.twice(x): like later, but the host attempts to complete the call two times.
inline void fn_twice(tiro_vm_t vm, tiro_async_frame_t f) {
    later_impl(vm, f, 0, true);
}
/// host.stray(x): acquires a token but returns x immediately; the host uses the token later.
inline void fn_stray(tiro_vm_t vm, tiro_async_frame_t f) {
    later_impl(vm, f, 0, false, false);
    H a(vm);
    Err err;
    tiro_async_frame_arg(f, 0, a, err);
    tiro_async_frame_return_value(f, a, err);
}
/// host.stray_panic(message): acquires a token but panics immediately; the host uses the token later.
inline void fn_stray_panic(tiro_vm_t vm, tiro_async_frame_t f) {
    later_impl(vm, f, 0);
    H a(vm);
    Err err;
    tiro_async_frame_arg(f, 0, a, err);
    tiro_string_t s{};
    tiro_string_value(vm, a, &s, err);
    std::string copy(s.data ? s.data : "", s.length);
    tiro_async_frame_panic_msg(f, ts(copy), err);
}
/// host.never(): yields without a host token. Only a script token can resume the caller.
inline void fn_never(tiro_vm_t vm, tiro_async_frame_t f) {
    (void) vm;
    Err err;
    tiro_async_frame_yield(f, err);
}
/// host.complete(): the host completes one pending operation while a coroutine is running.
inline void fn_complete(tiro_vm_t vm, tiro_sync_frame_t f) {
    bool r = Session::of(vm)->complete_one();
    H a(vm);
    Err err;
    tiro_make_boolean(vm, r, a, err);
    tiro_sync_frame_return_value(f, a, err);
}
/// host.start(f, args...): starts a coroutine with a completion callback; returns its number.
inline void fn_start(tiro_vm_t vm, tiro_sync_frame_t f) {
    Err err;
    H fn(vm), args(vm), a(vm), co(vm);
    size_t n = tiro_sync_frame_arg_count(f);
    tiro_sync_frame_arg(f, 0, fn, err);
    tiro_make_tuple(vm, n - 1, args, err);
    for (size_t i = 1; i < n; ++i) {
        tiro_sync_frame_arg(f, i, a, err);
        tiro_tuple_set(vm, args, i - 1, a, err);
    }
    Session* s = Session::of(vm);
    int index = 1000 + s->started++;
    tiro_make_coroutine(vm, fn, args, co, err);
    if (!err.ok()) {
        tiro_sync_frame_panic_msg(f, ts("start failed: " + err.name()), err);
        return;
    }
    struct Data {
        Session* s;
        int index;
    };
    tiro_coroutine_set_callback(
        vm, co,
        [](tiro_vm_t vm, tiro_handle_t co, void* ud) {
            auto* d = static_cast<Data*>(ud);
            H r(vm);
            Err err;
            tiro_coroutine_result(vm, co, r, err);
            d->s->ev(json::array({"done", d->index, err.ok() ? ser(vm, r) : json(err.name())}));
        },
        [](void* ud) { delete static_cast<Data*>(ud); }, new Data{s, index}, err);
    tiro_coroutine_start(vm, co, err);
    if (!err.ok())
        s->ev({"start_error", err.name()});
    tiro_make_integer(vm, index, a, err);
    tiro_sync_frame_return_value(f, a, err);
}
/// host.get_export(module, name): the export, or the name of the error as a string.
inline void fn_get_export(tiro_vm_t vm, tiro_sync_frame_t f) {
    H m(vm), n(vm), r(vm);
    Err err;
    tiro_sync_frame_arg(f, 0, m, err);
    tiro_sync_frame_arg(f, 1, n, err);
    tiro_string_t ms{}, ns{};
    tiro_string_value(vm, m, &ms, err);
    tiro_string_value(vm, n, &ns, err);
    std::string mc(ms.data ? ms.data : "", ms.length), nc(ns.data ? ns.data : "", ns.length);
    Err e2;
    tiro_vm_get_export(vm, ts(mc), ts(nc), r, e2);
    if (!e2.ok())
        tiro_make_string(vm, ts(e2.name()), r, err);
    tiro_sync_frame_return_value(f, r, err);
}
/// host.call(f, args...): resumable native that invokes f and returns its result.
inline void fn_call(tiro_vm_t vm, tiro_resumable_frame_t f) {
    Err err;
    H fn(vm), args(vm), a(vm);
    switch (tiro_resumable_frame_state(f)) {
    case TIRO_RESUMABLE_STATE_START: {
        size_t n = tiro_resumable_frame_arg_count(f);
        tiro_resumable_frame_arg(f, 0, fn, err);
        tiro_make_tuple(vm, n - 1, args, err);
        for (size_t i = 1; i < n; ++i) {
            tiro_resumable_frame_arg(f, i, a, err);
            tiro_tuple_set(vm, args, i - 1, a, err);
        }
        tiro_resumable_frame_invoke(f, 1, fn, args, err);
        if (!err.ok())
            tiro_resumable_frame_panic_msg(f, ts("invoke failed: " + err.name()), err);
        return;
    }
    case 1:
        tiro_resumable_frame_invoke_return(f, a, err);
        tiro_resumable_frame_return_value(f, a, err);
        return;
    }
}
/// host.call0(f): like host.call, without arguments (null args handle).
inline void fn_call0(tiro_vm_t vm, tiro_resumable_frame_t f) {
    Err err;
    H fn(vm), a(vm);
    switch (tiro_resumable_frame_state(f)) {
    case TIRO_RESUMABLE_STATE_START:
        tiro_resumable_frame_arg(f, 0, fn, err);
        tiro_resumable_frame_invoke(f, 1, fn, nullptr, err);
        return;
    case 1:
        tiro_resumable_frame_invoke_return(f, a, err);
        tiro_resumable_frame_return_value(f, a, err);
        return;
    }
}
/// host.repeat(n, f): calls f n times and returns an array of results, using frame locals.
/// locals: 0 = remaining, 1 = array.
inline void fn_repeat(tiro_vm_t vm, tiro_resumable_frame_t f) {
    Err err;
    H fn(vm), n(vm), arr(vm), r(vm);
    int st = tiro_resumable_frame_state(f);
    if (st == TIRO_RESUMABLE_STATE_START) {
        tiro_make_array(vm, 0, arr, err);
        tiro_resumable_frame_set_local(f, 1, arr, err);
        tiro_resumable_frame_arg(f, 0, n, err);
        tiro_resumable_frame_set_local(f, 0, n, err);
    } else if (st == 1) {
        tiro_resumable_frame_invoke_return(f, r, err);
        tiro_resumable_frame_local(f, 1, arr, err);
        tiro_array_push(vm, arr, r, err);
    } else
        return;
    tiro_resumable_frame_local(f, 0, n, err);
    int64_t rem = tiro_integer_value(vm, n);
    if (rem <= 0) {
        tiro_resumable_frame_local(f, 1, arr, err);
        tiro_resumable_frame_return_value(f, arr, err);
        return;
    }
    tiro_make_integer(vm, rem - 1, n, err);
    tiro_resumable_frame_set_local(f, 0, n, err);
    tiro_resumable_frame_arg(f, 1, fn, err);
    tiro_resumable_frame_invoke(f, 1, fn, nullptr, err);
}

/// host.script(steps, args...): a resumable native that executes the given steps. The frame's state is the
/// index of the next step. Steps (tuples):
///   ("log",)            log state, closure, arguments and locals
///   ("set", i, v)       change local i (3 locals)
///   ("inv", f, args, n) invoke f with a tuple (or null), continue with step n
///   ("take", i)         store the return value of the last invocation into local i
///   ("goto", n)         continue with step n in a new invocation of the native function
///   ("gc",)  ("ret", v)  ("retl", i)  ("panic", message)  ("end",)
inline void fn_script(tiro_vm_t vm, tiro_resumable_frame_t f) {
    Err err;
    H steps(vm), step(vm), op(vm), a(vm), b(vm), n(vm);
    tiro_resumable_frame_arg(f, 0, steps, err);
    int64_t pc = tiro_resumable_frame_state(f);
    const int64_t entry = pc;
    auto field = [&](int i, tiro_handle_t out) {
        Err e2;
        tiro_tuple_get(vm, step, size_t(i), out, e2);
    };
    while (pc < int64_t(tiro_array_size(vm, steps))) {
        tiro_array_get(vm, steps, size_t(pc++), step, err);
        field(0, op);
        tiro_string_t s{};
        Err e1;
        tiro_string_value(vm, op, &s, e1);
        std::string name(s.data ? s.data : "", s.length);
        if (name == "log") {
            json e = json::array({"n", entry});
            Err e2;
            tiro_resumable_frame_closure(f, a, e2);
            e.push_back(ser(vm, a));
            for (size_t i = 1, c = tiro_resumable_frame_arg_count(f); i < c; ++i) {
                tiro_resumable_frame_arg(f, i, a, e2);
                e.push_back(ser(vm, a));
            }
            e.push_back("|");
            for (size_t i = 0, c = tiro_resumable_frame_local_count(f); i < c; ++i) {
                tiro_resumable_frame_local(f, i, a, e2);
                e.push_back(ser(vm, a));
            }
            Session::of(vm)->ev(std::move(e));
        } else if (name == "set") {
            field(1, n);
            field(2, a);
            Err e2;
            tiro_resumable_frame_set_local(f, size_t(tiro_integer_value(vm, n)), a, e2);
            if (!e2.ok())
                Session::of(vm)->ev({"set_error", e2.name()});
        } else if (name == "inv") {
            field(1, a);
            field(2, b);
            field(3, n);
            Err e2;
            const bool none = tiro_value_kind(vm, b) == TIRO_KIND_NULL;
            tiro_resumable_frame_invoke(f, int(tiro_integer_value(vm, n)), a, none ? nullptr : tiro_handle_t(b), e2);
            if (e2.ok())
                return;
            Session::of(vm)->ev({"invoke_error", e2.name()});
        } else if (name == "take") {
            field(1, n);
            Err e2;
            tiro_resumable_frame_invoke_return(f, a, e2);
            tiro_resumable_frame_set_local(f, size_t(tiro_integer_value(vm, n)), a, e2);
            if (!e2.ok())
                Session::of(vm)->ev({"take_error", e2.name()});
        } else if (name == "goto") {
            field(1, n);
            Err e2;
            tiro_resumable_frame_set_state(f, int(tiro_integer_value(vm, n)), e2);
            return;
        } else if (name == "gc") {
            vp_force_gc(vm);
        } else if (name == "ret") {
            field(1, a);
            Err e2;
            tiro_resumable_frame_return_value(f, a, e2);
            return;
        } else if (name == "retl") {
            field(1, n);
            Err e2;
            tiro_resumable_frame_local(f, size_t(tiro_integer_value(vm, n)), a, e2);
            tiro_resumable_frame_return_value(f, a, e2);
            return;
        } else if (name == "panic") {
            field(1, a);
            Err e2;
            tiro_string_t m{};
            tiro_string_value(vm, a, &m, e2);
            std::string copy(m.data ? m.data : "", m.length);
            tiro_resumable_frame_panic_msg(f, ts(copy), e2);
            return;
        } else {
            break;
        }
    }
    Err e3;
    tiro_resumable_frame_set_state(f, TIRO_RESUMABLE_STATE_END, e3);
}

/// The functions created by host.make: they return a tuple of their closure and all arguments.
template<typename Frame, typename Count, typename Arg, typename Closure>
void echo(tiro_vm_t vm, Frame f, tiro_handle_t out, Count count, Arg arg, Closure closure) {
    H a(vm);
    Err err;
    size_t n = count(f);
    tiro_make_tuple(vm, n + 1, out, err);
    closure(f, a, err);
    tiro_tuple_set(vm, out, 0, a, err);
    for (size_t i = 0; i < n; ++i) {
        arg(f, i, a, err);
        tiro_tuple_set(vm, out, i + 1, a, err);
    }
    if (!err.ok())
        Session::of(vm)->ev({"echo_error", err.name()});
    Err e2;
    arg(f, n, a, e2);
    if (e2.name() != "ERROR_OUT_OF_BOUNDS")
        Session::of(vm)->ev({"argument_bounds", e2.name()});
}
inline void made_sync(tiro_vm_t vm, tiro_sync_frame_t f) {
    H r(vm);
    Err err;
    echo(vm, f, r, tiro_sync_frame_arg_count, tiro_sync_frame_arg, tiro_sync_frame_closure);
    tiro_sync_frame_return_value(f, r, err);
}
inline void made_none(tiro_vm_t vm, tiro_sync_frame_t f) {
    H r(vm);
    echo(vm, f, r, tiro_sync_frame_arg_count, tiro_sync_frame_arg, tiro_sync_frame_closure);
}
inline void made_async(tiro_vm_t vm, tiro_async_frame_t f) {
    H r(vm);
    Err err;
    echo(vm, f, r, tiro_async_frame_arg_count, tiro_async_frame_arg, tiro_async_frame_closure);
    tiro_async_frame_return_value(f, r, err);
}
inline void made_later(tiro_vm_t vm, tiro_async_frame_t f) {
    Err err;
    Session::Pending p;
    p.mode = 0;
    p.value = tiro_global_new(vm, err);
    echo(vm, f, p.value, tiro_async_frame_arg_count, tiro_async_frame_arg, tiro_async_frame_closure);
    p.token = tiro_async_frame_token(f, err);
    tiro_async_frame_yield(f, err);
    Session::of(vm)->pending.push_back(p);
}
inline void made_resumable(tiro_vm_t vm, tiro_resumable_frame_t f) {
    H r(vm);
    Err err;
    echo(vm, f, r, tiro_resumable_frame_arg_count, tiro_resumable_frame_arg, tiro_resumable_frame_closure);
    tiro_resumable_frame_return_value(f, r, err);
}
/// host.make(kind, name, argc, closure): creates a native function.
inline void fn_make(tiro_vm_t vm, tiro_sync_frame_t f) {
    H k(vm), nm(vm), n(vm), cl(vm), r(vm);
    Err err;
    tiro_sync_frame_arg(f, 0, k, err);
    tiro_sync_frame_arg(f, 1, nm, err);
    tiro_sync_frame_arg(f, 2, n, err);
    tiro_sync_frame_arg(f, 3, cl, err);
    const size_t argc = size_t(tiro_integer_value(vm, n));
    switch (tiro_integer_value(vm, k)) {
    case 0: tiro_make_sync_function(vm, nm, made_sync, argc, cl, r, err); break;
    case 1: tiro_make_async_function(vm, nm, made_async, argc, cl, r, err); break;
    case 2: tiro_make_async_function(vm, nm, made_later, argc, cl, r, err); break;
    case 4: tiro_make_sync_function(vm, nm, made_none, argc, cl, r, err); break;
    default: {
        tiro_resumable_frame_desc_t d{};
        d.name = nm;
        d.func = tiro_integer_value(vm, k) == 3 ? made_resumable : fn_script;
        d.arg_count = argc;
        d.local_count = 3;
        d.closure = cl;
        tiro_make_resumable_function(vm, &d, r, err);
    }
    }
    if (!err.ok()) {
        tiro_sync_frame_panic_msg(f, ts(err.name()), err);
        return;
    }
    tiro_sync_frame_return_value(f, r, err);
}

inline bool load_host(tiro_vm_t vm) {
    struct S { const char* n; tiro_sync_function_t f; size_t argc; };
    static const S syncs[] = {{"log", fn_log, 0}, {"id", fn_id, 1}, {"panic", fn_panic, 1},
        {"sum", fn_sum, 0}, {"native", fn_native, 1}, {"native_id", fn_native_id, 1}, {"big", fn_big, 2}, {"held", fn_held, 0},
        {"gc", fn_gc, 0}, {"live", fn_gc_count, 0}, {"finalized", fn_finalized, 1},
        {"bytes", fn_bytes, 0}, {"closure", fn_closure, 0}, {"complete", fn_complete, 0},
        {"start", fn_start, 1}, {"make", fn_make, 4}, {"get_export", fn_get_export, 2}};
    struct A { const char* n; tiro_async_function_t f; size_t argc; };
    static const A asyncs[] = {
        {"async_id", fn_async_id, 1}, {"later", fn_later, 1}, {"later_panic", fn_later_panic, 1},
        {"twice", fn_twice, 1}, {"stray", fn_stray, 1}, {"stray_panic", fn_stray_panic, 1}, {"never", fn_never, 0}};
    struct R { const char* n; tiro_resumable_function_t f; size_t argc, locals; };
    static const R res[] = {{"call", fn_call, 1, 0}, {"call0", fn_call0, 1, 0}, {"repeat", fn_repeat, 2, 2},
        {"script", fn_script, 1, 3}};

    std::vector<tiro_module_member_t> members;
    std::vector<tiro_handle_t> handles;
    Err err;
    bool ok = true;
    auto add = [&](const char* name, auto make) {
        H nm(vm), cl(vm);
        tiro_make_string(vm, ts(name), nm, err);
        tiro_make_integer(vm, 4711, cl, err);
        tiro_handle_t h = tiro_global_new(vm, err);
        make(nm, cl, h);
        ok = ok && err.ok();
        handles.push_back(h);
        members.push_back({ts(name), h});
    };
    for (auto& s : syncs)
        add(s.n, [&](tiro_handle_t nm, tiro_handle_t cl, tiro_handle_t h) {
            tiro_make_sync_function(vm, nm, s.f, s.argc, cl, h, err);
        });
    for (auto& s : asyncs)
        add(s.n, [&](tiro_handle_t nm, tiro_handle_t cl, tiro_handle_t h) {
            tiro_make_async_function(vm, nm, s.f, s.argc, cl, h, err);
        });
    for (auto& s : res)
        add(s.n, [&](tiro_handle_t nm, tiro_handle_t cl, tiro_handle_t h) {
            tiro_resumable_frame_desc_t d{nm, s.argc, s.locals, cl, s.f};
            tiro_make_resumable_function(vm, &d, h, err);
        });
    {
        H m(vm);
        tiro_make_module(vm, ts("host"), members.data(), members.size(), m, err);
        ok = ok && err.ok();
        tiro_vm_load_module(vm, m, err);
        ok = ok && err.ok();
    }
    for (auto h : handles)
        tiro_global_free(h);
    return ok;
}

// ---- compilation ---------------------------------------------------------------------------

struct CompileOut {
    json info;
    tiro_module_t module = nullptr;
};

inline const char* attachment_name(int a) {
    static const char* n[] = {"?", "cst", "ast", "ir", "bytecode"};
    return a >= 1 && a <= 4 ? n[a] : "?";
}

/// spec: {"name":..., "files":[[name, source],...], "attach":[1,2,3,4], "want":[..]}
inline CompileOut compile(const json& spec) {
    CompileOut out;
    out.info = json::object();
    Err err;
    std::string name = spec.value("name", "main");
    tiro_compiler_t c = tiro_compiler_new(ts(name), err);
    if (!c) {
        out.info["rc"] = err.name();
        return out;
    }
    json msgs = json::array();
    if (!spec.value("nocb", false))
        tiro_compiler_set_message_callback(
            c,
            [](const tiro_compiler_message_t* m, void* ud) {
                auto& msgs = *static_cast<json*>(ud);
                if (on_event)
                    (*on_event)();
                if (msgs.size() < 200)
                    msgs.push_back(json::array({int(m->severity),
                        latin1({m->file.data ? m->file.data : "", m->file.length}), m->line, m->column,
                        latin1({m->text.data ? m->text.data : "", m->text.length})}));
                return true;
            },
            &msgs, err);
    bool ok = true;
    if (spec.contains("attach"))
        for (auto& a : spec["attach"])
            tiro_compiler_request_attachment(c, tiro_attachment_t(a.get<int>()), err);
    for (auto& f : spec["files"]) {
        std::string fname = unlatin1(f[0].get<std::string>()), src = unlatin1(f[1].get<std::string>());
        tiro_compiler_add_file(c, ts(fname), ts(src), err);
        if (!err.ok()) {
            out.info["add_file"] = err.name();
            ok = false;
        }
    }
    tiro_compiler_run(c, err);
    out.info["rc"] = err.name();
    if (!err.ok())
        out.info["details"] = err.details();
    out.info["msgs"] = msgs;
    out.info["has_module"] = tiro_compiler_has_module(c);
    if (spec.contains("attach") || spec.contains("probe")) {
        json at = json::object();
        for (int a = 1; a <= 4; ++a) {
            char* str = nullptr;
            tiro_compiler_get_attachment(c, tiro_attachment_t(a), &str, err);
            if (err.ok())
                at[attachment_name(a)] = latin1(str ? str : "");
            else
                at[attachment_name(a)] = json::array({err.name()});
            std::free(str);
        }
        out.info["attach"] = at;
    }
    if (tiro_compiler_has_module(c)) {
        tiro_compiler_take_module(c, &out.module, err);
        if (!err.ok())
            out.info["take"] = err.name();
    }
    tiro_compiler_free(c);
    return out;
}

inline void print_cb(tiro_string_t msg, void* ud) {
    auto s = static_cast<Session*>(ud);
    s->ev(json::array({"p", latin1({msg.data ? msg.data : "", msg.length})}));
}

} // namespace host
