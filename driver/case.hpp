#pragma once
// Executes one case: compiles its modules, loads them into a new machine with the host module, runs the phases and records
// the events. All state is local to the case (or to the thread).
#include "host.hpp"

#include <sys/resource.h>

namespace host {

inline thread_local long callbacks_created = 0, callbacks_cleaned = 0;

struct CoroData {
    Session* s;
    int index;
    int done = 0;
    CoroData(Session* s_, int i) : s(s_), index(i) { ++callbacks_created; }
    ~CoroData() { ++callbacks_cleaned; }
};

inline json run_case(const json& c) {
    json out = json::object();
    out["id"] = c["id"];
    vp::gc = vp::GcControl();
    vp::mon = vp::HeapMonitor();
    vp::fault = vp::FaultControl();
    callbacks_created = callbacks_cleaned = 0;

    json compile_infos = json::array();
    std::vector<tiro_module_t> modules;
    bool compiled = true;
    for (auto& m : c["modules"]) {
        auto r = compile(m);
        compile_infos.push_back(std::move(r.info));
        if (r.module)
            modules.push_back(r.module);
        else
            compiled = false;
    }
    out["compile"] = compile_infos;

    if (compiled && !c.value("compile_only", false)) {
        json vmopt = c.value("vm", json::object());
        Session session;
        session.max_events = c.value("max_events", 20000);
        tiro_vm_settings_t st;
        tiro_vm_settings_init(&st);
        st.page_size = vmopt.value("page", size_t(0));
        st.max_heap_size = vmopt.value("max", size_t(0));
        st.userdata = &session;
        st.print_stdout = print_cb;
        st.enable_panic_stack_trace = vmopt.value("trace", false);
        Err err;
        const json early = vmopt.value("fault_early", json::array({0, 0})); // [failing allocation, attempts]
        vp::fault.at = early[0];
        tiro_vm_t vm = tiro_vm_new(&st, err);
        if (!vm && vp::fault.at) {
            out["vm_new_fault"] = err.name();
            out["held_after_failure"] = vp::mon.held();
            vp::fault = vp::FaultControl();
            vm = tiro_vm_new(&st, err);
        }
        if (!vm) {
            out["vm_new"] = err.name() + ": " + err.details();
        } else {
            session.vm = vm;
            if (vmopt.value("gc_early", false) && vmopt.contains("gc")) {
                vp::gc.enabled = true;
                vp::gc.mode = vmopt["gc"][0];
                vp::gc.n = vmopt["gc"][1];
                vp::gc.rng ^= vmopt["gc"][2].get<uint64_t>() * 0x9E3779B97F4A7C15ull;
            }
            if (vmopt.value("std", true)) {
                tiro_vm_load_std(vm, err);
                if (!err.ok())
                    out["load_std"] = err.name();
                if (!err.ok() && vp::fault.at) {
                    vp::fault = vp::FaultControl();
                    tiro_vm_load_std(vm, err);
                    out["load_std_retry"] = err.name();
                }
            }
            vp::fault = vp::FaultControl();
            if (!load_host(vm))
                out["load_host"] = "failed";
            if (vmopt.contains("gc") && !vp::gc.enabled) {
                vp::gc.enabled = true;
                vp::gc.mode = vmopt["gc"][0];
                vp::gc.n = vmopt["gc"][1];
                vp::gc.rng ^= vmopt["gc"][2].get<uint64_t>() * 0x9E3779B97F4A7C15ull;
            }
            json load = json::array();
            const size_t preload = c.value("preload", modules.size());
            for (size_t i = 0; i < modules.size() && i < preload; ++i) {
                tiro_vm_load_bytecode(vm, modules[i], err);
                load.push_back(err.ok() ? json("TIRO_OK") : json(err.name() + ": " + err.details()));
            }
            out["load"] = load;

            rlimit old_limit{};
            getrlimit(RLIMIT_AS, &old_limit);
            if (c.contains("rlimit_mb")) {
                rlimit rl = old_limit;
                rl.rlim_cur = c["rlimit_mb"].get<size_t>() << 20;
                setrlimit(RLIMIT_AS, &rl);
            }
            session.order = c.contains("order") ? c["order"].get<int>() : c.value("lifo", false) ? 1 : 0;
            const int batch = c.value("batch", 1);
            const long max_rounds = c.value("max_rounds", 100000);
            json results = json::array();
            for (auto& phase : c["phases"]) {
                std::vector<tiro_handle_t> coros;
                std::vector<CoroData*> datas;
                json presults = json::array();
                for (auto& e : phase) {
                    H fn(vm), args(vm);
                    if (e.contains("load")) {
                        const size_t index = e["load"];
                        tiro_vm_load_bytecode(vm, modules.at(index), err);
                        session.ev({"load", index, err.ok() ? "TIRO_OK" : err.name()});
                        coros.push_back(nullptr);
                        continue;
                    }
                    if (e.contains("fault")) { // [at, rate, seed]; all zero: no more faults
                        session.ev({"fault", vp::mon.allocs, vp::mon.faults});
                        vp::fault = vp::FaultControl();
                        vp::fault.at = e["fault"][0];
                        vp::fault.rate = e["fault"][1];
                        vp::fault.rng ^= e["fault"][2].get<uint64_t>() * 0x9E3779B97F4A7C15ull;
                        coros.push_back(nullptr);
                        continue;
                    }
                    std::string mod = e["module"], name = e["fn"];
                    tiro_vm_get_export(vm, ts(mod), ts(name), fn, err);
                    if (!err.ok()) {
                        session.ev({"export_error", mod, name, err.name(), err.details()});
                        coros.push_back(nullptr);
                        continue;
                    }
                    if (e.contains("args"))
                        deser(vm, e["args"], args);
                    tiro_handle_t co = tiro_global_new(vm, err);
                    if (co)
                        tiro_make_coroutine(vm, fn, args, co, err);
                    if (!err.ok()) {
                        session.ev({"coroutine_error", err.name()});
                        tiro_global_free(co);
                        coros.push_back(nullptr);
                        continue;
                    }
                    auto* d = new CoroData{&session, int(coros.size())};
                    tiro_coroutine_set_callback(
                        vm, co,
                        [](tiro_vm_t vm, tiro_handle_t co, void* ud) {
                            auto* d = static_cast<CoroData*>(ud);
                            if (++d->done > 1)
                                d->s->ev({"callback_twice", d->index});
                            H r(vm);
                            Err err;
                            tiro_coroutine_result(vm, co, r, err);
                            d->s->ev(json::array({"done", d->index,
                                err.ok() ? ser(vm, r) : json(err.name())}));
                        },
                        [](void* ud) { delete static_cast<CoroData*>(ud); }, d, err);
                    if (!err.ok()) {
                        session.ev({"callback_error", err.name()});
                        tiro_global_free(co);
                        coros.push_back(nullptr);
                        continue;
                    }
                    tiro_coroutine_start(vm, co, err);
                    if (!err.ok())
                        session.ev({"start_error", err.name()});
                    coros.push_back(co);
                }
                long rounds = 0;
                int errors = 0;
                while (rounds++ < max_rounds) {
                    if (tiro_vm_has_ready(vm)) {
                        tiro_vm_run_ready(vm, err);
                        if (!err.ok()) {
                            session.ev({"run_error", err.name(), err.details()});
                            if (++errors > 20)
                                break;
                        }
                    } else if (session.pending.empty()) {
                        break;
                    } else {
                        for (int i = 0; i < batch; ++i)
                            session.complete_one();
                    }
                }
                if (rounds >= max_rounds)
                    session.ev({"round_limit"});
                for (auto co : coros) {
                    if (co) {
                        presults.push_back(tiro_coroutine_completed(vm, co));
                        tiro_global_free(co);
                    } else
                        presults.push_back(nullptr);
                }
                results.push_back(presults);
            }
            out["completed"] = results;
            setrlimit(RLIMIT_AS, &old_limit);
            while (!session.pending.empty()) {
                auto p = session.pending.front();
                session.pending.pop_front();
                tiro_async_token_free(p.token);
                tiro_global_free(p.value);
            }
            auto held = vp::mon.held();
            auto mon = vp::mon;
            vp::gc.enabled = false;
            vp::fault = vp::FaultControl();
            size_t fin_before = session.finalized.size();
            tiro_vm_free(vm);
            json st = json::object();
            st["allocs"] = mon.allocs;
            st["gcs"] = mon.gcs;
            st["peak"] = mon.peak;
            st["held"] = held;
            st["leaked"] = vp::mon.held();
            st["live_objects"] = mon.live_objects;
            st["over_limit"] = mon.over_limit;
            st["bad_free_size"] = vp::mon.bad_free_size;
            st["faults"] = vp::mon.faults;
            st["callbacks"] = callbacks_created;
            st["cleanups"] = callbacks_cleaned;
            st["natives"] = session.native_created;
            st["fin_before_free"] = fin_before;
            out["stats"] = st;
            if (session.native_created)
                out["finalized"] = session.finalized;
            out["events"] = std::move(session.events);
        }
    }
    for (auto m : modules)
        tiro_module_free(m);
    return out;
}

} // namespace host
