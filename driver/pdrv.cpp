// Independence driver (C25): many machines and compilers at the same time, on separate threads or nested within each
// other on one thread. Every job must behave as it does alone.
#include "batch.hpp"
#include "case.hpp"

#include <algorithm>
#include <atomic>
#include <mutex>
#include <set>
#include <thread>

using namespace host;

namespace {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed)
        : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        return s * 2685821657736338717ull >> 11;
    }
    size_t below(size_t n) { return n ? size_t(next() % n) : 0; }
};

/// Addresses are part of some texts and of nothing else.
std::string normal(json r) {
    r.erase("id");
    if (r.contains("stats")) {
        json st;
        for (auto k : {"callbacks", "cleanups", "natives", "over_limit", "bad_free_size", "leaked"})
            st[k] = r["stats"][k];
        r["stats"] = st;
    }
    std::string s = r.dump(-1, ' ', false, json::error_handler_t::replace), out;
    for (size_t i = 0; i < s.size(); ++i) {
        out += s[i];
        if (s.compare(i, 3, "@0x") == 0) {
            i += 3;
            while (i < s.size() && std::isxdigit(static_cast<unsigned char>(s[i])))
                ++i;
            --i;
        }
    }
    return out;
}

struct Saved {
    vp::GcControl gc = vp::gc;
    vp::FaultControl fault = vp::fault;
    vp::HeapMonitor mon = vp::mon;
    long created = callbacks_created, cleaned = callbacks_cleaned;
    ~Saved() {
        vp::gc = gc;
        vp::fault = fault;
        vp::mon = mon;
        callbacks_created = created;
        callbacks_cleaned = cleaned;
    }
};

json run_case_parallel(const json& c) {
    json out;
    const auto& jobs = c["jobs"];
    const size_t n = jobs.size();
    const uint64_t seed = c["seed"];
    std::vector<std::set<std::string>> seen(n);
    std::mutex m; // (only taken between jobs)
    std::atomic<long> active{0}, most{0}, events{0}, executed{0}, switches{0}, last{-1};

    if (c["mode"] == "threads") {
        const int threads = c.value("threads", 8), rounds = c.value("rounds", 1);
        std::atomic<int> ready{0};
        std::vector<std::thread> ts;
        for (int t = 0; t < threads; ++t)
            ts.emplace_back([&, t] {
                Rng r(seed * 1000 + uint64_t(t));
                std::vector<size_t> order(n);
                for (size_t i = 0; i < n; ++i)
                    order[i] = i;
                std::function<void()> hook = [&] {
                    events.fetch_add(1, std::memory_order_relaxed);
                    if (last.exchange(t, std::memory_order_relaxed) != t)
                        switches.fetch_add(1, std::memory_order_relaxed);
                    const size_t k = r.below(16);
                    if (k == 0)
                        usleep(useconds_t(r.below(300)));
                    else if (k < 4)
                        std::this_thread::yield();
                };
                on_event = &hook;
                ++ready;
                while (ready.load() < threads)
                    std::this_thread::yield();
                for (int round = 0; round < rounds; ++round) {
                    // the first jobs of all threads are the same: initialisation on first use is raced
                    for (size_t i = n; i > 1 && (round || t % 2); --i)
                        std::swap(order[i - 1], order[r.below(i)]);
                    for (size_t i : order) {
                        const long now = active.fetch_add(1, std::memory_order_relaxed) + 1;
                        if (now > most.load(std::memory_order_relaxed))
                            most.store(now, std::memory_order_relaxed);
                        std::string res = normal(run_case(jobs[i]));
                        active.fetch_sub(1, std::memory_order_relaxed);
                        executed.fetch_add(1, std::memory_order_relaxed);
                        std::lock_guard<std::mutex> g(m);
                        seen[i].insert(std::move(res));
                    }
                }
                on_event = nullptr;
            });
        for (auto& t : ts)
            t.join();
    } else { // nested
        Rng r(seed);
        int depth = 0;
        long budget = c.value("nested", 200);
        std::function<void()> hook = [&] {
            ++events;
            if (depth >= 3 || budget <= 0 || r.below(6))
                return;
            --budget;
            ++depth;
            most = std::max(most.load(), long(depth));
            {
                Saved s;
                const size_t i = r.below(n);
                seen[i].insert(normal(run_case(jobs[i])));
            }
            ++executed;
            ++switches;
            --depth;
        };
        on_event = &hook;
        for (int round = 0; round < c.value("rounds", 1); ++round)
            for (size_t i = 0; i < n; ++i) {
                seen[i].insert(normal(run_case(jobs[i])));
                ++executed;
            }
        on_event = nullptr;
    }

    json bad = json::array();
    for (size_t i = 0; i < n; ++i) {
        const std::string alone = normal(run_case(jobs[i]));
        for (auto& s : seen[i])
            if (s != alone && bad.size() < 5) {
                size_t at = 0;
                while (at < s.size() && at < alone.size() && s[at] == alone[at])
                    ++at;
                at = at > 60 ? at - 60 : 0;
                bad.push_back({jobs[i]["id"], alone.substr(at, 300), s.substr(at, 300)});
            }
    }
    size_t distinct = 0;
    for (auto& s : seen)
        distinct += s.size();
    out["bad"] = bad;
    out["executed"] = executed.load();
    out["events"] = events.load();
    out["switches"] = switches.load();
    out["most_active"] = most.load();
    out["jobs"] = n;
    out["outcomes"] = distinct;
    return out;
}

} // namespace

int main(int argc, char** argv) { return batch::main_loop(argc, argv, run_case_parallel); }
