#pragma once
// The command line protocol shared by the batch drivers: PROG CASES.jsonl OUT.jsonl START [ALARM]
#include <nlohmann/json.hpp>

#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>
#include <unistd.h>

namespace batch {

using json = nlohmann::json;

inline int out_fd = -1;
inline char current_id[128];

inline void on_alarm(int) {
    char buf[256];
    int n = std::snprintf(buf, sizeof buf, "{\"id\":\"%s\",\"timeout\":true}\n", current_id);
    if (write(out_fd, buf, n)) {}
    _exit(42);
}

inline int main_loop(int argc, char** argv, json (*run_case)(const json&)) {
    if (argc < 4)
        return 2;
    std::ifstream in(argv[1]);
    FILE* of = std::fopen(argv[2], "a");
    if (!in || !of)
        return 2;
    out_fd = fileno(of);
    long start = std::atol(argv[3]);
    long limit = argc > 4 ? std::atol(argv[4]) : 30;
    std::signal(SIGALRM, on_alarm);
    std::string line;
    long n = 0;
    while (std::getline(in, line)) {
        if (n++ < start || line.empty())
            continue;
        json c = json::parse(line);
        std::snprintf(current_id, sizeof current_id, "%s", c["id"].get<std::string>().c_str());
        alarm(unsigned(limit));
        const auto t0 = std::chrono::steady_clock::now();
        json r = run_case(c);
        r["id"] = c["id"];
        r["ms"] = std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - t0).count();
        alarm(0);
        std::string s = r.dump(-1, ' ', false, json::error_handler_t::replace);
        s += '\n';
        std::fwrite(s.data(), 1, s.size(), of);
        std::fflush(of);
    }
    std::fclose(of);
    return 0;
}

} // namespace batch
