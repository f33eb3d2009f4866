// lsh: scripted driver for the real log-surgeon code.  Reads a script on stdin, one command per
// line, and writes one JSON object per observable on stdout.  Every `case` runs in a forked child,
// so that an abort, a crash or a hang is itself an observable ("crash") and the run goes on.
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include <log_surgeon/Constants.hpp>

using std::string;
using std::vector;

using namespace log_surgeon;

static string unhex(string const& h) {
    string r;
    if (h == "-") {
        return r;
    }
    auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; };
    for (size_t i = 0; i + 1 < h.size(); i += 2) {
        r.push_back(static_cast<char>(v(h[i]) * 16 + v(h[i + 1])));
    }
    return r;
}

static thread_local string out;  // JSON output of the current process

static void flush_out() {
    static std::mutex m;
    std::lock_guard<std::mutex> const lock{m};
    size_t o = 0;
    while (o < out.size()) {
        ssize_t n = ::write(1, out.data() + o, out.size() - o);
        if (n <= 0) {
            _exit(3);
        }
        o += n;
    }
    out.clear();
}

static string bytes(std::string_view s) {
    string r = "[";
    char b[8];
    for (size_t i = 0; i < s.size(); ++i) {
        snprintf(b, sizeof b, i ? ",%u" : "%u", static_cast<unsigned char>(s[i]));
        r += b;
    }
    return r + "]";
}

static string jstr(std::string_view s) {
    string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 32 || c > 126) {
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

static string cur_case;
static thread_local string cur_actor;  // who is acting, if there are several

static void emit(string const& body) {
    out += "{\"c\":" + jstr(cur_case) + (cur_actor.empty() ? "" : ",\"a\":" + jstr(cur_actor)) + ","
           + body + "}\n";
    flush_out();
}

static char const* rc_name(ErrorCode e) {
    switch (e) {
        case ErrorCode::Success:
            return "Success";
        case ErrorCode::BufferOutOfBounds:
            return "BufferOutOfBounds";
        case ErrorCode::LogFullyConsumed:
            return "LogFullyConsumed";
        case ErrorCode::BadParam:
            return "BadParam";
        case ErrorCode::Errno:
            return "Errno";
        case ErrorCode::EndOfFile:
            return "EndOfFile";
        case ErrorCode::FileNotFound:
            return "FileNotFound";
        case ErrorCode::NotInit:
            return "NotInit";
        case ErrorCode::Truncated:
            return "Truncated";
    }
    return "?";
}
static vector<string> words(string const& line) {
    std::istringstream in(line);
    vector<string> w;
    string s;
    while (in >> s) {
        w.push_back(s);
    }
    return w;
}

static string exc_body(std::exception const& e) {
    return "\"ok\":false,\"what\":" + bytes(e.what());
}


// Each part of the harness is compiled only for the checks that need it.
#include "base.inc"
#ifdef LSH_AST
#include "ast.inc"
#endif
#ifdef LSH_SCHEMA
#include "schema.inc"
#endif
#ifdef LSH_SC
#include "sc.inc"
#endif
#ifdef LSH_SO
#include "so.inc"
#endif
#ifdef LSH_DFA
#include "dfa.inc"
#endif
#ifdef LSH_RP
#include "rp.inc"
#endif
#ifdef LSH_BP
#include "bp.inc"
#endif
#ifdef LSH_IT
#include "it.inc"
#endif
#ifdef LSH_REG
#include "reg.inc"
#endif
#ifdef LSH_FR
#include "fr.inc"
#endif
#ifdef LSH_LR
#include "lr.inc"
#endif
#ifdef LSH_LX
#include "lx.inc"
#endif

static void run(vector<string> const& w) {
    if (run_base(w)) {
        return;
    }
#ifdef LSH_AST
    if (run_ast(w)) {
        return;
    }
#endif
#ifdef LSH_SCHEMA
    if (run_schema(w)) {
        return;
    }
#endif
#ifdef LSH_SC
    if (run_sc(w)) {
        return;
    }
#endif
#ifdef LSH_SO
    if (run_so(w)) {
        return;
    }
#endif
#ifdef LSH_DFA
    if (run_dfa(w)) {
        return;
    }
#endif
#ifdef LSH_RP
    if (run_rp(w)) {
        return;
    }
#endif
#ifdef LSH_BP
    if (run_bp(w)) {
        return;
    }
#endif
#ifdef LSH_IT
    if (run_it(w)) {
        return;
    }
#endif
#ifdef LSH_REG
    if (run_reg(w)) {
        return;
    }
#endif
#ifdef LSH_FR
    if (run_fr(w)) {
        return;
    }
#endif
#ifdef LSH_LR
    if (run_lr(w)) {
        return;
    }
#endif
#ifdef LSH_LX
    if (run_lx(w)) {
        return;
    }
#endif
    throw std::logic_error("lsh: bad command " + w[0]);
}

// `as ACTOR command`; between `par` and `endpar` each actor runs its commands in a thread of its own
static void run_case(vector<string> const& lines) {
    bool par = false;
    vector<std::pair<string, vector<vector<string>>>> actors;
    for (auto const& l : lines) {
        auto w = words(l);
        if (w[0] == "par") {
            par = true;
        } else if (w[0] == "endpar") {
            std::atomic<size_t> ready{0};
            vector<std::thread> threads;
            for (auto const& a : actors) {
                threads.emplace_back([&ready, &a, n = actors.size()] {
                    cur_actor = a.first;
                    ++ready;
                    while (ready < n) {
                    }
                    try {
                        for (auto const& x : a.second) {
                            run(x);
                        }
                    } catch (std::exception const& e) {
                        emit("\"ev\":\"escaped\",\"what\":" + jstr(e.what()));
                    }
                    flush_out();
                });
            }
            for (auto& t : threads) {
                t.join();
            }
            actors.clear();
            par = false;
        } else if (w[0] == "as") {
            vector<string> const rest{w.begin() + 2, w.end()};
            if (par) {
                if (actors.empty() || actors.back().first != w[1]) {
                    actors.emplace_back(w[1], vector<vector<string>>{});
                }
                actors.back().second.push_back(rest);
            } else {
                cur_actor = w[1];
                run(rest);
                cur_actor.clear();
            }
        } else {
            run(w);
        }
    }
}

int main(int argc, char** argv) {
    int limit = argc > 1 ? atoi(argv[1]) : 20;
    rlimit rl{3UL << 30, 3UL << 30};
    setrlimit(RLIMIT_AS, &rl);
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    std::ios::sync_with_stdio(false);
    string line;
    vector<string> lines;
    bool in_case = false;
    int hangs = 0;  // after a few hangs the rest is skipped
    while (std::getline(std::cin, line)) {
        if (line.empty() || line[0] == '#') {
            continue;
        }
        auto w = words(line);
        if (w[0] == "case") {
            cur_case = w[1];
            lines.clear();
            in_case = true;
            continue;
        }
        if (w[0] == "endcase") {
            in_case = false;
            if (hangs >= 3) {
                emit("\"ev\":\"skipped\"");
                continue;
            }
            pid_t pid = fork();
            if (pid == 0) {
                int fd = ::open("/dev/null", O_WRONLY);
                dup2(fd, 2);
                alarm(limit);
                try {
                    run_case(lines);
                } catch (std::exception const& e) {
                    emit("\"ev\":\"escaped\",\"what\":" + jstr(e.what()));
                }
                flush_out();
                _exit(0);
            }
            int st = 0;
            waitpid(pid, &st, 0);
            if (WIFSIGNALED(st)) {
                hangs += WTERMSIG(st) == SIGALRM ? 1 : 0;
                emit("\"ev\":\"crash\",\"sig\":" + std::to_string(WTERMSIG(st)));
            } else if (WEXITSTATUS(st) != 0) {
                emit("\"ev\":\"crash\",\"sig\":" + std::to_string(1000 + WEXITSTATUS(st)));
            } else {
                emit("\"ev\":\"end\"");
            }
            cur_case.clear();
            continue;
        }
        if (in_case) {
            lines.push_back(line);
        } else {
            try {
                run(w);
            } catch (std::exception const& e) {
                // preset commands (parsers shared by the cases): a failure shows up in the cases
                cur_case = "preset";
                emit("\"ev\":\"escaped\",\"what\":" + jstr(e.what()) + ",\"cmd\":" + jstr(w[0]));
            }
        }
    }
    flush_out();
    _exit(0);
}
