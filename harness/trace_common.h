// Helpers shared by the drivers: projection of solver values to JSON.
#ifndef YAGA_VERIF_TRACE_COMMON_H
#define YAGA_VERIF_TRACE_COMMON_H
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include "Rational.h"
#include "Literal.h"
#include "Clause.h"

namespace verif {

// canonical text of a rational: "n" or "n/d"
inline std::string rat(yaga::Rational const& r)
{
    std::ostringstream os;
    os << r;
    std::string s = os.str();
    bool neg = false;
    std::vector<std::string> nums;
    std::string cur;
    for (char c : s)
    {
        if (c == '-') { neg = true; }
        if (c >= '0' && c <= '9') { cur += c; }
        else if (!cur.empty()) { nums.push_back(cur); cur.clear(); }
    }
    if (!cur.empty()) { nums.push_back(cur); }
    std::string out = neg ? "-" : "";
    if (nums.empty()) { return "?"; }
    out += nums[0];
    if (nums.size() > 1 && nums[1] != "1") { out += "/" + nums[1]; }
    return out;
}

inline int code(yaga::Literal l) { return l.is_negation() ? -(l.var().ord() + 1) : l.var().ord() + 1; }
// Booleans are 1, 2, ...; rational variables are -1, -2, ...
inline int code(yaga::Variable v)
{
    return v.type() == yaga::Variable::boolean ? v.ord() + 1 : -(v.ord() + 1);
}
inline yaga::Literal lit(int c) { yaga::Literal l{std::abs(c) - 1}; return c < 0 ? ~l : l; }

inline std::string json(yaga::Clause const& c)
{
    std::string s = "[";
    for (std::size_t i = 0; i < c.size(); ++i) { s += (i ? "," : "") + std::to_string(code(c[i])); }
    return s + "]";
}
template <class R> std::string json_clauses(R const& list)
{
    std::string s = "[";
    bool first = true;
    for (auto const& c : list) { s += (first ? "" : ",") + json(c); first = false; }
    return s + "]";
}
inline std::string quote(std::string const& s)
{
    std::string o = "\"";
    for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; } if (c == '\n') { o += "\\n"; } else { o += c; } }
    return o + "\"";
}

// Runs `body(write)` in a child process; whatever it writes is returned, followed by a record of how it
// ended if it did not return normally.
template <class Body> std::string run_isolated(Body&& body, int cpu_seconds, std::string& ending)
{
    int fd[2];
    if (pipe(fd) != 0) { perror("pipe"); exit(3); }
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        rlimit rl{static_cast<rlim_t>(cpu_seconds), static_cast<rlim_t>(cpu_seconds + 1)};
        setrlimit(RLIMIT_CPU, &rl);
        rlimit co{0, 0};
        setrlimit(RLIMIT_CORE, &co);
        rlimit as{4ul << 30, 4ul << 30};
        setrlimit(RLIMIT_AS, &as);
        if (!freopen("/dev/null", "w", stderr)) { _exit(3); }
        auto write_all = [&](std::string const& s) {
            std::size_t off = 0;
            while (off < s.size())
            {
                auto n = write(fd[1], s.data() + off, s.size() - off);
                if (n <= 0) { _exit(3); }
                off += n;
            }
        };
        try { body(write_all); }
        catch (std::exception const& e) { write_all("\n!exception " + std::string(e.what()) + "\n"); _exit(0); }
        _exit(0);
    }
    close(fd[1]);
    std::string out;
    char buf[65536];
    for (;;)
    {
        auto n = read(fd[0], buf, sizeof buf);
        if (n <= 0) { break; }
        out.append(buf, n);
    }
    close(fd[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    ending.clear();
    if (WIFSIGNALED(status))
    {
        int sig = WTERMSIG(status);
        ending = (sig == SIGXCPU || sig == SIGKILL) ? "timeout" : "crash";
    }
    else if (WEXITSTATUS(status) != 0) { ending = "crash"; }
    return out;
}

// the complete records (one per line) of a run and how it ended, as the elements of a JSON list
inline std::string records(std::string const& out, std::string ending)
{
    std::string flat, line;
    for (char c : out)
    {
        if (c != '\n') { line += c; continue; }
        if (line.starts_with("!exception")) { ending = "error"; line.clear(); break; }
        flat += line;
        line.clear();
    }
    if (!ending.empty()) { flat += std::string(flat.empty() ? "" : ",") + "{\"op\":\"end\",\"how\":\"" + ending + "\"}"; }
    return flat;
}

} // namespace verif
#endif
