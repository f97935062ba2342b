// The restart policies alone. Input: P id / operations / END.
//   use luby | use glucose [min slow fast threshold]
//   seq a b            elements a..b of the Luby sequence
//   learn n l1 l2 ..   n times a learned clause whose literals have these decision levels
//   until max l1 ..    the same until the policy asks for a restart, at most max times
//   restart            tell the policy that a restart happens
#include "trace_common.h"
#include "Restart.h"
#include "Event_dispatcher.h"
#include "Trail.h"
#include <memory>
#include <map>
using namespace yaga;
using namespace verif;

int main(int argc, char** argv)
{
    int cpu = argc > 1 ? atoi(argv[1]) : 10;
    std::string line, id;
    std::vector<std::string> lines;
    while (std::getline(std::cin, line))
    {
        if (line.starts_with("P ")) { id = line.substr(2); lines.clear(); continue; }
        if (line != "END") { lines.push_back(line); continue; }
        std::string ending;
        auto out = run_isolated([&](auto write) {
            Database db;
            Event_dispatcher dispatcher;
            Trail trail{dispatcher};
            auto& model = trail.set_model<bool>(Variable::boolean, 800);
            // variables 2k and 2k+1 .. have levels 0..: eight variables per level
            for (int l = 0; l < 100; ++l)
            {
                for (int k = 0; k < 8; ++k)
                {
                    Variable v{8 * l + k, Variable::boolean};
                    if (l > 0 && k == 0) { trail.decide(v); } else { trail.propagate(v, nullptr, l); }
                    model.set_value(v.ord(), true);
                }
            }
            std::unique_ptr<Restart> policy;
            bool first = true;
            auto clause = [&](std::istringstream& in, std::string& text) {
                Clause c;
                std::map<int, int> used;
                int l;
                while (in >> l)
                {
                    text += (c.empty() ? "" : ",") + std::to_string(l);
                    c.push_back(~Literal{8 * l + used[l]++ % 8});
                }
                return c;
            };
            for (auto const& ln : lines)
            {
                std::istringstream in(ln);
                std::string op;
                in >> op;
                std::string ev = std::string(first ? "" : ",") + "{\"op\":\"" + op + "\"";
                first = false;
                auto yes = [&] { return policy->should_restart() ? "true" : "false"; };
                if (op == "use")
                {
                    std::string which;
                    in >> which;
                    ev += ",\"k\":\"" + which + "\"";
                    if (which == "luby") { policy = std::make_unique<Luby_restart>(); }
                    else
                    {
                        auto g = std::make_unique<Glucose_restart>();
                        int m = 50, s = 13, f = 5;
                        std::string th = "1.3";
                        if (in >> m >> s >> f >> th)
                        {
                            g->set_min_conflicts(m).set_slow_exp(s).set_fast_exp(f).set_threshold(std::stof(th));
                        }
                        else { m = 50; s = 13; f = 5; th = "1.3"; }
                        ev += ",\"m\":" + std::to_string(m) + ",\"s\":" + std::to_string(s) + ",\"f\":" + std::to_string(f) + ",\"t\":" + quote(th);
                        policy = std::move(g);
                    }
                    ev += std::string(",\"ask\":") + yes();
                }
                else if (op == "seq")
                {
                    int a, b;
                    in >> a >> b;
                    Luby_restart l;
                    ev += ",\"a\":" + std::to_string(a) + ",\"v\":[";
                    for (int i = a; i <= b; ++i) { ev += (i > a ? "," : "") + std::to_string(l.luby(i)); }
                    ev += "]";
                }
                else if (op == "learn" || op == "until")
                {
                    int n, i = 0, t = 0, at = 0;
                    in >> n;
                    std::string text;
                    auto c = clause(in, text);
                    while (i < n && !(op == "until" && t > 0))
                    {
                        policy->on_conflict_resolved(db, trail, c);
                        policy->on_learned_clause(db, trail, c);
                        ++i;
                        if (policy->should_restart()) { if (t++ == 0) { at = i; } }
                    }
                    // n clauses learned; the policy asked t times, first after the at-th of them
                    ev += ",\"lv\":[" + text + "],\"n\":" + std::to_string(i) + ",\"t\":" + std::to_string(t) + ",\"at\":" + std::to_string(at);
                    ev += std::string(",\"ask\":") + yes();
                }
                else if (op == "restart")
                {
                    policy->on_before_backtrack(db, trail, 0);
                    policy->on_restart(db, trail);
                    ev += std::string(",\"ask\":") + yes();
                }
                write(ev + "}\n");
            }
        }, cpu, ending);
        std::cout << "{\"id\":" << quote(id) << ",\"ev\":[" << records(out, ending) << "]}\n";
    }
}
