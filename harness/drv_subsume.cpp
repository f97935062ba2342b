// Simplification of clauses alone. Input: P id / operations / END.
//   vars n                 number of Boolean variables
//   assert lits.. / learn lits..     add a clause to the database
//   restart                restart event; reports the database
//   decide l / prop level l r1 r2 ..  assign a literal (with a reason clause when there are r's)
//   min lits..             shorten a clause which is false under the assignment
//   back l                 backjump
#include "trace_common.h"
#include <list>
#include "Database.h"
#include "Event_dispatcher.h"
#include "Subsumption.h"
#include "Trail.h"
using namespace yaga;
using namespace verif;

int main(int argc, char** argv)
{
    int cpu = argc > 1 ? atoi(argv[1]) : 10;
    std::string line, id;
    std::vector<std::string> lines;
    while (std::getline(std::cin, line))
    {
        if (line.starts_with("P ")) { id = line.substr(2); lines.clear(); continue; }
        if (line != "END") { lines.push_back(line); continue; }
        std::string ending;
        auto out = run_isolated([&](auto write) {
            Database db;
            Event_dispatcher dispatcher;
            Trail trail{dispatcher};
            Subsumption sub;
            dispatcher.add(&sub);
            auto& model = trail.set_model<bool>(Variable::boolean, 0);
            std::list<Clause> reasons;
            bool first = true;
            auto clause = [&](std::istringstream& in) {
                Clause c;
                int l;
                while (in >> l) { c.push_back(lit(l)); }
                return c;
            };
            auto base = [&] { return ",\"cl\":" + json_clauses(db.asserted()) + ",\"ln\":" + json_clauses(db.learned()); };
            for (auto const& ln : lines)
            {
                std::istringstream in(ln);
                std::string op;
                in >> op;
                std::string e = std::string(first ? "" : ",") + "{\"op\":\"" + op + "\"";
                first = false;
                if (op == "vars") { int n; in >> n; trail.resize(Variable::boolean, n); }
                else if (op == "assert" || op == "learn")
                {
                    auto c = clause(in);
                    e += ",\"c\":" + json(c);
                    if (op == "assert") { db.assert_clause(c); } else { auto& r = db.learn_clause(c); sub.on_learned_clause(db, trail, r); }
                }
                else if (op == "restart")
                {
                    dispatcher.on_before_backtrack(db, trail, 0);
                    trail.clear();
                    dispatcher.on_restart(db, trail);
                    e += base();
                }
                else if (op == "init") { dispatcher.on_init(db, trail); e += base(); }
                else if (op == "decide" || op == "prop")
                {
                    int level = 0, l;
                    if (op == "prop") { in >> level; }
                    in >> l;
                    auto c = clause(in);
                    auto v = lit(l).var();
                    if (op == "decide") { trail.decide(v); }
                    else
                    {
                        Clause* r = nullptr;
                        if (!c.empty()) { r = &reasons.emplace_back(c); }
                        trail.propagate(v, r, level);
                    }
                    model.set_value(v.ord(), l > 0);
                    e += ",\"x\":" + std::to_string(l) + ",\"l\":" + std::to_string(level) + ",\"r\":" + json(c);
                }
                else if (op == "back") { int l; in >> l; trail.backtrack(l); e += ",\"l\":" + std::to_string(l); }
                else if (op == "min")
                {
                    auto c = clause(in);
                    e += ",\"c\":" + json(c);
                    sub.minimize(trail, c);
                    e += ",\"d\":" + json(c);
                }
                write(e + "}\n");
            }
        }, cpu, ending);
        std::cout << "{\"id\":" << quote(id) << ",\"ev\":[" << records(out, ending) << "]}\n";
    }
}
