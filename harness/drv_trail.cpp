// The assignment trail and its models alone. Input: P id / operations / END.
//   size b r        numbers of Boolean and real variables
//   dec x v         decide x (Boolean variables are 1, 2, .., real ones -1, -2, ..) and give it the value v
//   prop x v l r    propagate x at level l with the r-th clause as its reason (0: none)
//   back l          backtrack
//   clear
//   set x v         change the value of an assigned variable (a decision is given a value after it is made)
// Every operation is recorded together with everything the trail and its models answer afterwards.
#include "trace_common.h"
#include "Event_dispatcher.h"
#include "Model.h"
#include "Trail.h"
#include <array>
using namespace yaga;
using namespace verif;

int main(int argc, char** argv)
{
    int cpu = argc > 1 ? atoi(argv[1]) : 10;
    std::string line, id;
    std::vector<std::string> lines;
    while (std::getline(std::cin, line))
    {
        if (line.starts_with("P ")) { id = line.substr(2); lines.clear(); continue; }
        if (line != "END") { lines.push_back(line); continue; }
        std::string ending;
        auto out = run_isolated([&](auto write) {
            Event_dispatcher dispatcher;
            Trail trail{dispatcher};
            // sizes of both kinds; -1: no model of this kind yet
            std::array<int, 2> num{-1, -1};
            std::array<Clause, 9> clauses;
            auto var = [](int x) { return x > 0 ? Variable{x - 1, Variable::boolean} : Variable{-x - 1, Variable::rational}; };
            auto bools = [&]() -> Model<bool>& { return trail.model<bool>(Variable::boolean); };
            auto reals = [&]() -> Model<Rational>& { return trail.model<Rational>(Variable::rational); };
            auto set = [&](int x, int v) {
                if (x > 0) { bools().set_value(x - 1, v != 0); } else { reals().set_value(-x - 1, Rational{v}); }
            };
            auto index = [&](Clause const* c) { return c == nullptr ? 0 : static_cast<int>(c - clauses.data()) + 1; };
            auto state = [&] {
                std::string s = "\"dl\":" + std::to_string(trail.decision_level()) + ",\"empty\":" + (trail.empty() ? "true" : "false");
                s += ",\"lists\":[";
                for (int l = 0; l <= trail.decision_level(); ++l)
                {
                    s += l ? ",[" : "[";
                    bool first = true;
                    for (auto [v, r] : trail.assigned(l))
                    {
                        s += std::string(first ? "" : ",") + "[" + std::to_string(code(v)) + "," + std::to_string(index(r)) + "]";
                        first = false;
                    }
                    s += "]";
                }
                s += "],\"recent\":[";
                bool first = true;
                for (auto [v, r] : trail.recent())
                {
                    s += std::string(first ? "" : ",") + "[" + std::to_string(code(v)) + "," + std::to_string(index(r)) + "]";
                    first = false;
                }
                // variable, defined, value, level (-1: none), reason, time of the value
                s += "],\"vars\":[";
                first = true;
                for (auto [type, model] : trail.models())
                {
                    for (int i = 0; i < static_cast<int>(model->num_vars()); ++i)
                    {
                        Variable v{i, type};
                        auto level = trail.decision_level(v);
                        bool def = model->is_defined(i);
                        int val = 0;
                        if (def)
                        {
                            if (type == Variable::boolean) { val = bools().value(i) ? 1 : 0; }
                            else { val = atoi(rat(reals().value(i)).c_str()); }
                        }
                        s += std::string(first ? "[" : ",[") + std::to_string(code(v)) + "," + (def ? "1" : "0") + "," + std::to_string(val) + ","
                             + std::to_string(level ? *level : -1) + "," + std::to_string(index(trail.reason(v))) + "," + std::to_string(model->timestamp(i)) + "]";
                        first = false;
                    }
                }
                return s + "]";
            };
            bool first = true;
            for (auto const& ln : lines)
            {
                std::istringstream in(ln);
                std::string op;
                in >> op;
                std::array<int, 4> a{0, 0, 0, 0};
                for (int i = 0; i < 4 && in >> a[i]; ++i) {}
                if (op == "size")
                {
                    for (int k = 0; k < 2; ++k)
                    {
                        auto type = k == 0 ? Variable::boolean : Variable::rational;
                        if (a[k] < 0 || a[k] == num[k]) { continue; }
                        if (num[k] >= 0) { trail.resize(type, a[k]); }
                        else if (k == 0) { trail.set_model<bool>(type, a[k]); }
                        else { trail.set_model<Rational>(type, a[k]); }
                        num[k] = a[k];
                    }
                }
                else if (op == "dec") { trail.decide(var(a[0])); set(a[0], a[1]); }
                else if (op == "prop") { trail.propagate(var(a[0]), a[3] ? &clauses[a[3] - 1] : nullptr, a[2]); set(a[0], a[1]); }
                else if (op == "back") { trail.backtrack(a[0]); }
                else if (op == "clear") { trail.clear(); }
                else if (op == "set") { set(a[0], a[1]); }
                write(std::string(first ? "" : ",") + "{\"op\":\"" + op + "\",\"a\":[" + std::to_string(a[0]) + "," + std::to_string(a[1]) + ","
                      + std::to_string(a[2]) + "," + std::to_string(a[3]) + "]," + state() + "}\n");
                first = false;
            }
        }, cpu, ending);
        std::cout << "{\"id\":" << quote(id) << ",\"ev\":[" << records(out, ending) << "]}\n";
    }
}
