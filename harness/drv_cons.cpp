// The repository of linear constraints. Input: P id / NR n / operations / END.
//   resize n                   number of Boolean variables
//   make pred rhs v c v c ..   create a constraint (pred eq, lt, leq)
//   eval k value..             evaluate the k-th created constraint
//   all                        list all stored constraints
#include "trace_common.h"
#include "Linear_constraints.h"
#include "Rational.h"
#include "Model.h"
using namespace yaga;
using namespace verif;

static std::string text(Linear_constraint<Rational> const& c)
{
    std::string s = "\"lit\":" + std::to_string(code(c.lit())) + ",\"v\":[";
    bool f = true;
    for (auto v : c.vars()) { s += (f ? "" : ",") + std::to_string(v + 1); f = false; }
    s += "],\"c\":[";
    f = true;
    for (auto v : c.coef()) { s += (f ? "" : ",") + quote(rat(v)); f = false; }
    s += "],\"p\":\"";
    s += c.pred() == Order_predicate::eq ? "eq" : c.pred() == Order_predicate::lt ? "lt" : "leq";
    return s + "\",\"r\":" + quote(rat(c.rhs()));
}

int main(int argc, char** argv)
{
    int cpu = argc > 1 ? atoi(argv[1]) : 10;
    std::string line, id;
    std::vector<std::string> lines;
    while (std::getline(std::cin, line))
    {
        if (line.starts_with("P ")) { id = line.substr(2); lines.clear(); continue; }
        if (line != "END") { lines.push_back(line); continue; }
        std::string ending;
        auto out = run_isolated([&](auto write) {
            Linear_constraints<Rational> repo;
            std::vector<Linear_constraint<Rational>> made;
            int nr = 0;
            bool first = true;
            for (auto const& l : lines)
            {
                std::istringstream in(l);
                std::string op;
                in >> op;
                if (op == "NR") { in >> nr; continue; }
                std::string ev = std::string(first ? "" : ",") + "{\"op\":\"" + op + "\"";
                first = false;
                if (op == "resize") { int n; in >> n; repo.resize(n); ev += ",\"n\":" + std::to_string(n); }
                if (op == "make")
                {
                    std::string pred, rhs, c;
                    int v;
                    std::vector<int> vars;
                    std::vector<Rational> coef;
                    in >> pred >> rhs;
                    std::string iv, ic;
                    while (in >> v >> c)
                    {
                        iv += (vars.empty() ? "" : ",") + std::to_string(v + 1);
                        vars.push_back(v);
                        coef.push_back(Rational(c.c_str()));
                        ic += (coef.size() == 1 ? "" : ",") + quote(rat(coef.back()));
                    }
                    Rational r(rhs.c_str());
                    ev += ",\"in\":{\"v\":[" + iv + "],\"c\":[" + ic + "],\"p\":\"" + pred + "\",\"r\":" + quote(rat(r)) + "},";
                    write(ev);
                    auto cons = repo.make(vars, coef, pred == "eq" ? Order_predicate::eq : pred == "lt" ? Order_predicate::lt : Order_predicate::leq, r);
                    made.push_back(cons);
                    ev = text(cons) + ",\"strict\":" + (cons.is_strict() ? "true" : "false") + ",\"size\":" + std::to_string(repo.size());
                }
                if (op == "eval")
                {
                    int k;
                    in >> k;
                    Model<Rational> m;
                    m.resize(nr);
                    std::string vals, t;
                    for (int i = 0; i < nr; ++i)
                    {
                        in >> t;
                        m.set_value(i, Rational(t.c_str()));
                        vals += (i ? "," : "") + quote(rat(m.value(i)));
                    }
                    auto c = made[k];
                    auto full = eval(m, c);
                    ev += ",\"k\":" + std::to_string(k + 1) + ",\"m\":[" + vals + "],\"res\":" + (full ? *full ? "\"1\"" : "\"0\"" : "\"\"");
                    ev += std::string(",\"neg\":") + ((~c).eval(m) ? "\"1\"" : "\"0\"");
                    std::string x = "0", imp;
                    if (!c.vars().empty())
                    {
                        int v = c.vars()[0];
                        m.clear(v);
                        x = std::to_string(v + 1);
                        imp = rat(c.implied_value(m));
                        auto part = eval(m, c);
                        ev += std::string(",\"part\":") + (part ? *part ? "\"1\"" : "\"0\"" : "\"\"");
                    }
                    else { ev += ",\"part\":\"\""; }
                    ev += ",\"x\":" + x + ",\"imp\":" + quote(imp) + "," + text(c);
                }
                if (op == "all")
                {
                    ev += ",\"cs\":[";
                    bool f = true;
                    for (int i = 0; i < static_cast<int>(repo.size()); ++i)
                    {
                        ev += std::string(f ? "{" : ",{") + "\"i\":" + std::to_string(i + 1) + "," + text(repo[i]) + "}";
                        f = false;
                    }
                    ev += "]";
                }
                write(ev + "}");
            }
        }, cpu, ending);
        std::string tail;
        auto pos = out.find("\n!exception ");
        if (pos != std::string::npos) { out = out.substr(0, pos); ending = "error"; }
        if (!ending.empty())
        {
            if (!out.empty() && out.back() != '}') { out = out.substr(0, out.rfind("{\"op\"")); if (!out.empty()) { out.pop_back(); } }
            tail = std::string(out.empty() ? "" : ",") + "{\"op\":\"end\",\"how\":\"" + ending + "\"}";
        }
        std::cout << "{\"id\":" << quote(id) << ",\"ev\":[" << out << tail << "]}\n";
    }
}
