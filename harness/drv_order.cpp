// Variable orders and their queue alone. Input: P id / operations / END. Variables are written as codes:
// Booleans 1, 2, ..; real variables -1, -2, ..
//   use evsids|gvsids|first  nb nr      order, numbers of variables
//   cons v1 v2 ..           new Boolean variable that stands for a constraint over these real variables
//   grow b r                b more Boolean, r more real variables
//   assert lits..           clause of the problem (before init)
//   init                    start of a check
//   learn n lits.. / resolve n lits..      n times a learned clause / a clause used to derive one
//   pick                    what the order picks
//   decide v / prop l v     assign v at a new level / at level l
//   back l                  backjump to level l (-1: everything)
//   before v w              is v preferred to w
//   q push v s | q pop | q update v s | q rescale f | q drain       the queue alone
#include "trace_common.h"
#include <cmath>
#include <map>
#include <memory>
#include <gmpxx.h>
#include "Database.h"
#include "Event_dispatcher.h"
#include "Evsids.h"
#include "First_unassigned.h"
#include "Generalized_vsids.h"
#include "Linear_arithmetic.h"
#include "Trail.h"
#include "Variable_priority_queue.h"
using namespace yaga;
using namespace verif;

static Variable var(int c) { return c > 0 ? Variable{c - 1, Variable::boolean} : Variable{-c - 1, Variable::rational}; }
static std::string exact(float f)
{
    int e = 0;
    double m = std::frexp(static_cast<double>(f), &e);
    mpz_class n(static_cast<double>(std::ldexp(m, 24)));
    e -= 24;
    mpq_class q(n);
    if (e >= 0) { q *= mpq_class(mpz_class(1) << e); } else { q /= mpq_class(mpz_class(1) << -e); }
    return q.get_str();
}

int main(int argc, char** argv)
{
    int cpu = argc > 1 ? atoi(argv[1]) : 10;
    std::string line, id;
    std::vector<std::string> lines;
    while (std::getline(std::cin, line))
    {
        if (line.starts_with("P ")) { id = line.substr(2); lines.clear(); continue; }
        if (line != "END") { lines.push_back(line); continue; }
        std::string ending;
        auto out = run_isolated([&](auto write) {
            Database db;
            Event_dispatcher dispatcher;
            Trail trail{dispatcher};
            trail.set_model<bool>(Variable::boolean, 0);
            trail.set_model<Rational>(Variable::rational, 0);
            Linear_arithmetic lra;
            dispatcher.add(&lra);
            std::unique_ptr<Variable_order> order;
            Evsids* ev = nullptr;
            Generalized_vsids* gv = nullptr;
            Variable_priority_queue queue;
            std::map<int, float> in_queue; // scores given to the queue
            int nb = 0, nr = 0;
            bool first = true;
            auto scores = [&] {
                std::string s = ",\"sc\":[";
                for (int i = 0; i < nb; ++i)
                {
                    s += (i ? "," : "") + quote(exact(ev ? ev->score(i) : gv ? gv->score(Variable{i, Variable::boolean}) : 0.f));
                }
                s += "],\"rsc\":[";
                for (int i = 0; i < nr; ++i) { s += (i ? "," : "") + quote(exact(gv ? gv->score(Variable{i, Variable::rational}) : 0.f)); }
                return s + "]";
            };
            auto set = [&](Variable v) {
                if (v.type() == Variable::boolean) { trail.model<bool>(v.type()).set_value(v.ord(), true); }
                else { trail.model<Rational>(v.type()).set_value(v.ord(), Rational{1}); }
            };
            auto clause = [&](std::istringstream& in, std::string& text) {
                Clause c;
                int l;
                while (in >> l) { text += (c.empty() ? "" : ",") + std::to_string(l); c.push_back(lit(l)); }
                return c;
            };
            for (auto const& ln : lines)
            {
                std::istringstream in(ln);
                std::string op;
                in >> op;
                std::string e = std::string(first ? "" : ",") + "{\"op\":\"" + op + "\"";
                first = false;
                if (op == "use" || op == "grow")
                {
                    int b, r;
                    if (op == "use")
                    {
                        std::string k;
                        in >> k;
                        e += ",\"k\":\"" + k + "\"";
                        if (k == "evsids") { auto p = std::make_unique<Evsids>(); ev = p.get(); order = std::move(p); }
                        else if (k == "gvsids") { auto p = std::make_unique<Generalized_vsids>(lra); gv = p.get(); order = std::move(p); }
                        else { order = std::make_unique<First_unassigned>(); }
                        dispatcher.add(order.get());
                    }
                    in >> b >> r;
                    nb += b;
                    nr += r;
                    e += ",\"b\":" + std::to_string(b) + ",\"r\":" + std::to_string(r);
                    trail.resize(Variable::boolean, nb);
                    trail.resize(Variable::rational, nr);
                }
                else if (op == "cons")
                {
                    std::vector<int> vs;
                    std::vector<Rational> cs;
                    std::string t;
                    int v;
                    while (in >> v) { vs.push_back(v - 1); cs.push_back(Rational{1}); t += (t.empty() ? "" : ",") + std::to_string(v); }
                    // a right-hand side which occurs only once makes the constraint new
                    auto c = lra.constraint(trail, vs, cs, Order_predicate::leq, Rational{1000 + nb});
                    nb = static_cast<int>(trail.model<bool>(Variable::boolean).num_vars());
                    e += ",\"x\":" + std::to_string(c.lit().var().ord() + 1) + ",\"nb\":" + std::to_string(nb) + ",\"v\":[" + t + "]";
                }
                else if (op == "assert")
                {
                    std::string t;
                    db.asserted().push_back(clause(in, t));
                    e += ",\"c\":[" + t + "]";
                }
                else if (op == "init") { order->on_init(db, trail); e += scores(); }
                else if (op == "learn" || op == "resolve")
                {
                    int n;
                    in >> n;
                    std::string t;
                    auto c = clause(in, t);
                    for (int i = 0; i < n; ++i)
                    {
                        if (op == "learn") { order->on_learned_clause(db, trail, c); }
                        else { order->on_conflict_resolved(db, trail, c); }
                    }
                    e += ",\"n\":" + std::to_string(n) + ",\"c\":[" + t + "]";
                }
                else if (op == "pick")
                {
                    auto v = order->pick(db, trail);
                    e += ",\"x\":" + std::to_string(v ? code(*v) : 0) + scores();
                }
                else if (op == "before")
                {
                    int v, w;
                    in >> v >> w;
                    e += ",\"v\":" + std::to_string(v) + ",\"w\":" + std::to_string(w) + ",\"r\":" + (order->is_before(var(v), var(w)) ? "true" : "false") + scores();
                }
                else if (op == "decide") { int v; in >> v; trail.decide(var(v)); set(var(v)); e += ",\"x\":" + std::to_string(v); }
                else if (op == "prop")
                {
                    int l, v;
                    in >> l >> v;
                    trail.propagate(var(v), nullptr, l);
                    set(var(v));
                    e += ",\"l\":" + std::to_string(l) + ",\"x\":" + std::to_string(v);
                }
                else if (op == "back")
                {
                    int l;
                    in >> l;
                    order->on_before_backtrack(db, trail, l);
                    if (l >= 0) { trail.backtrack(l); } else { trail.clear(); }
                    e += ",\"l\":" + std::to_string(l);
                }
                else if (op == "q")
                {
                    std::string what, s;
                    int v = 0;
                    in >> what;
                    e += ",\"w\":\"" + what + "\"";
                    if (what == "push" || what == "update")
                    {
                        in >> v >> s;
                        float f = std::strtof(s.c_str(), nullptr);
                        if (what == "push") { queue.push(var(v), f); in_queue[v] = f; }
                        else { queue.update(var(v), f); if (in_queue.count(v)) { in_queue[v] = f; } }
                        e += ",\"x\":" + std::to_string(v) + ",\"s\":" + quote(exact(f));
                    }
                    if (what == "pop") { in_queue.erase(code(queue.top())); queue.pop(); }
                    if (what == "rescale")
                    {
                        in >> s;
                        float f = std::strtof(s.c_str(), nullptr);
                        queue.rescale(f);
                        e += ",\"sc\":[";
                        bool g = true;
                        for (auto& [x, y] : in_queue)
                        {
                            y /= f;
                            e += std::string(g ? "" : ",") + "{\"x\":" + std::to_string(x) + ",\"s\":" + quote(exact(y)) + "}";
                            g = false;
                        }
                        e += "]";
                    }
                    if (what == "drain")
                    {
                        e += ",\"all\":[";
                        bool g = true;
                        while (!queue.empty()) { e += (g ? "" : ",") + std::to_string(code(queue.top())); queue.pop(); g = false; }
                        e += "]";
                        in_queue.clear();
                    }
                    e += ",\"top\":" + std::to_string(queue.empty() ? 0 : code(queue.top())) + ",\"n\":" + std::to_string(queue.size()) +
                         ",\"in\":" + (v && queue.contains(var(v)) ? "true" : "false");
                }
                write(e + "}\n");
            }
        }, cpu, ending);
        std::cout << "{\"id\":" << quote(id) << ",\"ev\":[" << records(out, ending) << "]}\n";
    }
}
