// A machine with registers that hold rational numbers. Input: P id / one operation per line / END.
//   parse d text | int d n | make d n m | add|sub|mul|div d a b | addto|subto|multo|divto d a |
//   neg|negate|inv|inverse|floor|ceil|num|den|copy|move|swap d a | cmp a b | info a
#include "trace_common.h"
#include "Rational.h"
using namespace yaga;
using namespace verif;
int main(int argc, char** argv)
{
    int cpu = argc > 1 ? atoi(argv[1]) : 10;
    std::string line, id;
    std::vector<std::string> lines;
    while (std::getline(std::cin, line))
    {
        if (line.starts_with("P ")) { id = line.substr(2); lines.clear(); continue; }
        if (line != "END") { lines.push_back(line); continue; }
        std::string ending;
        auto out = run_isolated([&](auto write) {
            std::vector<Rational> r(8, Rational{0});
            bool first = true;
            for (auto const& l : lines)
            {
                std::istringstream in(l);
                std::string op, t;
                int d = 0, a = 0, b = 0;
                in >> op;
                std::string ev = std::string(first ? "" : ",") + "{\"op\":\"" + op + "\"";
                first = false;
                auto text = [&](Rational const& q) { std::ostringstream os; os << q; return quote(os.str()); };
                if (op == "cmp")
                {
                    in >> a >> b;
                    auto &x = r[a], &y = r[b];
                    int c = x.compare(y);
                    ev += ",\"a\":" + std::to_string(a) + ",\"b\":" + std::to_string(b) + ",\"c\":" + std::to_string((c > 0) - (c < 0));
                    int m = cmpabs(x, y);
                    ev += ",\"m\":" + std::to_string((m > 0) - (m < 0));
                    ev += std::string(",\"r\":[") + (x == y ? "1" : "0") + (x != y ? ",1" : ",0") + (x < y ? ",1" : ",0") + (x <= y ? ",1" : ",0") +
                          (x > y ? ",1" : ",0") + (x >= y ? ",1" : ",0") + "],\"h\":" + (std::hash<Rational>{}(x) == std::hash<Rational>{}(y) ? "true" : "false") + "}";
                    write(ev);
                    continue;
                }
                if (op == "info")
                {
                    in >> a;
                    auto& x = r[a];
                    ev += ",\"a\":" + std::to_string(a) + ",\"int\":" + (x.isInteger() ? "true" : "false") + ",\"sgn\":" + std::to_string((x.sign() > 0) - (x.sign() < 0)) +
                          ",\"zero\":" + (x.isZero() ? "true" : "false") + ",\"one\":" + (x.isOne() ? "true" : "false") + ",\"str\":" + quote(x.get_str()) +
                          ",\"neg\":" + (isNegative(x) ? "true" : "false") + ",\"pos\":" + (isPositive(x) ? "true" : "false") +
                          ",\"nn\":" + (isNonNegative(x) ? "true" : "false") + ",\"np\":" + (isNonPositive(x) ? "true" : "false") + ",\"t\":" + text(x) + "}";
                    write(ev);
                    continue;
                }
                in >> d;
                ev += ",\"d\":" + std::to_string(d);
                if (op == "parse") { in >> t; ev += ",\"s\":" + quote(t); write(ev); r[d] = Rational(t.c_str()); }
                else if (op == "int") { in >> t; ev += ",\"s\":" + quote(t); write(ev); r[d] = Rational(std::stoi(t)); }
                else if (op == "uint") { in >> t; ev += ",\"s\":" + quote(t); write(ev); r[d] = Rational(static_cast<uint32_t>(std::stoul(t))); }
                else if (op == "make")
                {
                    std::string u;
                    in >> t >> u;
                    ev += ",\"s\":" + quote(t) + ",\"u\":" + quote(u);
                    write(ev);
                    r[d] = Rational(static_cast<int>(std::stol(t)), static_cast<unsigned>(std::stoul(u)));
                }
                else
                {
                    in >> a;
                    ev += ",\"a\":" + std::to_string(a);
                    if (op == "add" || op == "sub" || op == "mul" || op == "div" || op == "gcd" || op == "lcm" || op == "fdiv" || op == "exact" || op == "mod") { in >> b; ev += ",\"b\":" + std::to_string(b); }
                    write(ev);
                    if (op == "add") { r[d] = r[a] + r[b]; }
                    if (op == "sub") { r[d] = r[a] - r[b]; }
                    if (op == "mul") { r[d] = r[a] * r[b]; }
                    if (op == "div") { r[d] = r[a] / r[b]; }
                    if (op == "addto") { r[d] += r[a]; }
                    if (op == "subto") { r[d] -= r[a]; }
                    if (op == "multo") { r[d] *= r[a]; }
                    if (op == "divto") { r[d] /= r[a]; }
                    if (op == "neg") { r[d] = -r[a]; }
                    if (op == "negate") { Rational q{r[a]}; q.negate(); r[d] = q; }
                    if (op == "inv") { r[d] = r[a].inv(); }
                    if (op == "inverse") { r[d] = r[a].inverse(); }
                    if (op == "floor") { r[d] = r[a].floor(); }
                    if (op == "ceil") { r[d] = r[a].ceil(); }
                    if (op == "num") { r[d] = r[a].numerator(); }
                    if (op == "den") { r[d] = r[a].denominator(); }
                    if (op == "copy") { r[d] = r[a]; }
                    if (op == "move") { Rational q{r[a]}; r[d] = std::move(q); }
                    if (op == "gcd") { r[d] = gcd(r[a], r[b]); }
                    if (op == "lcm") { r[d] = lcm(r[a], r[b]); }
                    if (op == "fdiv") { r[d] = fastrat_fdiv_q(r[a], r[b]); }
                    if (op == "exact") { r[d] = divexact(r[a], r[b]); }
                    if (op == "mod") { r[d] = r[a] % r[b]; }
                    if (op == "abs") { r[d] = abs(r[a]); }
                    if (op == "round") { r[d] = fastrat_round_to_int(r[a]); }
                    if (op == "common") { r[d] = get_multiplicand(std::vector<Rational>(std::begin(r), std::begin(r) + a + 1)); }
                    if (op == "swap") { std::swap(r[d], r[a]); }
                }
                write(",\"t\":" + text(r[d]) + "}");
            }
        }, cpu, ending);
        std::string tail;
        auto pos = out.find("\n!exception ");
        if (pos != std::string::npos) { out = out.substr(0, pos); ending = "error"; }
        if (!ending.empty())
        {
            // cut the operation that did not finish
            if (!out.empty() && out.back() != '}') { out += ",\"t\":\"\"}"; }
            tail = std::string(out.empty() ? "" : ",") + "{\"op\":\"end\",\"how\":\"" + ending + "\"}";
        }
        std::cout << "{\"id\":" << quote(id) << ",\"ev\":[" << out << tail << "]}\n";
    }
}
