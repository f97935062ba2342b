// The term manager. Input: P id / operations / END. Every operation which makes a term appends a register.
//   var name Real|Bool         a constant
//   num int frac               the decimal int.frac, or int when frac is "-"
//   fun name Real|Bool a b ..  an uninterpreted function with argument sorts
//   op name r ..               mk_term(name, registers)
//   app name r ..              application of a function
//   subst r x t ..             register r with the variables (registers) x replaced by t
//   again                      write all registers once more
#include "trace_common.h"
#include "Term_manager.h"
#include "Terms.h"
#include "Term_rewriter.h"
#include <map>
using namespace yaga;
using namespace yaga::terms;
using namespace verif;

struct Dumper {
    Term_manager& tm;
    std::map<int, std::string> var_name;
    int budget = 0;

    std::string nary(std::string const& k, std::span<term_t const> args)
    {
        std::string s = "{\"k\":\"" + k + "\",\"a\":[";
        bool f = true;
        for (auto a : args) { s += (f ? "" : ",") + dump(a); f = false; }
        return s + "]}";
    }
    std::string zero() { return "{\"k\":\"num\",\"v\":\"0\"}"; }
    std::string name_of(term_t t)
    {
        auto it = var_name.find(t.x);
        return it == var_name.end() ? "?" : it->second;
    }
    std::string dump(term_t t)
    {
        if (--budget < 0) { return "{}"; }
        if (tm.get_type(t) == types::bool_type && tm.is_negated(t))
        {
            auto p = tm.positive_term(t);
            if (p == true_term) { return "{\"k\":\"false\"}"; }
            return "{\"k\":\"not\",\"a\":[" + dump(p) + "]}";
        }
        auto args = tm.get_args(t);
        bool real = tm.get_type(t) == types::real_type;
        switch (tm.get_kind(t))
        {
        case Kind::CONSTANT_TERM: return t == true_term ? "{\"k\":\"true\"}" : "{\"k\":\"?const\"}";
        case Kind::ARITH_CONSTANT: return "{\"k\":\"num\",\"v\":" + quote(rat(tm.arithmetic_constant_value(t))) + "}";
        case Kind::UNINTERPRETED_TERM: return "{\"k\":\"var\",\"n\":" + quote(name_of(t)) + "}";
        case Kind::ITE_TERM: return nary(real ? "iter" : "iteb", args);
        case Kind::APP_TERM:
        {
            std::string s = "{\"k\":\"app\",\"n\":" + quote(name_of(tm.get_fnc_symbol(t))) + ",\"a\":[";
            bool f = true;
            for (auto a : args) { s += (f ? "" : ",") + dump(a); f = false; }
            return s + "]}";
        }
        case Kind::EQ_TERM: return nary("eqb", args);
        case Kind::DISTINCT_TERM: return nary("disb", args);
        case Kind::OR_TERM: return nary("or", args);
        case Kind::XOR_TERM: return nary("xor", args);
        case Kind::ARITH_EQ_ATOM: return "{\"k\":\"eqr\",\"a\":[" + dump(args[0]) + "," + zero() + "]}";
        case Kind::ARITH_GE_ATOM: return "{\"k\":\"ge\",\"a\":[" + dump(args[0]) + "," + zero() + "]}";
        case Kind::ARITH_BINEQ_ATOM: return nary("eqr", args);
        case Kind::ARITH_PRODUCT:
            return "{\"k\":\"mul\",\"a\":[{\"k\":\"num\",\"v\":" + quote(rat(tm.coeff_of_product(t))) + "}," + dump(tm.var_of_product(t)) + "]}";
        case Kind::ARITH_POLY: return nary("add", args);
        default: return "{\"k\":\"?kind\"}";
        }
    }
    // what the term is made of, one level deep
    std::string shape(term_t t)
    {
        auto p = tm.get_type(t) == types::bool_type ? tm.positive_term(t) : t;
        auto k = tm.get_kind(p);
        std::string s = std::to_string(static_cast<int>(k)) + ":" + std::to_string(tm.get_type(p));
        if (k == Kind::UNINTERPRETED_TERM || k == Kind::CONSTANT_TERM) { return s + "#" + std::to_string(p.x); }
        if (k == Kind::ARITH_CONSTANT) { return s + "=" + rat(tm.arithmetic_constant_value(p)); }
        if (k == Kind::ARITH_PRODUCT) { return s + "=" + rat(tm.coeff_of_product(p)) + "*" + std::to_string(tm.var_of_product(p).x); }
        if (k == Kind::APP_TERM) { s += "@" + std::to_string(tm.get_fnc_symbol(p).x); }
        for (auto a : tm.get_args(p)) { s += "," + std::to_string(a.x); }
        return s;
    }
    std::string text(term_t t)
    {
        budget = 150;
        auto d = dump(t);
        bool isb = tm.get_type(t) == types::bool_type;
        return "\"t\":" + std::to_string(t.x) + ",\"p\":" + std::to_string(isb ? tm.positive_term(t).x : t.x)
             + ",\"neg\":" + (isb && tm.is_negated(t) ? "true" : "false")
             + ",\"s\":\"" + (isb ? "Bool" : tm.get_type(t) == types::real_type ? "Real" : "?") + "\",\"full\":" + (budget >= 0 ? "true" : "false")
             + ",\"shape\":" + quote(shape(t)) + ",\"d\":" + (budget >= 0 ? d : "{\"k\":\"big\"}");
    }
};

int main(int argc, char** argv)
{
    int cpu = argc > 1 ? atoi(argv[1]) : 10;
    std::string line, id;
    std::vector<std::string> lines;
    while (std::getline(std::cin, line))
    {
        if (line.starts_with("P ")) { id = line.substr(2); lines.clear(); continue; }
        if (line != "END") { lines.push_back(line); continue; }
        std::string ending;
        auto out = run_isolated([&](auto write) {
            Term_manager tm;
            Dumper d{tm};
            std::vector<term_t> regs;
            std::map<std::string, type_t> ret;
            auto sort = [](std::string const& s) { return s == "Bool" ? types::bool_type : types::real_type; };
            bool first = true;
            for (auto const& l : lines)
            {
                std::istringstream in(l);
                std::string op, name, s, f;
                in >> op;
                std::string ev = std::string(first ? "" : ",") + "{\"op\":\"" + op + "\"";
                first = false;
                std::vector<int> a;
                auto read_args = [&] { int r; while (in >> r) { a.push_back(r); } };
                auto arg_text = [&] {
                    std::string x = ",\"a\":[";
                    for (std::size_t i = 0; i < a.size(); ++i) { x += (i ? "," : "") + std::to_string(a[i] + 1); }
                    return x + "]";
                };
                auto args = [&](std::size_t from) {
                    std::vector<term_t> x;
                    for (std::size_t i = from; i < a.size(); ++i) { x.push_back(regs[a[i]]); }
                    return x;
                };
                if (op == "var")
                {
                    in >> name >> s;
                    write(ev + ",\"n\":" + quote(name) + ",\"sort\":" + quote(s));
                    auto t = tm.mk_uninterpreted_constant(sort(s));
                    tm.set_term_name(t, name);
                    d.var_name[t.x] = name;
                    regs.push_back(t);
                    auto back = tm.get_term_by_name(name);
                    auto nm = tm.get_term_name(t);
                    ev = "," + d.text(t) + ",\"byname\":" + std::to_string(back ? back->x : -1) + ",\"named\":" + quote(nm ? std::string(*nm) : "");
                }
                if (op == "num")
                {
                    in >> s >> f;
                    write(ev + ",\"i\":" + quote(s) + ",\"f\":" + quote(f == "-" ? "" : f));
                    auto t = f == "-" ? tm.mk_integer_constant(s) : tm.mk_rational_constant(s + "." + f);
                    regs.push_back(t);
                    ev = "," + d.text(t);
                }
                if (op == "fun")
                {
                    in >> name >> s;
                    auto t = tm.mk_uninterpreted_constant(sort(s));
                    tm.set_term_name(t, name);
                    d.var_name[t.x] = name;
                    ret[name] = sort(s);
                    ev += ",\"n\":" + quote(name) + ",\"sort\":" + quote(s) + ",\"as\":[";
                    bool ff = true;
                    while (in >> f) { ev += (ff ? "" : ",") + quote(f); ff = false; }
                    ev += "]";
                }
                if (op == "op" || op == "app")
                {
                    in >> name;
                    read_args();
                    write(ev + ",\"n\":" + quote(name) + arg_text());
                    auto x = args(0);
                    auto t = op == "op" ? tm.mk_term(name, x, true) : tm.mk_app(name, ret[name], x);
                    regs.push_back(t);
                    ev = "," + d.text(t);
                }
                if (op == "subst")
                {
                    read_args();
                    write(ev + arg_text());
                    subst_map_t map;
                    for (std::size_t i = 1; i + 1 < a.size(); i += 2) { map.insert({regs[a[i]], regs[a[i + 1]]}); }
                    auto t = simultaneous_variable_substitution(tm, map, regs[a[0]]);
                    regs.push_back(t);
                    ev = "," + d.text(t);
                }
                if (op == "again")
                {
                    ev += ",\"all\":[";
                    for (std::size_t i = 0; i < regs.size(); ++i) { ev += std::string(i ? "," : "") + "{" + d.text(regs[i]) + "}"; }
                    ev += "]";
                }
                write(ev + "}");
            }
        }, cpu, ending);
        std::string tail;
        auto pos = out.find("\n!exception ");
        if (pos != std::string::npos) { out = out.substr(0, pos); ending = "error"; }
        if (!ending.empty())
        {
            if (!out.empty() && out.back() != '}') { out = out.substr(0, out.rfind("{\"op\"")); if (!out.empty()) { out.pop_back(); } }
            tail = std::string(out.empty() ? "" : ",") + "{\"op\":\"end\",\"how\":\"" + ending + "\"}";
        }
        std::cout << "{\"id\":" << quote(id) << ",\"ev\":[" << out << tail << "]}\n";
    }
}
