// Runs the real solver on problems read from stdin and records every externally visible step of the
// search as one JSON line per problem. Input (one item per line):
//   P <id> <key=value>...      start of a problem
//   NB n / NR n                number of Boolean / rational variables
//   L <pred> <rhs> <var> <coef> <var> <coef> ...    linear constraint, referred to as l1, l2, ...
//   C <lit>...                 clause; literals b1 -b1 l1 -l1
//   T <smt-lib text on one line>      script text (declarations, assertions, check-sat)
//   CHK                        check (not in script mode)
//   END
#include <fstream>
#include <map>
#include <set>
#include <cmath>
#include <random>
#include "trace_common.h"
#include "Yaga.h"
#include "First_unassigned.h"
#include "parser/Parser_context.h"
#include "parser/Smt2_term_parser.h"
#include "parser/smt2_lexer.h"
#include "Term_manager.h"

using namespace yaga;
using namespace verif;

struct Config {
    std::string id, logic = "lra", order = "vsids", phase = "positive", restart = "none";
    bool prop_rational = false, deduce = false;
    int max_events = 20000, cmp = 1, dump = 1;
    int cut = 0;                // end after this many events
    int jumps = 0;              // number of random backjumps that are made in place of decisions
    int jump_rate = 0;          // how often, in percent of the decisions
    int flip_rate = 0;          // how often a Boolean decision gets a random value
    unsigned seed = 1;
    std::map<std::string, std::string> kv;
};

struct Recorder {
    Config const& cfg;
    std::function<void(std::string const&)> write;
    bool first = true;
    long events = 0;
    Yaga* yaga = nullptr;
    Solver* solver = nullptr;
    Linear_arithmetic* lra = nullptr;
    Uninterpreted_functions* uf = nullptr;
    Evsids* evsids = nullptr;
    Generalized_vsids* gvsids = nullptr;
    terms::Term_manager* tm = nullptr;
    std::size_t seen = 0;       // entries of the current level already reported
    int known_bool = 0;         // Boolean variables already reported
    std::vector<int> equalities; // those that stand for equations
    bool after_back = false;    // a backtrack/restart has been announced
    bool in_conflict = false;
    long decisions = 0;
    std::mt19937 rng;
    int jumps = 0;
    Event_listener* theory = nullptr;
    Variable_order* order = nullptr;

    bool chance(int percent) { return static_cast<int>(rng() % 100) < percent; }

    // undo some levels although the search has no reason to do so
    bool jump()
    {
        auto& t = solver->trail();
        if (jumps >= cfg.jumps || t.decision_level() == 0 || !chance(cfg.jump_rate)) { return false; }
        ++jumps;
        jump_to(static_cast<int>(rng() % t.decision_level()));
        return true;
    }
    void jump_to(int to)
    {
        auto& t = solver->trail();
        theory->on_before_backtrack(solver->db(), t, to);
        order->on_before_backtrack(solver->db(), t, to);
        t.backtrack(to);
        seen = t.recent().size();
        emit("{\"e\":\"jump\",\"to\":" + std::to_string(to) + ",\"st\":" + state() + "}");
    }
    // forget a conflict: undo so much that each of the clauses has an unassigned literal again
    bool forget(std::vector<Clause> const& conflicts)
    {
        auto& t = solver->trail();
        int top = t.decision_level();
        for (auto const& c : conflicts)
        {
            int level = 0;
            for (auto l : c) { level = std::max(level, t.decision_level(l.var()).value_or(0)); }
            top = std::min(top, level);
        }
        if (top == 0 || jumps >= cfg.jumps || !chance(2 * cfg.jump_rate)) { return false; }
        ++jumps;
        jump_to(static_cast<int>(rng() % top));
        return true;
    }

    void emit(std::string const& s)
    {
        write((first ? "" : ",\n") + s);
        first = false;
        ++events;
        if (cfg.cut > 0 && events >= cfg.cut) { _exit(0); } // enough of this search
        if (events > cfg.max_events)
        {
            write(",\n{\"e\":\"stuck\"}");
            _exit(0);
        }
    }

    bool has_real() { return cfg.logic != "prop"; }
    Model<bool>& bm() { return solver->trail().model<bool>(Variable::boolean); }
    Model<Rational>& rm() { return solver->trail().model<Rational>(Variable::rational); }

    std::string value(Variable v)
    {
        if (v.type() == Variable::boolean)
        {
            return bm().is_defined(v.ord()) ? (bm().value(v.ord()) ? "1" : "0") : "";
        }
        return rm().is_defined(v.ord()) ? rat(rm().value(v.ord())) : "";
    }

    std::string cons_json(int b)
    {
        auto c = lra->constraint(Literal{b});
        std::string s = "{\"b\":" + std::to_string(b + 1) + ",\"n\":" + (c.lit().is_negation() ? "true" : "false") + ",\"v\":[";
        bool f = true;
        for (auto v : c.vars()) { s += (f ? "" : ",") + std::to_string(v + 1); f = false; }
        s += "],\"c\":[";
        f = true;
        for (auto v : c.coef()) { s += (f ? "" : ",") + quote(rat(v)); f = false; }
        s += "],\"p\":\"";
        s += c.pred() == Order_predicate::eq ? "eq" : c.pred() == Order_predicate::lt ? "lt" : "leq";
        // the constraint of a literal and of its negation
        bool both = c.lit() == Literal{b} && lra->constraint(~Literal{b}).lit() == ~Literal{b};
        return s + "\",\"r\":" + quote(rat(c.rhs())) + ",\"both\":" + (both ? "true" : "false") + "}";
    }

    // constraints of Boolean variables which have not been reported yet
    std::string new_cons()
    {
        std::string s = "[";
        bool f = true;
        int n = static_cast<int>(bm().num_vars());
        for (; known_bool < n; ++known_bool)
        {
            if (lra && !lra->constraint(known_bool).empty())
            {
                s += (f ? "" : ",") + cons_json(known_bool);
                f = false;
                if (lra->constraint(known_bool).pred() == Order_predicate::eq) { equalities.push_back(known_bool); }
            }
        }
        return s + "]";
    }

    // every constraint as it is now
    std::string all_cons()
    {
        std::string s = "[";
        bool f = true;
        int n = static_cast<int>(bm().num_vars());
        for (int b = 0; b < n; ++b)
        {
            if (lra && !lra->constraint(b).empty()) { s += (f ? "" : ",") + cons_json(b); f = false; }
        }
        return s + "]";
    }

    std::string state()
    {
        auto& t = solver->trail();
        std::string s = "{\"dl\":" + std::to_string(t.decision_level()) + ",\"tr\":[";
        for (int l = 0; l <= t.decision_level(); ++l)
        {
            s += l ? ",[" : "[";
            bool f = true;
            for (auto [var, _] : t.assigned(l)) { s += (f ? "" : ",") + std::to_string(code(var)); f = false; }
            s += "]";
        }
        s += "]";
        for (auto type : {Variable::boolean, Variable::rational})
        {
            bool b = type == Variable::boolean;
            int n = b ? static_cast<int>(bm().num_vars()) : has_real() ? static_cast<int>(rm().num_vars()) : 0;
            std::string vals, lvs, rs;
            for (int i = 0; i < n; ++i)
            {
                Variable v{i, type};
                vals += (i ? "," : "") + quote(value(v));
                lvs += (i ? "," : "") + std::to_string(t.decision_level(v).value_or(-1));
                if (b) { rs += (i ? "," : "") + (t.reason(v) ? json(*t.reason(v)) : "[]"); }
            }
            s += std::string(b ? ",\"bv\":[" : ",\"rv\":[") + vals + (b ? "],\"bl\":[" : "],\"rl\":[") + lvs + "]";
            if (b) { s += ",\"br\":[" + rs + "]"; }
        }
        return s + "}";
    }

    std::string assignment_json(Trail::Assignment const& a)
    {
        auto& t = solver->trail();
        return "{\"x\":" + std::to_string(code(a.var)) + ",\"v\":" + quote(value(a.var)) + ",\"l\":" +
               std::to_string(t.decision_level(a.var).value_or(-1)) + ",\"r\":" +
               (a.reason ? json(*a.reason) : "[]") + "}";
    }

    // entries added to the current level since the last report
    std::string added()
    {
        auto const& list = solver->trail().recent();
        std::string s = "[";
        bool f = true;
        for (; seen < list.size(); ++seen)
        {
            s += (f ? "" : ",") + assignment_json(list[seen]);
            f = false;
        }
        return s + "]";
    }

    std::string app_arg(terms::term_t a)
    {
        auto const& reals = yaga->real_vars();
        auto const& bools = yaga->bool_vars();
        if (tm->get_type(a) == terms::types::bool_type)
        {
            if (a == terms::true_term) { return "{\"s\":\"T\"}"; }
            if (a == terms::false_term) { return "{\"s\":\"F\"}"; }
            for (auto const& [term, l] : bools)
            {
                if (term == tm->positive_term(a))
                {
                    return "{\"s\":\"B\",\"l\":" + std::to_string(code(tm->is_negated(a) ? ~l : l)) + "}";
                }
            }
            return "{\"s\":\"?\"}";
        }
        std::string vs, cs, k = "0";
        auto add = [&](terms::term_t var, Rational const& c) {
            for (auto const& [term, v] : reals)
            {
                if (term == var)
                {
                    vs += (vs.empty() ? "" : ",") + std::to_string(v + 1);
                    cs += (cs.empty() ? "" : ",") + quote(rat(c));
                }
            }
        };
        auto mono = [&](terms::term_t t) {
            if (tm->get_kind(t) == terms::Kind::ARITH_CONSTANT) { k = rat(tm->arithmetic_constant_value(t)); }
            else if (tm->get_kind(t) == terms::Kind::ARITH_PRODUCT) { add(tm->var_of_product(t), tm->coeff_of_product(t)); }
            else { add(t, Rational{1}); }
        };
        if (tm->get_kind(a) == terms::Kind::ARITH_POLY) { for (auto m : tm->get_args(a)) { mono(m); } }
        else { mono(a); }
        return "{\"s\":\"R\",\"v\":[" + vs + "],\"c\":[" + cs + "],\"k\":" + quote(k) + "}";
    }

    std::string apps()
    {
        std::string s = "[";
        bool f = true;
        if (uf && tm)
        {
            auto one = [&](terms::term_t t, std::string const& res) {
                s += std::string(f ? "" : ",") + "{\"f\":" + std::to_string(tm->get_fnc_symbol(t).x) + ",\"a\":[";
                f = false;
                bool g = true;
                for (auto a : tm->get_args(t)) { s += (g ? "" : ",") + app_arg(a); g = false; }
                s += "],\"r\":" + res + "}";
            };
            for (auto const& [t, v] : yaga->real_vars())
            {
                if (tm->is_app(t)) { one(t, "{\"s\":\"R\",\"v\":[" + std::to_string(v + 1) + "],\"c\":[\"1\"],\"k\":\"0\"}"); }
            }
            for (auto const& [t, l] : yaga->bool_vars())
            {
                if (tm->is_app(t)) { one(t, "{\"s\":\"B\",\"l\":" + std::to_string(code(l)) + "}"); }
            }
        }
        return s + "]";
    }

    // called whenever the solver reports in: accounts for what happened since the last event
    void sync()
    {
        if (after_back)
        {
            after_back = false;
            in_conflict = false;
            seen = solver->trail().recent().size();
            emit("{\"e\":\"resume\",\"st\":" + state() + "}");
        }
    }

    void init()
    {
        sync();
        known_bool = 0;
        seen = solver->trail().recent().size();
        int nb = bm().num_vars(), nr = has_real() ? rm().num_vars() : 0;
        emit("{\"e\":\"init\",\"nb\":" + std::to_string(nb) + ",\"nr\":" + std::to_string(nr) + ",\"cl\":" +
             json_clauses(solver->db().asserted()) + ",\"ln\":" + json_clauses(solver->db().learned()) +
             ",\"cons\":" + new_cons() + ",\"app\":" + apps() + ",\"st\":" + state() + "}");
    }

    void propagated(char const* who, std::vector<Clause> const& conflicts)
    {
        auto nw = new_cons();
        auto add = added();
        if (add != "[]" || nw != "[]")
        {
            emit(std::string("{\"e\":\"prop\",\"w\":\"") + who + "\",\"add\":" + add + ",\"new\":" + nw + "}");
        }
        if (!conflicts.empty())
        {
            in_conflict = true;
            emit(std::string("{\"e\":\"confl\",\"w\":\"") + who + "\",\"cl\":" + json_clauses(conflicts) + "}");
        }
    }

    std::string bound_json(Implied_value<Rational> const* b)
    {
        if (!b) { return "{\"v\":\"\",\"s\":false}"; }
        return "{\"v\":" + quote(rat(b->value())) + ",\"s\":" + (b->is_strict() ? "true" : "false") + "}";
    }

    // values at which some equality in no other unassigned variable would hold
    std::vector<Rational> interesting(int var)
    {
        std::vector<Rational> out;
        for (int b : equalities)
        {
            auto c = lra->constraint(Literal{b});
            Rational left = c.rhs(), mult{0};
            bool unit = true;
            auto coef = c.coef().begin();
            for (auto v : c.vars())
            {
                if (v == var) { mult += *coef; }
                else if (rm().is_defined(v)) { left -= *coef * rm().value(v); }
                else { unit = false; }
                ++coef;
            }
            if (!unit || mult == Rational{0}) { continue; }
            left /= mult;
            if (std::find(out.begin(), out.end(), left) == out.end()) { out.push_back(left); }
            if (out.size() >= 4) { break; }
        }
        return out;
    }

    std::string bounds()
    {
        std::string s = "[";
        if (lra)
        {
            auto models = lra->relevant_models(solver->trail());
            for (int i = 0; i < static_cast<int>(rm().num_vars()); ++i)
            {
                std::string lb = "{\"v\":\"\",\"s\":false}", ub = lb, ne;
                if (!rm().is_defined(i))
                {
                    // asking for a bound removes obsolete ones: leave the bounds of the solver alone
                    auto b = lra->find_bounds(i);
                    lb = bound_json(b.lower_bound(models));
                    ub = bound_json(b.upper_bound(models));
                    for (auto const& q : interesting(i))
                    {
                        ne += (ne.empty() ? "{\"v\":" : ",{\"v\":") + quote(rat(q)) + ",\"ok\":" + (b.is_allowed(models, q) ? "true" : "false") + "}";
                    }
                }
                s += std::string(i ? "," : "") + "{\"lb\":" + lb + ",\"ub\":" + ub + ",\"ne\":[" + ne + "]}";
            }
        }
        return s + "]";
    }

    static std::string float_rat(float f)
    {
        int e = 0;
        double m = std::frexp(static_cast<double>(f), &e);
        mpz_class n(static_cast<double>(std::ldexp(m, 24)));
        e -= 24;
        mpq_class q(n);
        if (e >= 0) { q *= mpq_class(mpz_class(1) << e); } else { q /= mpq_class(mpz_class(1) << -e); }
        return q.get_str();
    }

    std::string scores()
    {
        std::string s = "[";
        bool f = true;
        if (evsids || gvsids)
        {
            for (int i = 0; i < static_cast<int>(bm().num_vars()); ++i)
            {
                float v = evsids ? evsids->score(i) : gvsids->score(Variable{i, Variable::boolean});
                s += (f ? "" : ",") + quote(float_rat(v));
                f = false;
            }
        }
        s += "],\"rsc\":[";
        f = true;
        if (gvsids)
        {
            for (int i = 0; i < static_cast<int>(rm().num_vars()); ++i)
            {
                s += (f ? "" : ",") + quote(float_rat(gvsids->score(Variable{i, Variable::rational})));
                f = false;
            }
        }
        return s + "]";
    }

    void before_decide(Variable var)
    {
        ++decisions;
        bool full = cfg.cmp > 0 && decisions % cfg.cmp == 0;
        emit("{\"e\":\"pick\",\"x\":" + std::to_string(code(var)) + ",\"full\":" + (full ? "true" : "false") +
             (full ? ",\"bd\":" + bounds() + ",\"sc\":" + scores() + ",\"st\":" + state()
                   : ",\"bd\":[],\"sc\":[],\"rsc\":[]") + "}");
    }

    void after_decide(int old_level, std::size_t old_size)
    {
        auto& t = solver->trail();
        // everything that was assigned by the decision
        std::string s = "[";
        bool f = true;
        if (t.decision_level() > old_level)
        {
            for (int l = old_level + 1; l <= t.decision_level(); ++l)
            {
                for (auto const& a : t.assigned(l)) { s += (f ? "" : ",") + assignment_json(a); f = false; }
            }
        }
        else
        {
            auto const& list = t.recent();
            for (auto i = old_size; i < list.size(); ++i) { s += (f ? "" : ",") + assignment_json(list[i]); f = false; }
        }
        seen = t.recent().size();
        emit("{\"e\":\"dec\",\"dl\":" + std::to_string(t.decision_level()) + ",\"add\":" + s + "],\"new\":" + new_cons() + "}");
    }

    // decide a Boolean variable with a random value
    bool flipped(Trail& trail, Variable var)
    {
        if (var.type() != Variable::boolean || !chance(cfg.flip_rate)) { return false; }
        bool v = chance(50);
        trail.decide(var);
        trail.model<bool>(Variable::boolean).set_value(var.ord(), v);
        return true;
    }

    void finished(Solver::Result r)
    {
        sync();
        if (r == Solver::Result::sat)
        {
            emit("{\"e\":\"sat\",\"bd\":" + bounds() + ",\"st\":" + state() + ",\"fm\":" + function_model() + ",\"cons\":" + all_cons() + "}");
        }
        else { emit("{\"e\":\"unsat\",\"cons\":" + all_cons() + "}"); }
        in_conflict = false;
    }

    std::string fm_value(terms::var_value_t const& v)
    {
        if (std::holds_alternative<bool>(v)) { return quote(std::get<bool>(v) ? "true" : "false"); }
        return quote(rat(std::get<Rational>(v)));
    }
    std::string function_model()
    {
        std::string s = "[";
        auto fm = yaga->get_function_model();
        bool f = true;
        if (uf && fm)
        {
            for (auto const& [sym, vals] : *fm)
            {
                for (auto const& [args, res] : vals)
                {
                    s += std::string(f ? "" : ",") + "{\"f\":" + std::to_string(sym.x) + ",\"a\":[";
                    f = false;
                    bool g = true;
                    for (auto const& a : args) { s += (g ? "" : ",") + fm_value(a); g = false; }
                    s += "],\"r\":" + fm_value(res) + "}";
                }
            }
        }
        return s + "]";
    }
};

static Recorder* rec;

template <class Base> struct Traced : Base {
    char const* name;
    bool top;
    template <class... A> Traced(char const* name, bool top, A&&... a) : Base(std::forward<A>(a)...), name(name), top(top) {}
    std::vector<Clause> propagate(Database& db, Trail& trail) override
    {
        rec->sync();
        for (;;)
        {
            auto conflicts = Base::propagate(db, trail);
            rec->propagated(name, conflicts);
            if (!top || conflicts.empty() || !rec->forget(conflicts)) { return conflicts; }
        }
    }
    void decide(Database& db, Trail& trail, Variable var) override
    {
        if (!top) { Base::decide(db, trail, var); return; }
        if (rec->jump()) { return; }
        int level = trail.decision_level();
        auto size = trail.recent().size();
        rec->before_decide(var);
        if (!rec->flipped(trail, var)) { Base::decide(db, trail, var); }
        rec->after_decide(level, size);
    }
};

// the combination itself: reports decisions and what it returns to the search loop
struct Traced_combination : Theory_combination {
    std::vector<Clause> propagate(Database& db, Trail& trail) override
    {
        rec->sync();
        for (;;)
        {
            auto conflicts = Theory_combination::propagate(db, trail);
            rec->emit("{\"e\":\"fix\",\"n\":" + std::to_string(conflicts.size()) + "}");
            if (conflicts.empty() || !rec->forget(conflicts)) { return conflicts; }
        }
    }
    void decide(Database& db, Trail& trail, Variable var) override
    {
        if (rec->jump()) { return; }
        int level = trail.decision_level();
        auto size = trail.recent().size();
        rec->before_decide(var);
        if (!rec->flipped(trail, var)) { Theory_combination::decide(db, trail, var); }
        rec->after_decide(level, size);
    }
};

// a restart policy which records the other events of the search
struct Traced_restart : Restart {
    std::unique_ptr<Restart> inner;
    bool cfg_free = false; // no bound on restarts
    mutable int restarts = 0;
    void on_init(Database& d, Trail& t) override { inner->on_init(d, t); rec->init(); }
    void on_variable_resize(Variable::Type ty, int n) override { inner->on_variable_resize(ty, n); }
    void on_before_backtrack(Database& d, Trail& t, int level) override
    {
        inner->on_before_backtrack(d, t, level);
        if (level < 0) { return; } // preparation of a new check
        rec->emit("{\"e\":\"back\",\"to\":" + std::to_string(level) + "}");
        rec->after_back = true;
    }
    void on_learned_clause(Database& d, Trail& t, Clause const& c) override
    {
        inner->on_learned_clause(d, t, c);
        rec->emit("{\"e\":\"learn\",\"c\":" + json(c) + "}");
    }
    void on_conflict_resolved(Database& d, Trail& t, Clause const& c) override
    {
        inner->on_conflict_resolved(d, t, c);
        rec->emit("{\"e\":\"res\",\"c\":" + json(c) + "}");
    }
    void on_restart(Database& d, Trail& t) override
    {
        inner->on_restart(d, t);
        rec->emit("{\"e\":\"restart\",\"cl\":" + json_clauses(d.asserted()) + ",\"ln\":" + json_clauses(d.learned()) + "}");
    }
    bool should_restart() const override
    {
        // frequent restarts can repeat a search that undoes real decisions for ever: bound their number
        bool r = inner->should_restart() && (cfg_free || restarts < 25);
        restarts += r;
        rec->emit(std::string("{\"e\":\"ask\",\"r\":") + (r ? "true" : "false") + "}");
        return r;
    }
};

// first unassigned rational variable, then the first unassigned Boolean variable
struct Reals_first : Variable_order {
    First_unassigned reals{Variable::rational}, bools{Variable::boolean};
    std::optional<Variable> pick(Database& d, Trail& t) override
    {
        auto v = reals.pick(d, t);
        return v ? v : bools.pick(d, t);
    }
    bool is_before(Variable a, Variable b) const override
    {
        return a.type() != b.type() ? a.type() == Variable::rational : a.ord() < b.ord();
    }
};

// any unassigned variable
struct Random_order : Variable_order {
    std::optional<Variable> pick(Database&, Trail& t) override
    {
        std::vector<Variable> free;
        for (auto [type, model] : t.models())
        {
            for (int i = 0; i < static_cast<int>(model->num_vars()); ++i)
            {
                if (!model->is_defined(i)) { free.push_back(Variable{i, type}); }
            }
        }
        if (free.empty()) { return {}; }
        return free[rec->rng() % free.size()];
    }
    bool is_before(Variable a, Variable b) const override
    {
        return (a.ord() * 7919 + 13) % 101 < (b.ord() * 7919 + 13) % 101;
    }
};

struct Random_restart : Restart {
    int percent;
    explicit Random_restart(int n) : percent(n) {}
    bool should_restart() const override { return rec->chance(percent); }
};

struct Every_restart : Restart {
    int every, count = 0;
    explicit Every_restart(int n) : every(n) {}
    void on_learned_clause(Database&, Trail&, Clause const&) override { ++count; }
    void on_restart(Database&, Trail&) override { count = 0; }
    bool should_restart() const override { return count >= every; }
};

struct Traced_setup : Initializer {
    Config const& cfg;
    Recorder& r;
    Traced_setup(Config const& cfg, Recorder& r) : cfg(cfg), r(r) {}
    void setup(Yaga* yaga, Options const& options) const override
    {
        auto& s = yaga->solver();
        r.yaga = yaga;
        r.solver = &s;
        s.trail().set_model<bool>(Variable::boolean, 0);
        Phase phase = cfg.phase == "negative" ? Phase::negative : cfg.phase == "cache" ? Phase::cache : Phase::positive;
        if (cfg.logic == "prop")
        {
            auto& b = s.set_theory<Traced<Bool_theory>>("bool", true);
            b.set_phase(phase);
            r.theory = &b;
        }
        else
        {
            s.trail().set_model<Rational>(Variable::rational, 0);
            auto& comb = s.set_theory<Traced_combination>();
            r.theory = &comb;
            comb.add_theory<Traced<Bool_theory>>("bool", false).set_phase(phase);
            Linear_arithmetic::Options o;
            o.prop_rational = cfg.prop_rational;
            o.prop_bounds = cfg.deduce;
            auto& lra = comb.add_theory<Traced<Linear_arithmetic>>("lra", false);
            lra.set_options(o);
            r.lra = &lra;
            if (cfg.logic == "uf")
            {
                r.uf = &comb.add_theory<Traced<Uninterpreted_functions>>("uf", false, s.tm(), yaga->real_vars(), yaga->bool_vars());
            }
        }
        auto& tr = s.set_restart_policy<Traced_restart>();
        if (cfg.restart == "luby") { tr.inner = std::make_unique<Luby_restart>(); }
        else if (cfg.restart.starts_with("glucose"))
        {
            auto g = std::make_unique<Glucose_restart>();
            if (cfg.restart != "glucose")
            {
                int m, sl, fa; float th;
                sscanf(cfg.restart.c_str(), "glucose:%d:%d:%d:%f", &m, &sl, &fa, &th);
                g->set_min_conflicts(m).set_slow_exp(sl).set_fast_exp(fa).set_threshold(th);
            }
            tr.inner = std::move(g);
        }
        else if (cfg.restart.starts_with("every")) { tr.inner = std::make_unique<Every_restart>(atoi(cfg.restart.c_str() + 6)); }
        else if (cfg.restart.starts_with("random")) { tr.inner = std::make_unique<Random_restart>(atoi(cfg.restart.c_str() + 7)); }
        else { tr.inner = std::make_unique<No_restart>(); }
        tr.cfg_free = cfg.logic == "prop" || cfg.restart == "luby" || cfg.restart == "glucose";

        if (cfg.order == "first") { r.order = &s.set_variable_order<First_unassigned>(); }
        else if (cfg.order == "rfirst") { r.order = &s.set_variable_order<Reals_first>(); }
        else if (cfg.order == "random") { r.order = &s.set_variable_order<Random_order>(); }
        else if (cfg.logic == "prop") { r.order = r.evsids = &s.set_variable_order<Evsids>(); }
        else { r.order = r.gvsids = &s.set_variable_order<Generalized_vsids>(*r.lra); }
    }
};

static Rational parse_rat(std::string const& s) { return Rational(s.c_str()); }

struct Problem { Config cfg; std::vector<std::string> lines; };

static void run_script(Problem const& p, Recorder& r)
{
    using namespace yaga::parser;
    terms::Term_manager tm;
    r.tm = &tm;
    Options opts;
    opts.phase = p.cfg.phase == "negative" ? Phase::negative : p.cfg.phase == "cache" ? Phase::cache : Phase::positive;
    opts.prop_rational = p.cfg.prop_rational;
    opts.deduce_bounds = p.cfg.deduce;
    smt2_lexer lexer;
    Parser_context ctx(tm, opts);
    Smt2_term_parser tp(lexer, ctx);
    std::string text;
    for (auto const& l : p.lines) { if (l[0] == 'T') { text += l.substr(2) + "\n"; } }
    std::istringstream in(text);
    lexer.yyrestart(in);
    Traced_setup setup(p.cfg, r);
    ctx.set_logic(setup);
    std::vector<term_t> assertions;
    while (!lexer.eat_token_choice(Token::EOF_TOK, Token::LPAREN_TOK))
    {
        switch (lexer.next_token())
        {
        case Token::ASSERT_TOK: assertions.push_back(tp.parse_term()); break;
        case Token::DECLARE_CONST_TOK:
        {
            auto n = tp.parse_symbol();
            ctx.declare_uninterpreted_constant(tp.parse_sort(), n);
            break;
        }
        case Token::DECLARE_FUN_TOK:
        {
            auto n = tp.parse_symbol();
            lexer.eat_token(Token::LPAREN_TOK);
            auto sorts = tp.parse_sort_list();
            auto ret = tp.parse_sort();
            if (sorts.empty()) { ctx.declare_uninterpreted_constant(ret, n); }
            else { ctx.declare_uninterpreted_function(ret, std::move(sorts), n); }
            break;
        }
        case Token::DEFINE_FUN_TOK:
        {
            auto n = tp.parse_symbol();
            auto vars = tp.parse_sorted_var_list();
            auto ret = tp.parse_sort();
            ctx.push_binding_scope();
            auto bound = ctx.bind_vars(vars);
            auto body = tp.parse_term();
            ctx.pop_binding_scope();
            ctx.store_defined_fun(n, body, std::move(bound), ret);
            break;
        }
        case Token::CHECK_SAT_TOK:
        {
            r.emit("{\"e\":\"check\"}");
            auto a = ctx.check_sat(assertions);
            if (!r.yaga) { r.emit("{\"e\":\"none\"}"); break; }
            r.finished(a == Solver_answer::SAT ? Solver::Result::sat : Solver::Result::unsat);
            break;
        }
        default: break;
        }
        lexer.eat_token(Token::RPAREN_TOK);
    }
}

static void run_direct(Problem const& p, Recorder& r)
{
    terms::Term_manager tm;
    Options opts;
    std::unordered_map<terms::term_t, int> rm;
    std::unordered_map<terms::term_t, Literal> bm;
    Yaga yaga(tm, std::ranges::views::all(rm), std::ranges::views::all(bm));
    Traced_setup setup(p.cfg, r);
    yaga.set_logic(setup, opts);
    std::vector<Literal> lits;
    for (auto const& l : p.lines)
    {
        std::istringstream in(l);
        std::string op;
        in >> op;
        if (op == "NB") { int n; in >> n; while (n-- > 0) { yaga.make(Variable::boolean); } }
        else if (op == "NR") { int n; in >> n; while (n-- > 0) { yaga.make(Variable::rational); } }
        else if (op == "L")
        {
            std::string pred, rhs, c;
            int v;
            std::vector<int> vars;
            std::vector<Rational> coef;
            in >> pred >> rhs;
            while (in >> v >> c) { vars.push_back(v); coef.push_back(parse_rat(c)); }
            auto pr = pred == "eq" ? Order_predicate::eq : pred == "lt" ? Order_predicate::lt : Order_predicate::leq;
            lits.push_back(yaga.linear_constraint(vars, coef, pr, parse_rat(rhs)));
        }
        else if (op == "C")
        {
            Clause c;
            std::string t;
            while (in >> t)
            {
                bool neg = t[0] == '-';
                if (neg) { t = t.substr(1); }
                int i = std::stoi(t.substr(1));
                Literal x = t[0] == 'l' ? lits[i - 1] : Literal{i - 1};
                c.push_back(neg ? ~x : x);
            }
            yaga.assert_clause(c);
        }
        else if (op == "CHK")
        {
            r.emit("{\"e\":\"check\"}");
            r.finished(yaga.solver().check());
        }
    }
}

int main(int argc, char** argv)
{
    int cpu = argc > 1 ? atoi(argv[1]) : 10;
    std::string line;
    Problem p;
    int slow = 0;
    while (slow < 3 && std::getline(std::cin, line))
    {
        if (line.starts_with("P "))
        {
            p = Problem{};
            std::istringstream in(line.substr(2));
            in >> p.cfg.id;
            std::string kv;
            while (in >> kv)
            {
                auto eq = kv.find('=');
                auto k = kv.substr(0, eq), v = kv.substr(eq + 1);
                p.cfg.kv[k] = v;
                if (k == "logic") { p.cfg.logic = v; }
                if (k == "order") { p.cfg.order = v; }
                if (k == "phase") { p.cfg.phase = v; }
                if (k == "restart") { p.cfg.restart = v; }
                if (k == "prat") { p.cfg.prop_rational = v == "1"; }
                if (k == "ded") { p.cfg.deduce = v == "1"; }
                if (k == "max") { p.cfg.max_events = std::stoi(v); }
                if (k == "cmp") { p.cfg.cmp = std::stoi(v); }
                if (k == "jumps") { p.cfg.jumps = std::stoi(v); }
                if (k == "cut") { p.cfg.cut = std::stoi(v); }
                if (k == "jrate") { p.cfg.jump_rate = std::stoi(v); }
                if (k == "flip") { p.cfg.flip_rate = std::stoi(v); }
                if (k == "seed") { p.cfg.seed = static_cast<unsigned>(std::stoul(v)); }
            }
        }
        else if (line == "END")
        {
            std::string ending;
            auto out = run_isolated([&](auto write) {
                Recorder r{p.cfg, write};
                r.rng.seed(p.cfg.seed);
                rec = &r;
                bool script = std::any_of(p.lines.begin(), p.lines.end(), [](auto const& l) { return l[0] == 'T'; });
                if (script) { run_script(p, r); } else { run_direct(p, r); }
            }, cpu, ending);
            // drop an incomplete last event and describe an abnormal end
            auto pos = out.find("\n!exception ");
            std::string tail;
            if (pos != std::string::npos)
            {
                tail = "{\"e\":\"error\",\"msg\":" + quote(out.substr(pos + 12, out.find('\n', pos + 12) - pos - 12)) + "}";
                out = out.substr(0, pos);
            }
            else if (!ending.empty()) { slow += ending == "timeout"; tail = "{\"e\":\"" + ending + "\"}"; }
            std::string flat;
            for (char c : out) { if (c != '\n') { flat += c; } }
            if (!tail.empty()) { flat += (flat.empty() ? "" : ",") + tail; }
            std::cout << "{\"id\":" << quote(p.cfg.id) << ",\"logic\":\"" << p.cfg.logic << "\",\"order\":\"" << p.cfg.order
                      << "\",\"phase\":\"" << p.cfg.phase << "\",\"flip\":" << (p.cfg.flip_rate > 0 ? "true" : "false") << ",\"restart\":" << quote(p.cfg.restart) << ",\"ded\":"
                      << (p.cfg.deduce ? "true" : "false") << ",\"prat\":" << (p.cfg.prop_rational ? "true" : "false")
                      << ",\"ev\":[" << flat << "]}\n";
            p = Problem{};
        }
        else if (!line.empty()) { p.lines.push_back(line); }
    }
}
