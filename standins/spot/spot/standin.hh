// Stand-in for spot 2.11.3 + bddx (not available offline): the subset of the
// interface that verifypn uses, header only. LTL -> Buchi is a textbook
// tableau (Couvreur-style promises) followed by degeneralisation; BDDs are a
// plain hash-consed ROBDD table. It is part of the test environment, not of
// the code under test.
#ifndef VP_STANDIN_SPOT_HH
#define VP_STANDIN_SPOT_HH
#include <algorithm>
#include <cassert>
#include <deque>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>

// ------------------------------------------------------------------ bddx --
namespace vp_standin {
    struct bdd_table {
        struct node { int var, lo, hi; };
        std::vector<node> nodes{{1 << 30, 0, 0}, {1 << 30, 1, 1}};
        std::map<std::tuple<int, int, int>, int> uniq;
        std::map<std::tuple<int, int, int>, int> ite_cache;
        int mk(int v, int lo, int hi) {
            if (lo == hi) return lo;
            auto k = std::make_tuple(v, lo, hi);
            auto it = uniq.find(k);
            if (it != uniq.end()) return it->second;
            nodes.push_back({v, lo, hi});
            int id = (int)nodes.size() - 1;
            uniq.emplace(k, id);
            return id;
        }
        int ite(int f, int g, int h) {
            if (f == 1) return g;
            if (f == 0) return h;
            if (g == h) return g;
            if (g == 1 && h == 0) return f;
            auto k = std::make_tuple(f, g, h);
            auto it = ite_cache.find(k);
            if (it != ite_cache.end()) return it->second;
            int v = std::min(nodes[f].var, std::min(nodes[g].var, nodes[h].var));
            auto lo = [&](int x) { return nodes[x].var == v ? nodes[x].lo : x; };
            auto hi = [&](int x) { return nodes[x].var == v ? nodes[x].hi : x; };
            int l = ite(lo(f), lo(g), lo(h));
            int r = ite(hi(f), hi(g), hi(h));
            int res = mk(v, l, r);
            ite_cache.emplace(k, res);
            return res;
        }
    };
    inline bdd_table& bdds() { static bdd_table t; return t; }
}

class bdd {
    int _id = 0;
public:
    bdd() = default;
    explicit bdd(int id) : _id(id) {}
    int id() const { return _id; }
    friend bool operator==(const bdd& a, const bdd& b) { return a._id == b._id; }
    friend bool operator!=(const bdd& a, const bdd& b) { return a._id != b._id; }
    friend bool operator<(const bdd& a, const bdd& b) { return a._id < b._id; }
    friend bdd operator&(const bdd& a, const bdd& b) { return bdd(vp_standin::bdds().ite(a._id, b._id, 0)); }
    friend bdd operator|(const bdd& a, const bdd& b) { return bdd(vp_standin::bdds().ite(a._id, 1, b._id)); }
    friend bdd operator-(const bdd& a, const bdd& b) { return bdd(vp_standin::bdds().ite(b._id, 0, a._id)); }
    bdd operator!() const { return bdd(vp_standin::bdds().ite(_id, 0, 1)); }
    bdd& operator&=(const bdd& o) { return *this = *this & o; }
    bdd& operator|=(const bdd& o) { return *this = *this | o; }
    bdd& operator-=(const bdd& o) { return *this = *this - o; }
};
inline const bdd bddfalse{0};
inline const bdd bddtrue{1};
inline bdd bdd_false() { return bdd(0); }
inline bdd bdd_true() { return bdd(1); }
inline bdd bdd_not(const bdd& b) { return !b; }
inline int bdd_var(const bdd& b) { return vp_standin::bdds().nodes[b.id()].var; }
inline bdd bdd_low(const bdd& b) { return bdd(vp_standin::bdds().nodes[b.id()].lo); }
inline bdd bdd_high(const bdd& b) { return bdd(vp_standin::bdds().nodes[b.id()].hi); }
inline bdd bdd_ithvar(int v) { return bdd(vp_standin::bdds().mk(v, 0, 1)); }
inline bdd bdd_nithvar(int v) { return bdd(vp_standin::bdds().mk(v, 1, 0)); }

namespace spot {
    // ---------------------------------------------------------- formulas --
    enum class op : unsigned char {
        ff, tt, eword, ap, Not, X, F, G, Closure, NegClosure, NegClosureMarked,
        Xor, Implies, Equiv, U, R, W, M, EConcat, EConcatMarked, UConcat,
        Or, OrRat, And, AndRat, AndNLM, Concat, Fusion, Star, FStar, first_match, strong_X,
    };

    class formula {
        struct node {
            op kind;
            std::string name;
            std::vector<formula> kids;
            size_t id;
        };
        std::shared_ptr<const node> _n;
        explicit formula(std::shared_ptr<const node> n) : _n(std::move(n)) {}
        using key = std::tuple<op, std::string, std::vector<size_t>>;
        static formula make(op k, std::string name, std::vector<formula> kids) {
            static std::map<key, std::shared_ptr<const node>> table;
            std::vector<size_t> ids;
            for (auto& f : kids) ids.push_back(f._n->id);
            key kk(k, name, ids);
            auto it = table.find(kk);
            if (it != table.end()) return formula(it->second);
            auto n = std::make_shared<const node>(node{k, std::move(name), std::move(kids), table.size() + 1});
            table.emplace(std::move(kk), n);
            return formula(n);
        }
        static formula nary(op k, std::vector<formula> v) {
            const op unit = k == op::And ? op::tt : op::ff;
            const op zero = k == op::And ? op::ff : op::tt;
            std::vector<formula> out;
            std::function<bool(const formula&)> add = [&](const formula& f) {
                if (f.kind() == zero) return false;
                if (f.kind() == unit) return true;
                if (f.kind() == k) {
                    for (auto& c : f._n->kids) if (!add(c)) return false;
                    return true;
                }
                if (std::find(out.begin(), out.end(), f) == out.end()) out.push_back(f);
                return true;
            };
            for (auto& f : v) if (!add(f)) return make(zero, "", {});
            if (out.empty()) return make(unit, "", {});
            if (out.size() == 1) return out[0];
            std::sort(out.begin(), out.end());
            return make(k, "", std::move(out));
        }
    public:
        formula() = default;
        explicit operator bool() const { return (bool)_n; }
        op kind() const { return _n->kind; }
        bool is(op o) const { return _n && _n->kind == o; }
        size_t id() const { return _n ? _n->id : 0; }
        size_t size() const { return _n->kids.size(); }
        formula operator[](size_t i) const { return _n->kids.at(i); }
        const std::string& ap_name() const { return _n->name; }
        auto begin() const { return _n->kids.begin(); }
        auto end() const { return _n->kids.end(); }
        friend bool operator==(const formula& a, const formula& b) { return a._n == b._n; }
        friend bool operator!=(const formula& a, const formula& b) { return a._n != b._n; }
        friend bool operator<(const formula& a, const formula& b) { return a.id() < b.id(); }
        std::ostream& dump(std::ostream& os) const {
            if (!_n) return os << "(null)";
            if (_n->kind == op::ap) return os << '"' << _n->name << '"';
            os << "op" << (int)_n->kind << '(';
            for (auto& k : _n->kids) { k.dump(os); os << ' '; }
            return os << ')';
        }

        static formula tt() { return make(op::tt, "", {}); }
        static formula ff() { return make(op::ff, "", {}); }
        static formula ap(const std::string& s) { return make(op::ap, s, {}); }
        static formula Not(const formula& f) {
            if (f.is(op::Not)) return f[0];
            if (f.is(op::tt)) return ff();
            if (f.is(op::ff)) return tt();
            return make(op::Not, "", {f});
        }
        static formula X(const formula& f) { if (f.is(op::tt) || f.is(op::ff)) return f; return make(op::X, "", {f}); }
        static formula F(const formula& f) { if (f.is(op::tt) || f.is(op::ff) || f.is(op::F)) return f; return make(op::F, "", {f}); }
        static formula G(const formula& f) { if (f.is(op::tt) || f.is(op::ff) || f.is(op::G)) return f; return make(op::G, "", {f}); }
        static formula U(const formula& a, const formula& b) {
            if (b.is(op::tt) || b.is(op::ff) || a.is(op::ff) || a == b) return b;
            if (a.is(op::tt)) return F(b);
            return make(op::U, "", {a, b});
        }
        static formula R(const formula& a, const formula& b) {
            if (b.is(op::tt) || b.is(op::ff) || a.is(op::tt) || a == b) return b;
            if (a.is(op::ff)) return G(b);
            return make(op::R, "", {a, b});
        }
        static formula W(const formula& a, const formula& b) {
            if (b.is(op::tt)) return b;
            if (b.is(op::ff)) return G(a);
            if (a.is(op::tt)) return a;
            if (a.is(op::ff) || a == b) return b;
            return make(op::W, "", {a, b});
        }
        static formula M(const formula& a, const formula& b) {
            if (b.is(op::ff)) return b;
            if (b.is(op::tt)) return F(a);
            if (a.is(op::ff)) return a;
            if (a.is(op::tt) || a == b) return b;
            return make(op::M, "", {a, b});
        }
        static formula And(std::vector<formula> v) { return nary(op::And, std::move(v)); }
        static formula Or(std::vector<formula> v) { return nary(op::Or, std::move(v)); }
        static formula Implies(const formula& a, const formula& b) { return Or({Not(a), b}); }
        static formula Equiv(const formula& a, const formula& b) { return Or({And({a, b}), And({Not(a), Not(b)})}); }
        static formula Xor(const formula& a, const formula& b) { return Not(Equiv(a, b)); }
    };

    inline std::string str_psl(const formula& f) { std::stringstream ss; f.dump(ss); return ss.str(); }
    inline std::ostream& operator<<(std::ostream& os, const formula& f) { return f.dump(os); }

    namespace standin {
        // Negation normal form; keeps F, G, introduces R/W/M duals.
        inline formula nnf(const formula& f, bool neg) {
            switch (f.kind()) {
                case op::tt: return neg ? formula::ff() : f;
                case op::ff: return neg ? formula::tt() : f;
                case op::ap: return neg ? formula::Not(f) : f;
                case op::Not: return nnf(f[0], !neg);
                case op::X: return formula::X(nnf(f[0], neg));
                case op::F: return neg ? formula::G(nnf(f[0], true)) : formula::F(nnf(f[0], false));
                case op::G: return neg ? formula::F(nnf(f[0], true)) : formula::G(nnf(f[0], false));
                case op::And: case op::Or: {
                    std::vector<formula> v;
                    for (auto& c : f) v.push_back(nnf(c, neg));
                    return (f.kind() == op::And) != neg ? formula::And(v) : formula::Or(v);
                }
                case op::U: return neg ? formula::R(nnf(f[0], true), nnf(f[1], true)) : formula::U(nnf(f[0], false), nnf(f[1], false));
                case op::R: return neg ? formula::U(nnf(f[0], true), nnf(f[1], true)) : formula::R(nnf(f[0], false), nnf(f[1], false));
                case op::W: return neg ? formula::M(nnf(f[0], true), nnf(f[1], true)) : formula::W(nnf(f[0], false), nnf(f[1], false));
                case op::M: return neg ? formula::W(nnf(f[0], true), nnf(f[1], true)) : formula::M(nnf(f[0], false), nnf(f[1], false));
                default: throw std::runtime_error("stand-in spot: unsupported operator");
            }
        }
    }

    struct tl_simplifier_options { tl_simplifier_options(int = 3) {} };
    class tl_simplifier {
    public:
        tl_simplifier() = default;
        tl_simplifier(tl_simplifier_options) {}
        tl_simplifier(int) {}
        formula simplify(const formula& f) { return standin::nnf(f, false); }
    };

    inline formula unabbreviate(const formula& f, const char* opt = "eFGiMRW^") {
        std::string o(opt);
        switch (f.kind()) {
            case op::tt: case op::ff: case op::ap: return f;
            case op::Not: return formula::Not(unabbreviate(f[0], opt));
            case op::X: return formula::X(unabbreviate(f[0], opt));
            case op::F: return formula::F(unabbreviate(f[0], opt));
            case op::G: return formula::G(unabbreviate(f[0], opt));
            case op::And: case op::Or: {
                std::vector<formula> v;
                for (auto& c : f) v.push_back(unabbreviate(c, opt));
                return f.kind() == op::And ? formula::And(v) : formula::Or(v);
            }
            default: break;
        }
        auto a = unabbreviate(f[0], opt), b = unabbreviate(f[1], opt);
        switch (f.kind()) {
            case op::U: return formula::U(a, b);
            case op::R: // a R b == b W (a & b) == G b | (b U (a & b))
                if (o.find('R') == std::string::npos) return formula::R(a, b);
                return formula::Or({formula::G(b), formula::U(b, formula::And({a, b}))});
            case op::W:
                if (o.find('W') == std::string::npos) return formula::W(a, b);
                return formula::Or({formula::G(a), formula::U(a, b)});
            case op::M:
                if (o.find('M') == std::string::npos) return formula::M(a, b);
                return formula::U(b, formula::And({a, b}));
            default: throw std::runtime_error("stand-in spot: unsupported operator");
        }
    }

    // ---------------------------------------------------------- automata --
    class bdd_dict {
    public:
        std::map<std::string, int> var_of;
        std::vector<std::string> name_of;
        int register_ap(const std::string& s) {
            auto it = var_of.find(s);
            if (it != var_of.end()) return it->second;
            int v = (int)name_of.size();
            var_of.emplace(s, v);
            name_of.push_back(s);
            return v;
        }
    };
    using bdd_dict_ptr = std::shared_ptr<bdd_dict>;
    inline bdd_dict_ptr make_bdd_dict() { return std::make_shared<bdd_dict>(); }

    class state {
    public:
        virtual int compare(const state* other) const = 0;
        virtual size_t hash() const = 0;
        virtual state* clone() const = 0;
        virtual void destroy() const {}
    protected:
        virtual ~state() {}
    };

    class twa_succ_iterator {
    public:
        virtual ~twa_succ_iterator() {}
        virtual bool first() = 0;
        virtual bool next() = 0;
        virtual bool done() const = 0;
        virtual const state* dst() const = 0;
        virtual bdd cond() const = 0;
    };

    class twa {
    protected:
        bdd_dict_ptr _dict;
    public:
        explicit twa(bdd_dict_ptr d) : _dict(std::move(d)) {}
        virtual ~twa() {}
        virtual const state* get_init_state() const = 0;
        virtual twa_succ_iterator* succ_iter(const state* s) const = 0;
        void release_iter(twa_succ_iterator* i) const { delete i; }
        bdd_dict_ptr get_dict() const { return _dict; }
        int register_ap(const std::string& s) { return _dict->register_ap(s); }
        int register_ap(const formula& f) { return _dict->register_ap(f.ap_name()); }
    };
    using const_twa_ptr = std::shared_ptr<const twa>;
    using twa_ptr = std::shared_ptr<twa>;

    struct twa_graph_edge {
        bdd cond;
        unsigned dst = 0;
        unsigned src = 0;
    };

    class twa_graph_state : public state {
    public:
        unsigned number = 0;
        bool accepting = false;
        std::vector<twa_graph_edge> edges;
        int compare(const state* o) const override {
            auto n = static_cast<const twa_graph_state*>(o)->number;
            return number < n ? -1 : (number > n ? 1 : 0);
        }
        size_t hash() const override { return number; }
        state* clone() const override { return const_cast<twa_graph_state*>(this); }
        ~twa_graph_state() override {}
    };

    class twa_graph : public twa {
        std::deque<twa_graph_state> _states;
        unsigned _init = 0;
        class iter : public twa_succ_iterator {
            const twa_graph* _g;
            const twa_graph_state* _s;
            size_t _i = 0;
        public:
            iter(const twa_graph* g, const twa_graph_state* s) : _g(g), _s(s) {}
            bool first() override { _i = 0; return !done(); }
            bool next() override { ++_i; return !done(); }
            bool done() const override { return _i >= _s->edges.size(); }
            const state* dst() const override { return _g->state_from_number(_s->edges[_i].dst); }
            bdd cond() const override { return _s->edges[_i].cond; }
        };
    public:
        explicit twa_graph(bdd_dict_ptr d) : twa(std::move(d)) {}
        unsigned new_state() {
            _states.emplace_back();
            _states.back().number = (unsigned)_states.size() - 1;
            return _states.back().number;
        }
        void new_edge(unsigned s, unsigned d, const bdd& c) {
            if (c == bddfalse) return;
            for (auto& e : _states[s].edges) if (e.dst == d) { e.cond |= c; return; }
            twa_graph_edge e; e.cond = c; e.dst = d; e.src = s;
            _states[s].edges.push_back(e);
        }
        void set_accepting(unsigned s, bool a) { _states[s].accepting = a; }
        void set_init_state(unsigned s) { _init = s; }
        unsigned num_states() const { return (unsigned)_states.size(); }
        unsigned get_init_state_number() const { return _init; }
        const state* get_init_state() const override { return &_states[_init]; }
        const state* state_from_number(unsigned n) const { return &_states.at(n); }
        unsigned state_number(const state* s) const { return static_cast<const twa_graph_state*>(s)->number; }
        bool state_is_accepting(unsigned n) const { return _states.at(n).accepting; }
        bool state_is_accepting(const state* s) const { return static_cast<const twa_graph_state*>(s)->accepting; }
        const std::vector<twa_graph_edge>& out(unsigned s) const { return _states.at(s).edges; }
        twa_succ_iterator* succ_iter(const state* s) const override { return new iter(this, static_cast<const twa_graph_state*>(s)); }
    };
    using twa_graph_ptr = std::shared_ptr<twa_graph>;
    using const_twa_graph_ptr = std::shared_ptr<const twa_graph>;

    // irredundant sum of products (Minato)
    namespace standin {
        inline std::pair<bdd, std::vector<std::vector<std::pair<int, bool>>>> isop(const bdd& lo, const bdd& up) {
            using cubes = std::vector<std::vector<std::pair<int, bool>>>;
            if (lo == bddfalse) return {bddfalse, cubes{}};
            if (up == bddtrue) return {bddtrue, cubes{{}}};
            int v = std::min(bdd_var(lo), bdd_var(up));
            auto l0 = bdd_var(lo) == v ? bdd_low(lo) : lo, l1 = bdd_var(lo) == v ? bdd_high(lo) : lo;
            auto u0 = bdd_var(up) == v ? bdd_low(up) : up, u1 = bdd_var(up) == v ? bdd_high(up) : up;
            auto r0 = isop(l0 - u1, u0);
            auto r1 = isop(l1 - u0, u1);
            auto rd = isop((l0 - r0.first) | (l1 - r1.first), u0 & u1);
            cubes c;
            for (auto& x : r0.second) { x.emplace_back(v, false); c.push_back(x); }
            for (auto& x : r1.second) { x.emplace_back(v, true); c.push_back(x); }
            for (auto& x : rd.second) c.push_back(x);
            return {rd.first | (bdd_nithvar(v) & r0.first) | (bdd_ithvar(v) & r1.first), c};
        }
    }
    inline formula bdd_to_formula(const bdd& b, const bdd_dict_ptr& dict) {
        if (b == bddfalse) return formula::ff();
        if (b == bddtrue) return formula::tt();
        auto r = standin::isop(b, b);
        std::vector<formula> ors;
        for (auto& c : r.second) {
            std::vector<formula> ands;
            for (auto& [v, pos] : c) {
                auto f = formula::ap(dict->name_of.at(v));
                ands.push_back(pos ? f : formula::Not(f));
            }
            ors.push_back(formula::And(ands));
        }
        return formula::Or(ors);
    }
    inline std::string bdd_format_formula(const bdd_dict_ptr& d, const bdd& b) { return str_psl(bdd_to_formula(b, d)); }

    // ------------------------------------------------------- translation --
    class postprocessor {
    public:
        enum output_type { TGBA = 0, GeneralizedBuchi = 0, BA = 1, Monitor = 2, Generic = 3, Parity = 4, Buchi = 5 };
        enum output_pref { Any = 0, Small = 1, Deterministic = 2, Complete = 4 };
        enum optimization_level { Low, Medium, High };
        void set_type(output_type) {}
        void set_pref(int) {}
        void set_level(optimization_level) {}
    };

    namespace standin {
        struct tableau {
            bdd_dict_ptr dict = make_bdd_dict();
            using fset = std::set<formula>;
            struct tr { bdd cond; fset next; fset postponed; };
            std::map<fset, std::vector<tr>> memo;
            bdd lit(const formula& f) {
                if (f.is(op::Not)) return bdd_nithvar(dict->register_ap(f[0].ap_name()));
                return bdd_ithvar(dict->register_ap(f.ap_name()));
            }
            void cover(std::vector<formula> todo, bdd cond, fset next, fset post, fset done, std::vector<tr>& out) {
                while (!todo.empty()) {
                    if (cond == bddfalse) return;
                    formula f = todo.back();
                    todo.pop_back();
                    if (!done.insert(f).second) continue;
                    switch (f.kind()) {
                        case op::tt: break;
                        case op::ff: return;
                        case op::ap: case op::Not: cond &= lit(f); break;
                        case op::And: for (auto& c : f) todo.push_back(c); break;
                        case op::X: next.insert(f[0]); break;
                        case op::G: todo.push_back(f[0]); next.insert(f); break;
                        case op::Or:
                            for (auto& c : f) { auto t = todo; t.push_back(c); cover(t, cond, next, post, done, out); }
                            return;
                        case op::F: {
                            auto t = todo; t.push_back(f[0]);
                            cover(t, cond, next, post, done, out);
                            next.insert(f); post.insert(f);
                            break;
                        }
                        case op::U: {
                            auto t = todo; t.push_back(f[1]);
                            cover(t, cond, next, post, done, out);
                            todo.push_back(f[0]); next.insert(f); post.insert(f);
                            break;
                        }
                        case op::R: {
                            auto t = todo; t.push_back(f[0]); t.push_back(f[1]);
                            cover(t, cond, next, post, done, out);
                            todo.push_back(f[1]); next.insert(f);
                            break;
                        }
                        case op::W: { // b | (a & X f)
                            auto t = todo; t.push_back(f[1]);
                            cover(t, cond, next, post, done, out);
                            todo.push_back(f[0]); next.insert(f);
                            break;
                        }
                        case op::M: { // b & (a | X f), a eventually
                            auto t = todo; t.push_back(f[0]); t.push_back(f[1]);
                            cover(t, cond, next, post, done, out);
                            todo.push_back(f[1]); next.insert(f); post.insert(f);
                            break;
                        }
                        default: throw std::runtime_error("stand-in spot: unsupported operator");
                    }
                }
                if (cond == bddfalse) return;
                out.push_back({cond, next, post});
            }
            const std::vector<tr>& expand(const fset& s) {
                auto it = memo.find(s);
                if (it != memo.end()) return it->second;
                std::vector<tr> raw;
                cover({s.begin(), s.end()}, bddtrue, {}, {}, {}, raw);
                // merge by (next, postponed)
                std::map<std::pair<fset, fset>, bdd> m;
                for (auto& t : raw) {
                    auto r = m.emplace(std::make_pair(t.next, t.postponed), bddfalse);
                    r.first->second |= t.cond;
                }
                // drop what another transition subsumes (fewer obligations, fewer postponed)
                std::vector<tr> res;
                for (auto& [k, c] : m) {
                    bdd left = c;
                    for (auto& [k2, c2] : m) {
                        if (&k2 == &k) continue;
                        if (std::includes(k.first.begin(), k.first.end(), k2.first.begin(), k2.first.end()) &&
                            std::includes(k.second.begin(), k.second.end(), k2.second.begin(), k2.second.end()))
                            left -= c2;
                    }
                    if (left != bddfalse) res.push_back({left, k.first, k.second});
                }
                return memo.emplace(s, std::move(res)).first->second;
            }
            static void untils(const formula& f, fset& out) {
                if (f.is(op::F) || f.is(op::U) || f.is(op::M)) out.insert(f);
                if (f.is(op::ap) || f.is(op::tt) || f.is(op::ff)) return;
                for (auto& c : f) untils(c, out);
            }

            twa_graph_ptr run(const formula& input) {
                formula f = nnf(input, false);
                fset us;
                untils(f, us);
                std::vector<formula> u(us.begin(), us.end());
                struct st { std::vector<std::pair<bdd, unsigned>> out; bool acc = false; };
                std::vector<st> g;
                std::map<std::pair<fset, unsigned>, unsigned> ids;
                std::vector<std::pair<fset, unsigned>> work;
                auto get = [&](const fset& s, unsigned lvl) {
                    auto r = ids.emplace(std::make_pair(s, lvl), (unsigned)g.size());
                    if (r.second) {
                        g.emplace_back();
                        g.back().acc = lvl == u.size();
                        work.emplace_back(s, lvl);
                    }
                    return r.first->second;
                };
                fset init;
                if (!f.is(op::tt)) init.insert(f);
                get(init, u.empty() ? 0 : 0);
                for (size_t i = 0; i < work.size(); ++i) {
                    auto cur = work[i];
                    auto trs = expand(cur.first);
                    for (auto& t : trs) {
                        unsigned l = cur.second == u.size() ? 0 : cur.second;
                        while (l < u.size() && !t.postponed.count(u[l])) ++l;
                        unsigned d = get(t.next, l);
                        g[i].out.emplace_back(t.cond, d);
                    }
                }
                size_t n = g.size();
                // drop states from which no accepting cycle is reachable
                auto reach_from = [&](size_t s) {
                    std::vector<char> seen(n, 0);
                    std::vector<size_t> w;
                    for (auto& e : g[s].out) if (!seen[e.second]) { seen[e.second] = 1; w.push_back(e.second); }
                    while (!w.empty()) {
                        size_t x = w.back(); w.pop_back();
                        for (auto& e : g[x].out) if (!seen[e.second]) { seen[e.second] = 1; w.push_back(e.second); }
                    }
                    return seen;
                };
                std::vector<std::vector<char>> rf;
                for (size_t s = 0; s < n; ++s) rf.push_back(reach_from(s));
                std::vector<char> live(n, 0);
                for (size_t s = 0; s < n; ++s)
                    for (size_t a = 0; a < n && !live[s]; ++a)
                        if (g[a].acc && rf[a][a] && (a == s || rf[s][a])) live[s] = 1;
                // acceptance only matters inside a cycle
                for (size_t s = 0; s < n; ++s) {
                    if (!rf[s][s]) g[s].acc = false;
                    std::vector<std::pair<bdd, unsigned>> o;
                    for (auto& e : g[s].out) if (live[e.second]) o.push_back(e);
                    g[s].out = std::move(o);
                }
                // quotient by (acceptance, outgoing edges) until stable
                std::vector<unsigned> cls(n, 0);
                for (size_t s = 0; s < n; ++s) cls[s] = g[s].acc;
                size_t ncls = 0;
                while (true) {
                    std::map<std::pair<unsigned, std::map<unsigned, int>>, unsigned> sig;
                    std::vector<unsigned> nc(n);
                    for (size_t s = 0; s < n; ++s) {
                        std::map<unsigned, int> e;
                        for (auto& x : g[s].out) {
                            auto& b = e.emplace(cls[x.second], 0).first->second;
                            b = (bdd(b) | x.first).id();
                        }
                        nc[s] = sig.emplace(std::make_pair(cls[s], e), (unsigned)sig.size()).first->second;
                    }
                    cls = nc;
                    if (sig.size() == ncls) break;
                    ncls = sig.size();
                }
                auto aut = std::make_shared<twa_graph>(dict);
                std::map<unsigned, unsigned> num;
                std::vector<size_t> rep;
                std::vector<size_t> w{0};
                num[cls[0]] = aut->new_state();
                rep.push_back(0);
                for (size_t i = 0; i < rep.size(); ++i) {
                    auto s = rep[i];
                    aut->set_accepting((unsigned)i, g[s].acc);
                    for (auto& e : g[s].out) {
                        auto it = num.find(cls[e.second]);
                        if (it == num.end()) {
                            it = num.emplace(cls[e.second], aut->new_state()).first;
                            rep.push_back(e.second);
                        }
                        aut->new_edge((unsigned)i, it->second, e.first);
                    }
                }
                aut->set_init_state(0);
                return aut;
            }
        };
    }

    class translator : public postprocessor {
    public:
        translator() = default;
        twa_graph_ptr run(const formula& f) { standin::tableau t; return t.run(f); }
        twa_graph_ptr run(formula* f) { return run(*f); }
    };

    struct twa_run {
        struct step { const state* s; bdd label; };
        typedef std::list<step> steps;
    };

    class bfs_steps {
    public:
        explicit bfs_steps(const const_twa_ptr& a) : a_(a) {}
        virtual ~bfs_steps() {}
        const state* search(const state* start, twa_run::steps& l) {
            std::map<const state*, twa_run::step> father;
            std::deque<const state*> todo{start};
            while (!todo.empty()) {
                const state* src = todo.front();
                todo.pop_front();
                std::unique_ptr<twa_succ_iterator> it(a_->succ_iter(src));
                for (it->first(); !it->done(); it->next()) {
                    const state* dest = filter(it->dst());
                    if (!dest) continue;
                    twa_run::step s{src, it->cond()};
                    if (match(s, dest)) {
                        const state* cur = src;
                        l.push_front(s);
                        while (cur != start) {
                            auto f = father.at(cur);
                            l.push_front(f);
                            cur = f.s;
                        }
                        return dest;
                    }
                    if (dest != start && !father.count(dest)) { todo.push_back(dest); father.emplace(dest, s); }
                }
            }
            return nullptr;
        }
        virtual const state* filter(const state* s) = 0;
        virtual bool match(twa_run::step& step, const state* dest) = 0;
    protected:
        const_twa_ptr a_;
    };

    inline std::ostream& print_dot(std::ostream& os, const const_twa_ptr& a, const char* = nullptr) {
        auto g = std::dynamic_pointer_cast<const twa_graph>(a);
        os << "digraph \"\" {\n  I -> " << g->get_init_state_number() << "\n";
        for (unsigned s = 0; s < g->num_states(); ++s) {
            os << "  " << s << (g->state_is_accepting(s) ? " [peripheries=2]" : "") << "\n";
            for (auto& e : g->out(s)) os << "  " << s << " -> " << e.dst << " [label=\"" << str_psl(bdd_to_formula(e.cond, g->get_dict())) << "\"]\n";
        }
        return os << "}\n";
    }
    inline std::ostream& print_hoa(std::ostream& os, const const_twa_ptr& a, const char* = nullptr) { return print_dot(os, a); }
    inline std::ostream& print_never_claim(std::ostream& os, const const_twa_ptr& a, const char* = nullptr) { return print_dot(os, a); }
}
#endif
