// P16: conditions of templates are parsed by the grammar and evaluated by the documented rules
#include "mc.h"
#include "expression_evaluator.h"
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>

using namespace Expressions;

namespace
{
    // An independent parser (precedence climbing on characters) and evaluator
    struct Node
    {
        enum Kind
        {
            NUM,
            ID,
            DEFINED,
            OP
        } kind;
        long num = 0;
        std::string name; // identifier or operator
        std::unique_ptr<Node> l, r;
    };
    using PNode = std::unique_ptr<Node>;

    struct Ref
    {
        const std::string& s;
        size_t p = 0;
        bool ok = true;

        Ref(const std::string& s): s(s)
        {}
        static bool letter(char c)
        {
            return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z');
        }
        static bool digit(char c)
        {
            return c >= '0' && c <= '9';
        }
        PNode fail()
        {
            ok = false;
            return nullptr;
        }
        char cur() const
        {
            return p < s.size() ? s[p] : 0;
        }
        std::string ident()
        {
            std::string r;
            if (letter(cur())) {
                while (letter(cur()) || digit(cur()) || cur() == '_') {
                    r += s[p++];
                }
            }
            return r;
        }
        PNode operand()
        {
            auto n = std::make_unique<Node>();
            if (cur() == '(') {
                ++p;
                n = expr(0);
                if (!ok || cur() != ')') {
                    return fail();
                }
                ++p;
                return n;
            }
            if (digit(cur()) || cur() == '-') {
                bool neg = cur() == '-';
                p += neg;
                if (!digit(cur())) {
                    return fail();
                }
                while (digit(cur())) {
                    n->num = n->num * 10 + (s[p++] - '0');
                }
                n->num = neg ? -n->num : n->num;
                n->kind = Node::NUM;
                return n;
            }
            n->name = ident();
            if (n->name.empty()) {
                return fail();
            }
            n->kind = Node::ID;
            if (cur() == '(') {
                if (n->name != "isDefined") {
                    return fail();
                }
                ++p;
                n->kind = Node::DEFINED;
                n->name = ident();
                if (n->name.empty() || cur() != ')') {
                    return fail();
                }
                ++p;
            }
            return n;
        }
        // the operator at the position, its level: 1 - ||, 2 - &&, 3 - == !=, 4 - < <= > >=
        std::string op(int& level)
        {
            for (auto* o: {"||", "&&", "==", "!=", "<=", ">=", "<", ">"}) {
                if (s.compare(p, strlen(o), o) == 0) {
                    level = o[0] == '|' ? 1 : o[0] == '&' ? 2 : o[0] == '=' || o[0] == '!' ? 3 : 4;
                    return o;
                }
            }
            return "";
        }
        PNode expr(int minLevel)
        {
            auto l = operand();
            while (ok) {
                int level;
                auto o = op(level);
                if (o.empty() || level <= minLevel) {
                    break;
                }
                p += o.size();
                auto n = std::make_unique<Node>();
                n->kind = Node::OP;
                n->name = o;
                n->l = std::move(l);
                n->r = expr(level);
                l = std::move(n);
            }
            return ok ? std::move(l) : nullptr;
        }
        PNode parse()
        {
            auto n = expr(0);
            if (ok && p != s.size()) {
                return fail();
            }
            return n;
        }
    };

    using Values = std::map<std::string, int>;

    //! How a bare undefined parameter in && and || works isn't documented: either as false or makes the result false
    std::optional<long> eval(const Node& n, const Values& v, bool poison)
    {
        switch (n.kind) {
            case Node::NUM:
                return n.num;
            case Node::ID: {
                auto it = v.find(n.name);
                return it == v.end() ? std::nullopt : std::optional<long>(it->second);
            }
            case Node::DEFINED:
                return v.count(n.name);
            default:
                break;
        }
        auto l = eval(*n.l, v, poison), r = eval(*n.r, v, poison);
        auto& o = n.name;
        if (o == "||" || o == "&&") {
            if ((!l || !r) && poison) {
                return 0;
            }
            bool x = l && *l, y = r && *r;
            return o == "||" ? x || y : x && y;
        }
        if (!l || !r) {
            return o == "!=";
        }
        return o == "==" ? *l == *r : o == "!=" ? *l != *r : o == "<" ? *l < *r : o == "<=" ? *l <= *r : o == ">" ? *l > *r : *l >= *r;
    }

    void names(const Node& n, std::set<std::string>& s)
    {
        if (n.kind == Node::ID || n.kind == Node::DEFINED) {
            s.insert(n.name);
        }
        for (auto* c: {n.l.get(), n.r.get()}) {
            if (c) {
                names(*c, s);
            }
        }
    }

    struct Params: IParams
    {
        const Values& v;
        Params(const Values& v): v(v)
        {}
        std::optional<int32_t> Get(const std::string& name) const override
        {
            auto it = v.find(name);
            return it == v.end() ? std::nullopt : std::optional<int32_t>(it->second);
        }
    };

    //! Parse the text by both, evaluate with all assignments of {undefined, 0, 1, 2} to its parameters
    void judge(const std::string& text)
    {
        std::unique_ptr<TAstNode> ast;
        std::string error;
        bool crashed = false;
        try {
            TParser p;
            ast = p.Parse(text);
        } catch (const std::runtime_error& e) {
            error = e.what();
            crashed = error.empty();
        } catch (const std::exception& e) {
            crashed = true;
            error = e.what();
        }
        MC_CHECK(!crashed, "parse-exception", "'", text, "': ", error);
        Ref ref(text);
        auto n = ref.parse();
        mc::state(mc::hash(text));
        if (!n) {
            mc::cover("wrong expression");
            MC_CHECK(!error.empty(), "parse-accepted", "'", text, "' isn't an expression, but is accepted");
            return;
        }
        MC_CHECK(error.empty() && ast, "parse-refused", "'", text, "' is an expression, but is refused: ", error);
        if (!ast) {
            return;
        }
        mc::cover("right expression");
        mc::nontrivial();
        std::set<std::string> ids;
        names(*n, ids);
        auto deps = GetDependencies(ast.get());
        MC_CHECK(std::set<std::string>(deps.begin(), deps.end()) == ids && deps.size() == ids.size(), "dependencies", "'", text, "' depends on ", ids.size(), " parameters, ", deps.size(), " are reported");
        std::vector<std::string> id(ids.begin(), ids.end());
        int total = 1;
        for (size_t i = 0; i < id.size(); ++i) {
            total *= 4;
        }
        for (int a = 0; a < total; ++a) {
            Values v;
            std::string shown;
            for (size_t i = 0, x = a; i < id.size(); ++i, x /= 4) {
                if (x % 4) {
                    v[id[i]] = x % 4 - 1;
                    shown += mc::str(" ", id[i], "=", x % 4 - 1);
                }
            }
            auto r1 = eval(*n, v, true), r2 = eval(*n, v, false);
            bool e1 = r1 && *r1, e2 = r2 && *r2;
            bool res = false;
            try {
                res = Eval(ast.get(), Params(v));
            } catch (const std::exception& e) {
                MC_CHECK(false, "eval-exception", "'", text, "' with", shown, ": ", e.what());
            }
            mc::transition();
            MC_CHECK(res == e1 || res == e2, "value", "'", text, "' with", shown.empty() ? " nothing" : shown, " is ", res);
            mc::outcome(res * 2 + (e1 != e2));
        }
    }

    std::string tokens(const std::vector<const char*>& alphabet, int n)
    {
        std::string s;
        int len = mc::choose(n, "length");
        for (int i = 0; i <= len; ++i) {
            s += alphabet[mc::choose(alphabet.size(), "token")];
        }
        return s;
    }
}

int main(int argc, char** argv)
{
    mc::init(argc, argv);
    bool t = mc::thorough();
    auto run = [](const char* name, int shard, std::function<void()> f) {
        mc::Options o;
        o.name = name;
        o.seconds = 60;
        o.shardDepth = shard;
        o.mustCover = {"right expression", "wrong expression"};
        mc::explore(o, f);
    };
    // What is and isn't an expression
    run("tokens", 3, [=] {
        judge(tokens({"(", ")", "1", "-1", "a", "isDefined", "==", "!=", "<", "<=", ">", ">=", "||", "&&"}, t ? 6 : 5));
    });
    run("brackets", 3, [=] { judge(tokens({"(", ")", "a", "isDefined", "<", "||"}, t ? 10 : 8)); });
    run("characters", 3, [=] { judge(tokens({"a", "_", "1", "-", "=", "!", "<", ">", "|", "&", "(", ")", " "}, t ? 6 : 5)); });
    // Values: operators and brackets in well formed expressions
    mc::Options o;
    o.name = "operators";
    o.seconds = 60;
    o.shardDepth = 3;
    o.mustCover = {"right expression"};
    mc::explore(o, [=] {
        const char* ops[] = {"==", "!=", "<", "<=", ">", ">=", "||", "&&"};
        int n = 2 + mc::choose(t ? 4 : 3, "operands");
        const char* operands[] = {"a", "b", "1", "isDefined(a)"};
        // brackets around operands i..j
        int from = -1, to = -1;
        if (n > 2) {
            int k = mc::choose(n * (n - 1) / 2, "brackets");
            for (int i = 0; i < n && k > 0; ++i) {
                for (int j = i + 1; j < n && k > 0; ++j) {
                    if (!(i == 0 && j == n - 1) && --k == 0) {
                        from = i;
                        to = j;
                    }
                }
            }
        }
        std::string s;
        for (int i = 0; i < n; ++i) {
            if (i) {
                s += ops[mc::choose(8, "operator")];
            }
            s += i == from ? "(" : "";
            s += operands[mc::choose(n < 4 ? 4 : n < 5 ? 3 : 2, "operand")];
            s += i == to ? ")" : "";
        }
        judge(s);
    });
    o.name = "numbers";
    o.shardDepth = 1;
    o.mustCover = {"right expression"};
    mc::explore(o, [] {
        const char* nums[] = {"0", "-0", "00", "1", "-1", "01", "2147483647", "-2147483648", "255", "-255", "2147483646"};
        const char* ids[] = {"a", "Z9", "a_b", "a_", "isDefined", "isDefinedX", "g1_2"};
        const char* ops[] = {"==", "!=", "<", "<=", ">", ">=", "||", "&&"};
        std::string op = ops[mc::choose(8, "operator")];
        int k = mc::choose(3, "kind");
        std::string x = k < 2 ? nums[mc::choose(11, "number")] : ids[mc::choose(7, "name")];
        std::string y = k != 1 ? nums[mc::choose(11, "number")] : ids[mc::choose(7, "name")];
        judge(x + op + y);
        judge("(" + x + op + y + ")&&isDefined(" + ids[mc::choose(7, "tested")] + ")");
    });
    return mc::finish();
}
