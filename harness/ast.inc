// Schemas given as regular expressions instead of text
#include <log_surgeon/finite_automata/RegexAST.hpp>

using namespace log_surgeon::finite_automata;
using N = RegexNFAByteState;
using AST = RegexAST<N>;
using Lit = RegexASTLiteral<N>;
using Grp = RegexASTGroup<N>;
using Cat = RegexASTCat<N>;
using Or = RegexASTOr<N>;
using Mul = RegexASTMultiplication<N>;
using Cap = RegexASTCapture<N>;
using Emp = RegexASTEmpty<N>;

// Text form (prefix notation, one token per blank-separated word):
//   l C            literal           s NEG K lo hi ...  bracket expression
//   d              wildcard          c A B  concatenation      o A B  alternation
//   r LO HI A      repetition (HI = -1: unbounded)             k NAME A  capture
//   m LO HI A      the same without a detour over the empty expression   e   empty
static std::unique_ptr<AST> build_ast(std::istringstream& in) {
    string t;
    in >> t;
    if (t == "l") {
        uint32_t c;
        in >> c;
        return std::make_unique<Lit>(c);
    }
    if (t == "s") {
        int neg, k;
        in >> neg >> k;
        if (neg) {
            auto g = std::make_unique<Grp>();
            while (k-- > 0) {
                uint32_t lo, hi;
                in >> lo >> hi;
                g->add_range(lo, hi);
            }
            return g;
        }
        uint32_t lo, hi;
        in >> lo >> hi;
        auto g = std::make_unique<Grp>(lo, hi);
        while (--k > 0) {
            in >> lo >> hi;
            g->add_range(lo, hi);
        }
        return g;
    }
    if (t == "d") {
        auto g = std::make_unique<Grp>(0, cUnicodeMax);
        g->set_is_wildcard_true();
        return g;
    }
    if (t == "c") {
        auto a = build_ast(in);
        auto b = build_ast(in);
        return std::make_unique<Cat>(std::move(a), std::move(b));
    }
    if (t == "o") {
        auto a = build_ast(in);
        auto b = build_ast(in);
        return std::make_unique<Or>(std::move(a), std::move(b));
    }
    if (t == "r") {
        int lo, hi;
        in >> lo >> hi;
        auto a = build_ast(in);
        if (lo == 0) {
            return std::make_unique<Or>(
                    std::make_unique<Emp>(),
                    std::make_unique<Mul>(std::move(a), 1, hi < 0 ? 0 : hi)
            );
        }
        return std::make_unique<Mul>(std::move(a), lo, hi < 0 ? 0 : hi);
    }
    if (t == "e") {
        return std::make_unique<Emp>();
    }
    if (t == "m") {  // repetition as the class gives it, a minimum of 0 included
        int lo, hi;
        in >> lo >> hi;
        auto a = build_ast(in);
        return std::make_unique<Mul>(std::move(a), lo, hi < 0 ? 0 : hi);
    }
    if (t == "k") {
        string name;
        in >> name;
        auto a = build_ast(in);
        return std::make_unique<Cap>(std::move(a), std::make_unique<Tag>(name));
    }
    throw std::logic_error("lsh: bad AST " + t);
}
static bool run_ast(vector<string> const& w) {
    string const& c = w[0];
    if (c == "ast.new") {
        asts[w[1]] = std::make_unique<SchemaAST>();
        return true;
    }
    if (c == "ast.delim") {
        std::unique_ptr<DelimiterStringAST> d;
        for (unsigned char ch : unhex(w[2])) {
            if (!d) {
                d = std::make_unique<DelimiterStringAST>(ch);
            } else {
                d->add_delimiter(ch);
            }
        }
        asts.at(w[1])->add_delimiters(std::move(d));
        return true;
    }
    if (c == "ast.var") {  // slot name line regex...
        string s;
        for (size_t i = 4; i < w.size(); ++i) {
            s += w[i] + " ";
        }
        std::istringstream in(s);
        asts.at(w[1])->add_schema_var(
                std::make_unique<SchemaVarAST>(w[2], build_ast(in), std::stoul(w[3]))
        );
        return true;
    }
    if (c == "ast.clone") {  // every expression is replaced by a clone of it
        for (auto const& v : asts.at(w[1])->m_schema_vars) {
            auto* r = dynamic_cast<SchemaVarAST*>(v.get());
            auto* copy = r->m_regex_ptr->clone();
            r->m_regex_ptr.reset(copy);
        }
        return true;
    }
    return false;
}
