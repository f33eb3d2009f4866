// LALR(1) parser generator
#include <log_surgeon/LALR1Parser.hpp>

namespace lr {
using finite_automata::RegexASTGroup;
using finite_automata::RegexASTLiteral;
using finite_automata::RegexDFAByteState;
using finite_automata::RegexNFAByteState;
using Lalr = LALR1Parser<RegexNFAByteState, RegexDFAByteState>;

struct Gen {
    std::unique_ptr<Lalr> p{std::make_unique<Lalr>()};
    std::set<string> terminals;
    bool full{true};
    bool ready{false};
    string log;  // the reductions of the current parse
    size_t n{0};
    size_t fuse{0};  // the reduction (of the current parse) whose rule throws
};

static std::map<string, Gen> gens;

// What a reduction with a production sees: the texts of tokens, the values of nonterminals
static auto rule_of(Gen& g, string const& id, vector<string> const& body) -> SemanticRule {
    vector<bool> leaf;
    for (auto const& s : body) {
        leaf.push_back(g.terminals.count(s) > 0);
    }
    return [&g, id, leaf](NonTerminal* m) -> std::unique_ptr<ParserAST> {
        string v = "(" + id;
        size_t count = 0;
        for (size_t i = 0; i < leaf.size(); ++i) {
            if (leaf[i]) {
                v += " " + m->token_cast(i)->to_string();
                ++count;
            } else {
                auto* ast = m->non_terminal_cast(i)->get_parser_ast().get();
                auto const& [text, c] = ast->get<std::pair<string, size_t>>();
                v += " " + text;
                count += c;
            }
        }
        v += ")";
        if (!g.full) {
            v = std::to_string(count);
        }
        if (g.n < 50000) {
            g.log += string(g.n ? "," : "") + "{\"p\":" + jstr(id) + ",\"v\":" + jstr(v) + "}";
        }
        ++g.n;
        if (g.n == g.fuse) {
            throw std::runtime_error("thrown by a rule");
        }
        return std::make_unique<ParserValue<std::pair<string, size_t>>>(std::pair{v, count});
    };
}

static bool run_lr(vector<string> const& w) {
    string const& c = w[0];
    if (c == "lr.new") {  // slot full
        gens.erase(w[1]);
        gens[w[1]].full = w[2] == "1";
        return true;
    }
    if (c == "lr.tok") {  // slot name text...: a token that is one of the texts
        auto& g = gens.at(w[1]);
        g.terminals.insert(w[2]);
        string const t = unhex(w[3]);
        if (w.size() > 4) {
            vector<uint32_t> chars;
            for (size_t i = 3; i < w.size(); ++i) {
                chars.push_back(static_cast<unsigned char>(unhex(w[i])[0]));
            }
            g.p->add_token_group(
                    w[2],
                    std::make_unique<RegexASTGroup<RegexNFAByteState>>(chars)
            );
        } else if (t.size() > 1) {
            g.p->add_token_chain(w[2], t);
        } else {
            g.p->add_token(w[2], t[0]);
        }
        return true;
    }
    if (c == "lr.prod") {  // slot id head body...
        auto& g = gens.at(w[1]);
        vector<string> body{w.begin() + 4, w.end()};
        g.p->add_production(w[3], body, rule_of(g, w[2], body));
        return true;
    }
    if (c == "lr.gen") {
        try {
            gens.at(w[1]).p->generate();
            gens.at(w[1]).ready = true;
            emit("\"ev\":\"gen\",\"ok\":true");
        } catch (std::exception const& e) {
            emit("\"ev\":\"gen\"," + exc_body(e));
        }
        return true;
    }
    if (c == "lr.parse") {  // slot input most [reduction that throws]
        auto& g = gens.at(w[1]);
        if (!g.ready) {
            return true;
        }
        string const d = unhex(w[2]);
        size_t const most = std::stoul(w[3]);
        size_t pos = 0;
        g.log.clear();
        g.n = 0;
        g.fuse = w.size() > 4 ? std::stoul(w[4]) : 0;
        Reader rd{[&](char* dst, size_t n, size_t& got) -> ErrorCode {
            got = std::min({n, most, d.size() - pos});
            memcpy(dst, d.data() + pos, got);
            pos += got;
            return 0 == got ? ErrorCode::EndOfFile : ErrorCode::Success;
        }};
        string b;
        try {
            NonTerminal m = g.p->parse(rd);
            auto* ast = m.get_parser_ast().get();
            b = "\"ok\":true,\"root\":"
                + (ast == nullptr ? string("\"\"")
                                  : jstr(ast->get<std::pair<string, size_t>>().first));
        } catch (std::exception const& e) {
            b = exc_body(e);
        }
        emit("\"ev\":\"parse\"," + b + ",\"reds\":[" + g.log + "]");
        return true;
    }
    return false;
}
}  // namespace lr

using lr::run_lr;
