// Automata
#include <log_surgeon/LogParser.hpp>
#include <log_surgeon/finite_automata/RegexAST.hpp>

using namespace log_surgeon::finite_automata;
using N = RegexNFAByteState;

static string dump_dfa(RegexDFA<RegexDFAByteState> const& dfa, std::function<string(uint32_t)> nm) {
    std::map<RegexDFAByteState const*, int> id;
    vector<RegexDFAByteState const*> q{dfa.get_root()};
    id[dfa.get_root()] = 1;
    for (size_t i = 0; i < q.size(); ++i) {
        for (uint32_t b = 0; b < 256; ++b) {
            auto const* n = q[i]->next(b);
            if (n != nullptr && id.emplace(n, id.size() + 1).second) {
                q.push_back(n);
            }
        }
    }
    string r = "\"dfa\":[";
    for (size_t i = 0; i < q.size(); ++i) {
        r += string(i ? "," : "") + "{\"ty\":[";
        auto const& ids = q[i]->get_matching_variable_ids();
        for (size_t k = 0; k < ids.size(); ++k) {
            r += (k ? "," : "") + nm(ids[k]);
        }
        r += string("],\"acc\":") + (q[i]->is_accepting() ? "true" : "false") + ",\"tr\":[";
        // ranges [lo,hi,dest], dest 0: none
        for (uint32_t b = 0; b < 256;) {
            auto const* n = q[i]->next(b);
            uint32_t e = b;
            while (e + 1 < 256 && q[i]->next(e + 1) == n) {
                ++e;
            }
            r += string(b ? "," : "") + "[" + std::to_string(b) + "," + std::to_string(e) + ","
                 + std::to_string(n == nullptr ? 0 : id[n]) + "]";
            b = e + 1;
        }
        r += "]}";
    }
    return r + "]";
}

static bool run_dfa(vector<string> const& w) {
    string const& c = w[0];
    if (c == "dfa") {  // build a log parser and dump its DFA, delimiters and symbols
        try {
            LogParser lp{schema_ast(w[1])};
            string r = "\"ev\":\"dfa\",\"ok\":true,\"isd\":[";
            bool first = true;
            for (uint32_t i = 0; i < 256; ++i) {
                if (lp.m_lexer.is_delimiter(i)) {
                    r += (first ? "" : ",") + std::to_string(i);
                    first = false;
                }
            }
            r += "],\"isf\":[";
            first = true;
            for (uint32_t i = 0; i < 256; ++i) {
                if (lp.m_lexer.is_first_char(i)) {
                    r += (first ? "" : ",") + std::to_string(i);
                    first = false;
                }
            }
            r += "],\"syms\":[";
            first = true;
            for (size_t i = 0; i < lp.m_lexer.m_id_symbol.size(); ++i) {
                r += (first ? "" : ",") + jstr(lp.get_id_symbol(i));
                auto back = lp.get_symbol_id(lp.get_id_symbol(i));
                if (!back.has_value() || *back != i) {
                    r += ",\"<id mismatch>\"";
                }
                first = false;
            }
            r += "],";
            auto nm = [&lp](uint32_t id) { return jstr(lp.get_id_symbol(id)); };
            emit(r + dump_dfa(*lp.m_lexer.get_dfa(), nm));
        } catch (std::exception const& e) {
            emit("\"ev\":\"dfa\"," + exc_body(e));
        }
        return true;
    }
    if (c == "rdfas") {  // one record for each rule
        auto a = schema_ast(w[1]);
        for (auto const& v : a->m_schema_vars) {
            auto* r = dynamic_cast<SchemaVarAST*>(v.get());
            vector<LexicalRule<N>> rules;
            rules.emplace_back(100, std::move(r->m_regex_ptr));
            RegexNFA<N> nfa{std::move(rules)};
            auto dfa = lexers::ByteLexer::nfa_to_dfa(nfa);
            auto nm = [](uint32_t i) { return std::to_string(i); };
            emit("\"ev\":\"rdfa\",\"ok\":true," + dump_dfa(*dfa, nm));
        }
        return true;
    }
    if (c == "nfa" || c == "rdfa" || c == "nfadump") {
        // one AST per rule; ids 100, 101, ...: serialize the tagged NFA / dump the DFA built from it
        auto a = schema_ast(w[1]);
        vector<LexicalRule<N>> rules;
        uint32_t id = 100;
        for (auto const& v : a->m_schema_vars) {
            auto* r = dynamic_cast<SchemaVarAST*>(v.get());
            rules.emplace_back(id++, std::move(r->m_regex_ptr));
        }
        RegexNFA<N> nfa{std::move(rules)};
        if (c == "nfadump") {  // state by state, tagged transitions as they serialize themselves
            auto order = nfa.get_bfs_traversal_order();
            std::unordered_map<N const*, uint32_t> ids;
            for (auto const* s : order) {
                ids.emplace(s, ids.size() + 1);
            }
            string r = "\"ev\":\"nfadump\",\"ok\":true,\"nfa\":[";
            for (size_t i = 0; i < order.size(); ++i) {
                auto const* s = order[i];
                r += string(i ? "," : "") + "{\"acc\":"
                     + (s->is_accepting() ? std::to_string(s->get_matching_variable_id()) : "-1")
                     + ",\"eps\":[";
                bool first = true;
                for (auto const* d : s->get_epsilon_transitions()) {
                    r += (first ? "" : ",") + std::to_string(ids.at(d));
                    first = false;
                }
                r += "],\"by\":[";
                auto dests = [&](uint32_t b) {
                    string t = "[";
                    for (auto const* d : s->get_byte_transitions(b)) {
                        t += (t.size() > 1 ? "," : "") + std::to_string(ids.at(d));
                    }
                    return t + "]";
                };
                first = true;
                for (uint32_t b = 0; b < 256;) {
                    uint32_t e = b;
                    string const t = dests(b);
                    while (e + 1 < 256 && dests(e + 1) == t) {
                        ++e;
                    }
                    if (t != "[]") {
                        r += (first ? "[" : ",[") + std::to_string(b) + "," + std::to_string(e) + "," + t
                             + "]";
                        first = false;
                    }
                    b = e + 1;
                }
                r += "],\"tag\":[";
                first = true;
                auto put = [&](char const* kind, std::optional<string> const& t) {
                    r += string(first ? "" : ",") + "[\"" + kind + "\"," + jstr(t.value_or("?")) + "]";
                    first = false;
                };
                for (auto const& t : s->get_positive_tagged_start_transitions()) {
                    put("o", t.serialize(ids));
                }
                if (auto const& t = s->get_positive_tagged_end_transition(); t.has_value()) {
                    put("c", t->serialize(ids));
                }
                if (auto const& t = s->get_negative_tagged_transition(); t.has_value()) {
                    put("n", t->serialize(ids));
                }
                r += "]}";
            }
            emit(r + "]");
        } else if (c == "nfa") {
            emit("\"ev\":\"nfa\",\"ok\":true,\"nfa\":" + jstr(nfa.serialize()));
        } else {
            auto dfa = lexers::ByteLexer::nfa_to_dfa(nfa);
            auto nm = [](uint32_t i) { return std::to_string(i); };
            emit("\"ev\":\"rdfa\",\"ok\":true," + dump_dfa(*dfa, nm));
        }
        return true;
    }
    if (c == "intersect" || c == "intersectlp") {  // slot1 slot2; lp: slot1 is a whole schema
        auto mk = [](string const& s) {
            auto a = schema_ast(s);
            vector<LexicalRule<N>> rules;
            uint32_t id = 100;
            for (auto const& v : a->m_schema_vars) {
                auto* r = dynamic_cast<SchemaVarAST*>(v.get());
                rules.emplace_back(id++, std::move(r->m_regex_ptr));
            }
            RegexNFA<N> nfa{std::move(rules)};
            return lexers::ByteLexer::nfa_to_dfa(nfa);
        };
        auto d2 = mk(w[2]);
        string r = "\"ev\":\"intersect\",\"r\":[";
        bool first = true;
        if (c == "intersectlp") {
            LogParser lp{schema_ast(w[1])};
            for (auto i : lp.m_lexer.get_dfa()->get_intersect(d2)) {
                r += (first ? "" : ",") + jstr(lp.get_id_symbol(i));
                first = false;
            }
        } else {
            auto d1 = mk(w[1]);
            for (auto i : d1->get_intersect(d2)) {
                r += (first ? "\"" : ",\"") + std::to_string(i) + "\"";
                first = false;
            }
        }
        emit(r + "]");
        return true;
    }
    return false;
}
