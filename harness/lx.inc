// Lexers used on their own
#include <log_surgeon/Lexer.hpp>
#include <log_surgeon/ParserInputBuffer.hpp>
#include <log_surgeon/Reader.hpp>

namespace lx {
struct Alone {
    lexers::ByteLexer lexer;
    std::unique_ptr<ParserInputBuffer> buffer;
};

static std::map<string, Alone> alones;

static bool run_lx(vector<string> const& w) {
    string const& c = w[0];
    if (c == "lx.new") {  // slot, slot of the rules, delimiters, ids...
        alones.erase(w[1]);
        auto& x = alones[w[1]];
        if (w[3] != "-") {
            vector<uint32_t> delimiters;
            for (unsigned char d : unhex(w[3])) {
                delimiters.push_back(d);
            }
            x.lexer.add_delimiters(delimiters);
        }
        auto ast = schema_ast(w[2]);
        size_t i = 4;
        for (auto const& v : ast->m_schema_vars) {
            auto* r = dynamic_cast<SchemaVarAST*>(v.get());
            x.lexer.add_rule(std::stoul(w.at(i++)), std::move(r->m_regex_ptr));
        }
        x.lexer.generate();
        return true;
    }
    if (c == "lx.scan") {  // slot, text, most bytes of a read (0: no reader), most tokens, wildcard or -
        auto& x = alones.at(w[1]);
        string d = unhex(w[2]);
        size_t const most = std::stoul(w[3]);
        size_t const tokens = std::stoul(w[4]);
        size_t pos = 0;
        Reader rd{[&](char* dst, size_t n, size_t& got) -> ErrorCode {
            got = std::min({n, most, d.size() - pos});
            memcpy(dst, d.data() + pos, got);
            pos += got;
            return 0 == got ? ErrorCode::EndOfFile : ErrorCode::Success;
        }};
        Sizes const s;
        if (nullptr == x.buffer) {
            x.buffer = std::make_unique<ParserInputBuffer>();
        }
        auto& in = *x.buffer;
        in.reset();
        x.lexer.reset();
        if (0 == most) {
            in.set_storage(d.data(), d.size(), 0, true);
        } else {
            std::ignore = in.read_if_safe(rd);
        }
        string toks;
        string end = "more";
        for (size_t n = 0; n < tokens; ++n) {
            Token t;
            ErrorCode e;
            while (true) {
                e = w[5] == "-" ? x.lexer.scan(in, t) : x.lexer.scan_with_wildcard(in, w[5][0], t);
                if (ErrorCode::BufferOutOfBounds != e) {
                    break;
                }
                if (false == in.read_is_safe()) {
                    x.lexer.increase_buffer_capacity(in);
                }
                if (ErrorCode const r = in.read_if_safe(rd);
                    ErrorCode::Success != r && ErrorCode::EndOfFile != r)
                {
                    e = r;
                    break;
                }
            }
            if (ErrorCode::Success != e) {
                end = rc_name(e);
                break;
            }
            in.set_consumed_pos(t.m_start_pos);
            if (t.m_type_ids_ptr->at(0) == static_cast<uint32_t>(SymbolId::TokenEnd)) {
                end = t.m_start_pos == t.m_end_pos ? "end" : "an end with a text";
                break;
            }
            toks += string(n ? "," : "") + "{\"ty\":[";
            for (size_t i = 0; i < t.m_type_ids_ptr->size(); ++i) {
                toks += string(i ? "," : "") + "\"" + std::to_string(t.m_type_ids_ptr->at(i)) + "\"";
            }
            toks += "],\"s\":" + bytes(t.to_string()) + "}";
        }
        emit("\"ev\":\"lex\",\"end\":" + jstr(end) + ",\"toks\":[" + toks + "]");
        return true;
    }
    return false;
}
}  // namespace lx

using lx::run_lx;
