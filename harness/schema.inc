// Parsing schema texts and building parsers from them
#include <log_surgeon/ReaderParser.hpp>
#include <log_surgeon/SchemaParser.hpp>

static string dump_schema(SchemaAST& s) {
    string r = "\"delims\":[";
    for (size_t i = 0; i < s.m_delimiters.size(); ++i) {
        auto* d = dynamic_cast<DelimiterStringAST*>(s.m_delimiters[i].get());
        r += i ? ",[" : "[";
        for (size_t j = 0; d != nullptr && j < d->m_delimiters.size(); ++j) {
            r += (j ? "," : "") + std::to_string(d->m_delimiters[j] & 0xFF);
        }
        r += "]";
    }
    r += "],\"vars\":[";
    for (size_t i = 0; i < s.m_schema_vars.size(); ++i) {
        auto* v = dynamic_cast<SchemaVarAST*>(s.m_schema_vars[i].get());
        r += string(i ? "," : "") + "{\"n\":" + jstr(v->m_name) + ",\"l\":"
             + std::to_string(v->m_line_num + 1) + "}";
    }
    return r + "]";
}

static bool run_schema(vector<string> const& w) {
    string const& c = w[0];
    Sizes const sizes;
    if (c == "schema.parse") {  // parse text, dump the AST
        try {
            auto a = SchemaParser::try_schema_string(schemas.at(w[1]));
            emit("\"ev\":\"schema\",\"ok\":true," + dump_schema(*a));
        } catch (std::runtime_error const& e) {
            emit("\"ev\":\"schema\"," + exc_body(e));
        } catch (std::exception const& e) {
            emit("\"ev\":\"schema\",\"odd\":true," + exc_body(e));
        }
        return true;
    }
    if (c == "schema.parsefile") {
        try {
            auto a = SchemaParser::try_schema_file(unhex(w[1]));
            emit("\"ev\":\"schema\",\"ok\":true," + dump_schema(*a));
        } catch (std::runtime_error const& e) {
            emit("\"ev\":\"schema\"," + exc_body(e));
        } catch (std::exception const& e) {
            emit("\"ev\":\"schema\",\"odd\":true," + exc_body(e));
        }
        return true;
    }
    if (c == "schema.build") {  // build a parser from it; report success or the exception
        try {
            ReaderParser p{schema_ast(w[1])};
            emit("\"ev\":\"build\",\"ok\":true");
        } catch (std::runtime_error const& e) {
            emit("\"ev\":\"build\"," + exc_body(e));
        } catch (std::exception const& e) {
            emit("\"ev\":\"build\",\"odd\":true," + exc_body(e));
        }
        return true;
    }
    if (c == "schema.buildfile") {
        try {
            ReaderParser p{unhex(w[1])};
            emit("\"ev\":\"build\",\"ok\":true");
        } catch (std::runtime_error const& e) {
            emit("\"ev\":\"build\"," + exc_body(e));
        } catch (std::exception const& e) {
            emit("\"ev\":\"build\",\"odd\":true," + exc_body(e));
        }
        return true;
    }
    return false;
}
