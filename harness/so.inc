// Schema objects
#include <log_surgeon/Schema.hpp>

static std::map<string, std::unique_ptr<Schema>> schema_objs;

static bool run_so(vector<string> const& w) {
    string const& c = w[0];
    if (c == "so.new") {
        schema_objs[w[1]] = w.size() > 2 ? std::make_unique<Schema>(unhex(w[2]))
                                         : std::make_unique<Schema>();
        emit("\"ev\":\"sonew\",\"ok\":true");
        return true;
    }
    if (c == "so.add") {  // slot text priority
        try {
            schema_objs.at(w[1])->add_variable(unhex(w[2]), std::stoi(w[3]));
            emit("\"ev\":\"soadd\",\"ok\":true");
        } catch (std::exception const& e) {
            emit("\"ev\":\"soadd\"," + exc_body(e));
        }
        return true;
    }
    if (c == "so.release") {
        auto a = schema_objs.at(w[1])->release_schema_ast_ptr();
        emit("\"ev\":\"sorel\",\"ok\":true," + dump_schema(*a));
        return true;
    }
    if (c == "so.toast") {  // move the object's AST into an ast slot
        asts[w[2]] = schema_objs.at(w[1])->release_schema_ast_ptr();
        return true;
    }
    return false;
}
