// Histories of Schema objects
#include <log_surgeon/Schema.hpp>

static std::map<string, std::unique_ptr<Schema>> scs;

static void sc_try(string const& op, string const& slot, std::function<void()> const& f) {
    string r = "\"ev\":\"sc\",\"op\":\"" + op + "\",\"s\":" + jstr(slot) + ",";
    try {
        f();
        emit(r + "\"ok\":true");
    } catch (std::runtime_error const& e) {
        emit(r + exc_body(e));
    } catch (std::exception const& e) {
        emit(r + "\"odd\":true," + exc_body(e));
    }
}

static bool run_sc(vector<string> const& w) {
    string const& c = w[0];
    Sizes const sizes;
    if (c == "sc.new") {
        sc_try("new", w[1], [&] { scs[w[1]] = std::make_unique<Schema>(); });
        return true;
    }
    if (c == "sc.load") {  // slot file
        sc_try("load", w[1], [&] { scs[w[1]] = std::make_unique<Schema>(unhex(w[2])); });
        return true;
    }
    if (c == "sc.add") {  // slot text priority
        sc_try("add", w[1], [&] { scs.at(w[1])->add_variable(unhex(w[2]), std::stoi(w[3])); });
        return true;
    }
    if (c == "sc.release") {  // slot, where to put the AST
        asts[w[2]] = scs.at(w[1])->release_schema_ast_ptr();
        emit("\"ev\":\"sc\",\"op\":\"release\",\"s\":" + jstr(w[1]) + ",\"ok\":true,"
             + dump_schema(*asts[w[2]]));
        return true;
    }
    return false;
}
