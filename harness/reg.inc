// Prefix tree and registers
#include <log_surgeon/finite_automata/PrefixTree.hpp>
#include <log_surgeon/finite_automata/RegisterHandler.hpp>

using namespace log_surgeon::finite_automata;
static std::unique_ptr<PrefixTree> ptree;
static std::unique_ptr<RegisterHandler> regs;

static string ints(vector<int32_t> const& v) {
    string r = "[";
    for (size_t i = 0; i < v.size(); ++i) {
        r += (i ? "," : "") + std::to_string(v[i]);
    }
    return r + "]";
}

static bool run_reg(vector<string> const& w) {
    string const& c = w[0];
    if (c == "pt.new") {
        ptree = std::make_unique<PrefixTree>();
        return true;
    }
    if (c == "pt.insert" || c == "pt.set" || c == "pt.get") {
        string r = "\"ev\":\"pt\",\"op\":\"" + c.substr(3) + "\",\"a\":" + w[1] + ",\"b\":"
                   + (w.size() > 2 ? w[2] : string("0"));
        try {
            if (c == "pt.insert") {
                auto id = ptree->insert(std::stoul(w[1]), std::stoi(w[2]));
                r += ",\"ok\":true,\"r\":[" + std::to_string(id) + "]";
            } else if (c == "pt.set") {
                ptree->set(std::stoul(w[1]), std::stoi(w[2]));
                r += ",\"ok\":true,\"r\":[]";
            } else {
                r += ",\"ok\":true,\"r\":" + ints(ptree->get_reversed_positions(std::stoul(w[1])));
            }
        } catch (std::out_of_range const&) {
            r += ",\"ok\":false,\"r\":[]";
        }
        emit(r + ",\"size\":" + std::to_string(ptree->size()));
        return true;
    }
    if (c == "rh.all") {  // the histories of all registers
        string r = "\"ev\":\"rhall\",\"regs\":[";
        for (size_t i = 0; i < 1000; ++i) {
            try {
                auto const v = ints(regs->get_reversed_positions(i));
                r += (i ? "," : "") + v;
            } catch (std::out_of_range const&) {
                break;
            }
        }
        emit(r + "]");
        return true;
    }
    if (c == "rh.new") {
        regs = std::make_unique<RegisterHandler>();
        return true;
    }
    if (c == "rh.add" || c == "rh.set" || c == "rh.copy" || c == "rh.app" || c == "rh.get") {
        string r = "\"ev\":\"rh\",\"op\":\"" + c.substr(3) + "\",\"a\":" + w[1] + ",\"b\":"
                   + (w.size() > 2 ? w[2] : string("0"));
        vector<int32_t> v;
        bool ok = true;
        try {
            if (c == "rh.add") {
                regs->add_register(std::stoul(w[1]), std::stoi(w[2]));
            } else if (c == "rh.set") {
                regs->set_register(std::stoul(w[1]), std::stoi(w[2]));
            } else if (c == "rh.copy") {
                regs->copy_register(std::stoul(w[1]), std::stoul(w[2]));
            } else if (c == "rh.app") {
                regs->append_position(std::stoul(w[1]), std::stoi(w[2]));
            } else {
                v = regs->get_reversed_positions(std::stoul(w[1]));
            }
        } catch (std::out_of_range const&) {
            ok = false;
        }
        emit(r + ",\"ok\":" + (ok ? "true" : "false") + ",\"r\":" + ints(v));
        return true;
    }
    return false;
}
