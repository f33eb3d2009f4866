// Interval tree
#include <log_surgeon/finite_automata/UnicodeIntervalTree.hpp>

using namespace log_surgeon::finite_automata;
using ITree = UnicodeIntervalTree<int>;
static std::unique_ptr<ITree> itree;

static string itree_list(vector<ITree::Data> v) {
    string r = "[";
    bool first = true;
    for (auto const& d : v) {
        r += string(first ? "" : ",") + "[" + std::to_string(d.m_interval.first) + ","
             + std::to_string(d.m_interval.second) + "," + std::to_string(d.m_value) + "]";
        first = false;
    }
    return r + "]";
}

static bool run_it(vector<string> const& w) {
    string const& c = w[0];
    if (c == "it.new") {
        itree = std::make_unique<ITree>();
        return true;
    }
    if (c == "it.insert") {
        itree->insert(Interval(std::stoul(w[1]), std::stoul(w[2])), std::stoi(w[3]));
        emit("\"ev\":\"itop\",\"op\":\"insert\",\"lo\":" + w[1] + ",\"hi\":" + w[2] + ",\"v\":" + w[3]
             + ",\"res\":[],\"all\":" + itree_list(itree->all()));
        return true;
    }
    if (c == "it.find") {
        auto r = itree->find(Interval(std::stoul(w[1]), std::stoul(w[2])));
        emit("\"ev\":\"itop\",\"op\":\"find\",\"lo\":" + w[1] + ",\"hi\":" + w[2]
             + ",\"v\":0,\"res\":" + itree_list(*r) + ",\"all\":" + itree_list(itree->all()));
        return true;
    }
    if (c == "it.pop") {
        auto r = itree->pop(Interval(std::stoul(w[1]), std::stoul(w[2])));
        emit("\"ev\":\"itop\",\"op\":\"pop\",\"lo\":" + w[1] + ",\"hi\":" + w[2]
             + ",\"v\":0,\"res\":" + itree_list(*r) + ",\"all\":" + itree_list(itree->all()));
        return true;
    }
    if (c == "it.reset") {
        itree->reset();
        emit("\"ev\":\"itop\",\"op\":\"reset\",\"lo\":0,\"hi\":0,\"v\":0,\"res\":[],\"all\":"
             + itree_list(itree->all()));
        return true;
    }
    return false;
}
