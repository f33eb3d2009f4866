// ReaderParser and log events
#include <malloc.h>

#include <log_surgeon/LogEvent.hpp>
#include <log_surgeon/LogParser.hpp>
#include <log_surgeon/ReaderParser.hpp>

// ---------------------------------------------------------------------------------------------
// Log events
// ---------------------------------------------------------------------------------------------
struct Fnv {
    uint64_t h{1469598103934665603ULL};

    void add(std::string_view s) {
        for (unsigned char c : s) {
            h = (h ^ c) * 1099511628211ULL;
        }
    }
};

static string type_names(LogParser const& lp, vector<uint32_t> const& ids) {
    string r = "[";
    for (size_t i = 0; i < ids.size(); ++i) {
        r += string(i ? "," : "") + jstr(lp.get_id_symbol(ids[i]));
    }
    return r + "]";
}

// vars: names of every symbol with at least one occurrence, with the texts in order
static string dump_event(LogEventView const& v, LogParser const& lp) {
    auto const& ob = v.get_log_output_buffer();
    string r = "\"ts\":";
    Token* ts = v.get_timestamp();
    if (ts != nullptr) {
        r += "[" + bytes(ts->to_string_view()) + "]";
    } else {
        r += "[]";
    }
    r += ",\"toks\":[";
    uint32_t start = ob->has_timestamp() ? 0 : 1;
    bool same = true;
    for (uint32_t i = start; i < ob->pos(); ++i) {
        Token& t = ob->get_mutable_token(i);
        string a = t.to_string();
        string b{t.to_string_view()};
        same = same && a == b && t.get_length() == b.size();
        if (!b.empty()) {
            same = same && t.get_char(0) == b[0] && t.get_delimiter() == string(1, b[0])
                   && t.get_char(b.size() < 256 ? b.size() - 1 : 255)
                              == b[b.size() < 256 ? b.size() - 1 : 255];
        }
        r += string(i == start ? "" : ",") + "{\"ty\":" + type_names(lp, *t.m_type_ids_ptr)
             + ",\"s\":" + bytes(b) + ",\"ln\":" + std::to_string(t.m_line) + "}";
    }
    r += "],\"same\":";
    r += same ? "true" : "false";
    r += ",\"str\":" + bytes(v.to_string());
    r += ",\"lt\":" + bytes(v.get_logtype());
    r += ",\"ml\":";
    r += v.is_multiline() ? "true" : "false";
    r += ",\"vars\":[";
    bool first = true;
    auto const n = lp.m_lexer.m_id_symbol.size();
    for (size_t id = 0; id < n; ++id) {
        auto const& occ = v.get_variables(id);
        if (occ.empty()) {
            continue;
        }
        r += string(first ? "" : ",") + "{\"n\":" + jstr(lp.get_id_symbol(id)) + ",\"o\":[";
        first = false;
        for (size_t k = 0; k < occ.size(); ++k) {
            r += (k ? "," : "") + bytes(occ[k]->to_string());
        }
        r += "]}";
    }
    return r + "]";
}

// ------------------------------------------------------------------------------------------
// Reader
// ---------------------------------------------------------------------------------------------
struct Feed {
    string data;
    size_t pos{0};
    vector<int> plan;  // max bytes per call; -1: unlimited; -2 to -6: error
    size_t call{0};
    size_t reads{0};
    size_t max_ask{0};
    size_t errors{0};
    ErrorCode last_error{ErrorCode::Success};
    bool eof_seen{false};

    static auto code(int k) -> ErrorCode {
        switch (k) {
            case -3:
                return ErrorCode::NotInit;
            case -4:
                return ErrorCode::FileNotFound;
            case -5:
                return ErrorCode::Truncated;
            case -6:
                return ErrorCode::BadParam;
            default:
                return ErrorCode::Errno;
        }
    }

    auto read(char* buf, size_t n, size_t& got) -> ErrorCode {
        ++reads;
        max_ask = std::max(max_ask, n);
        int k = call < plan.size() ? plan[call] : -1;
        ++call;
        if (k <= -2) {
            got = 0;
            ++errors;
            last_error = code(k);
            return last_error;
        }
        size_t m = data.size() - pos;
        m = std::min(m, n);
        if (k >= 0) {
            m = std::min(m, static_cast<size_t>(k));
        }
        memcpy(buf, data.data() + pos, m);
        pos += m;
        got = m;
        if (m == 0) {
            eof_seen = true;
            return ErrorCode::EndOfFile;
        }
        return ErrorCode::Success;
    }
};

struct RP {
    std::unique_ptr<ReaderParser> p;
    std::shared_ptr<Feed> f;
};

static std::map<string, RP> rps;
static std::map<string, std::unique_ptr<LogEvent>> copies;

template <typename E>
static auto moved(E& e) -> std::unique_ptr<E> {
    if constexpr (std::is_move_constructible_v<E>) {
        return std::make_unique<E>(std::move(e));
    } else {
        return std::make_unique<E>(e.deep_copy());
    }
}

static void show_next(RP& r, string const& slot, ErrorCode e) {
    string b = "\"ev\":\"next\",\"rc\":\"" + string(rc_name(e)) + "\",\"done\":"
               + (r.p->done() ? "true" : "false");
    if (e == ErrorCode::Success) {
        auto const& lp = r.p->get_log_parser();
        b += "," + dump_event(lp.get_log_event_view(), lp);
    }
    b += ",\"rd\":" + std::to_string(r.f->pos) + ",\"er\":"
         + std::to_string(r.f->errors) + ",\"ec\":\"" + rc_name(r.f->last_error)
         + "\",\"sl\":" + jstr(slot);
    emit(b);
}

// The id of a name, and what it leads back to
static void show_id(string const& name, std::optional<uint32_t> id, LogParser const& lp) {
    string r = "\"ev\":\"ask\",\"n\":" + jstr(name) + ",\"id\":[";
    if (id.has_value()) {
        r += std::to_string(*id) + "],\"back\":[" + jstr(lp.get_id_symbol(*id));
    } else {
        r += "],\"back\":[";
    }
    emit(r + "]");
}

// The ids that the tokens of the event have, with their names
static void show_types(LogParser const& lp) {
    auto const& v = lp.get_log_event_view();
    auto const& ob = v.get_log_output_buffer();
    std::set<uint32_t> ids;
    for (uint32_t i = ob->has_timestamp() ? 0 : 1; i < ob->pos(); ++i) {
        auto const* t = ob->get_token(i).m_type_ids_ptr;
        ids.insert(t->begin(), t->end());
    }
    for (auto id : ids) {
        emit("\"ev\":\"type\",\"id\":" + std::to_string(id) + ",\"n\":"
             + jstr(lp.get_id_symbol(id)));
    }
}

static bool run_rp(vector<string> const& w) {
    string const& c = w[0];
    if (c == "rp.new") {
        auto a = schema_ast(w[2]);
        Sizes s;
        rps[w[1]].p = std::make_unique<ReaderParser>(std::move(a));
        return true;
    }
    if (c == "rp.slot") {  // so that nothing is inserted by threads
        rps[w[1]];
        schemas[w[1]];
        return true;
    }
    if (c == "rp.pipe") {  // slot slot2 actor2: what the second parser returns is the first one's input
        auto& r = rps.at(w[1]);
        auto& from = rps.at(w[2]);
        r.f = std::make_shared<Feed>();
        Reader rd;
        auto left = std::make_shared<string>();
        rd.read = [&from, left, me = cur_actor, other = w[3]](char* b, size_t n, size_t& g) {
            g = 0;
            if (left->empty() && !from.p->done()) {
                cur_actor = other;
                show_next(from, other, from.p->parse_next_event());
                cur_actor = me;
                *left = from.p->get_log_parser().get_log_event_view().to_string();
            }
            g = std::min(n, left->size());
            memcpy(b, left->data(), g);
            left->erase(0, g);
            return 0 == g ? ErrorCode::EndOfFile : ErrorCode::Success;
        };
        Sizes s;
        r.p->reset_and_set_reader(rd);
        emit("\"ev\":\"set\",\"done\":" + string(r.p->done() ? "true" : "false"));
        return true;
    }
    if (c == "rp.finish") {
        for (int i = 0; i < 2000 && !rps.at(w[1]).p->done(); ++i) {
            run_rp({"rp.next", w[1]});
        }
        return true;
    }
    if (c == "rp.newfile") {
        rps[w[1]].p = std::make_unique<ReaderParser>(unhex(w[2]));
        return true;
    }
    if (c == "rp.set") {  // slot input plan
        auto& r = rps.at(w[1]);
        r.f = std::make_shared<Feed>();
        r.f->data = unhex(w[2]);
        if (w.size() > 3) {
            std::istringstream in(w[3]);
            string x;
            while (std::getline(in, x, ',')) {
                r.f->plan.push_back(std::stoi(x));
            }
        }
        Reader rd;
        auto f = r.f;
        rd.read = [f](char* b, size_t n, size_t& g) { return f->read(b, n, g); };
        Sizes s;
        r.p->reset_and_set_reader(rd);
        emit("\"ev\":\"set\",\"done\":" + string(r.p->done() ? "true" : "false"));
        return true;
    }
    if (c == "rp.upto" && rps.at(w[1]).p->done()) {
        return true;
    }
    if (c == "rp.next" || c == "rp.all" || c == "rp.some" || c == "rp.upto") {
        auto& r = rps.at(w[1]);
        Sizes s;
        int left = c == "rp.next" || c == "rp.upto" ? 1 : std::stoi(w[2]);
        int errors = w.size() > 3 ? -std::stoi(w[3]) : 0;
        while (left-- > 0) {
            ErrorCode e{};
            try {
                e = r.p->parse_next_event();
            } catch (std::exception const& x) {
                emit("\"ev\":\"throw\"," + exc_body(x));
                break;
            }
            show_next(r, w[1], e);
            if (e != ErrorCode::Success && ++errors > 3) {
                break;
            }
            if (c == "rp.all" && r.p->done()) {
                break;
            }
        }
        return true;
    }
    if (c == "rp.drain") {  // slot every: parse to the end, reporting every so many events
        auto& r = rps.at(w[1]);
        Sizes s;
        size_t const every = std::stoul(w[2]);
        size_t n = 0;
        size_t delivered = 0;
        size_t longest = 0;
        size_t pending = 0;  // most bytes ahead of an event since the last report
        auto report = [&](ErrorCode e) {
            emit("\"ev\":\"drain\",\"rc\":\"" + string(rc_name(e)) + "\",\"done\":"
                 + (r.p->done() ? "true" : "false") + ",\"n\":" + std::to_string(n) + ",\"out\":"
                 + std::to_string(delivered) + ",\"longest\":" + std::to_string(longest)
                 + ",\"ahead\":" + std::to_string(pending) + ",\"ask\":"
                 + std::to_string(r.f->max_ask) + ",\"mem\":"
                 + std::to_string(mallinfo2().uordblks + mallinfo2().hblkhd));
            pending = 0;
        };
        while (true) {
            ErrorCode e = r.p->parse_next_event();
            if (e != ErrorCode::Success) {
                report(e);
                break;
            }
            ++n;
            size_t const len = r.p->get_log_parser().get_log_event_view().to_string().size();
            delivered += len;
            longest = std::max(longest, len);
            pending = std::max(pending, r.f->pos - delivered);
            if (r.p->done() || n % every == 0) {
                report(e);
            }
            if (r.p->done() || n > 10'000'000) {
                break;
            }
        }
        return true;
    }
    if (c == "rp.parts") {  // slot most hex...: the input is the parts, each repeated (hex:times)
        auto& r = rps.at(w[1]);
        string d;
        for (size_t i = 3; i < w.size(); ++i) {
            auto const at = w[i].find(':');
            string const u = unhex(w[i].substr(0, at));
            for (int n = std::stoi(w[i].substr(at + 1)); n > 0; --n) {
                d += u;
            }
        }
        r.f = std::make_shared<Feed>();
        r.f->data = std::move(d);
        Reader rd;
        auto f = r.f;
        size_t const most = std::stoul(w[2]);
        rd.read = [f, most](char* b, size_t n, size_t& g) {
            f->max_ask = std::max(f->max_ask, n);
            return f->read(b, std::min(n, most), g);
        };
        Sizes s;
        r.p->reset_and_set_reader(rd);
        return true;
    }
    if (c == "rp.copy") {  // parser slot -> copy slot, show it
        auto& r = rps.at(w[1]);
        auto const& lp = r.p->get_log_parser();
        Sizes s;
        try {
            copies[w[2]] = std::make_unique<LogEvent>(lp.get_log_event_view().deep_copy());
            emit("\"ev\":\"copy\",\"ok\":true," + dump_event(*copies[w[2]], lp));
        } catch (std::exception const& e) {
            emit("\"ev\":\"copy\"," + exc_body(e));
        }
        return true;
    }
    if ((c == "show" || c == "copycopy" || c == "movecopy") && copies.find(w[1]) == copies.end()) {
        emit("\"ev\":\"nosuch\"");
        return true;
    }
    if (c == "show") {
        Sizes s;
        auto const& e = *copies.at(w[1]);
        emit("\"ev\":\"show\",\"ok\":true," + dump_event(e, e.get_log_parser()));
        return true;
    }
    if (c == "copycopy") {  // deep copy of a copy
        Sizes s;
        auto const& e = *copies.at(w[1]);
        try {
            copies[w[2]] = std::make_unique<LogEvent>(e.deep_copy());
            auto const& n = *copies[w[2]];
            emit("\"ev\":\"copy\",\"ok\":true," + dump_event(n, n.get_log_parser()));
        } catch (std::exception const& x) {
            emit("\"ev\":\"copy\"," + exc_body(x));
        }
        return true;
    }
    if (c == "movecopy") {  // hand an event over to another owner
        auto n = moved(*copies.at(w[1]));
        copies.erase(w[1]);
        copies[w[2]] = std::move(n);
        emit("\"ev\":\"moved\"");
        return true;
    }
    if (c == "drop") {
        copies.erase(w[1]);
        return true;
    }
    if (c == "rp.ask") {  // slot name...
        auto& r = rps.at(w[1]);
        for (size_t i = 2; i < w.size(); ++i) {
            show_id(unhex(w[i]), r.p->get_variable_id(unhex(w[i])), r.p->get_log_parser());
        }
        return true;
    }
    if (c == "rp.types") {
        show_types(rps.at(w[1]).p->get_log_parser());
        return true;
    }
    return false;
}
