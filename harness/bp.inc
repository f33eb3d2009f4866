// BufferParser
#include <log_surgeon/BufferParser.hpp>

struct BP {
    std::unique_ptr<BufferParser> p;
    vector<char> buf;
    size_t off{0};
};

static std::map<string, BP> bps;

static bool run_bp(vector<string> const& w) {
    string const& c = w[0];
    if (c == "bp.new") {
        auto a = schema_ast(w[2]);
        Sizes s;
        bps[w[1]].p = std::make_unique<BufferParser>(std::move(a));
        return true;
    }
    if (c == "bp.buf") {  // slot bytes: (re)fill the user's buffer
        auto& b = bps.at(w[1]);
        string d = unhex(w[2]);
        b.buf.assign(d.begin(), d.end());
        b.buf.push_back('\0');
        b.off = 0;
        return true;
    }
    if (c == "bp.reset") {
        Sizes s;
        bps.at(w[1]).p->reset();
        emit("\"ev\":\"breset\",\"done\":" + string(bps.at(w[1]).p->done() ? "true" : "false"));
        return true;
    }
    if (c == "bp.next" || c == "bp.all") {  // slot size offset finished
        auto& b = bps.at(w[1]);
        Sizes s;
        size_t size = std::stoul(w[2]);
        size_t off = std::stoul(w[3]);
        bool fin = w[4] == "1";
        int left = c == "bp.all" ? 100000 : w.size() > 5 ? std::stoi(w[5]) : 1;
        while (left-- > 0) {
            size_t const before = off;
            ErrorCode e = b.p->parse_next_event(b.buf.data(), size, off, fin);
            string r = "\"ev\":\"bnext\",\"rc\":\"" + string(rc_name(e)) + "\",\"done\":"
                       + (b.p->done() ? "true" : "false") + ",\"from\":" + std::to_string(before)
                       + ",\"off\":" + std::to_string(off) + ",\"lim\":" + std::to_string(size)
                       + ",\"fin\":" + (fin ? "true" : "false") + ",\"sl\":" + jstr(w[1]);
            if (e == ErrorCode::Success) {
                auto const& lp = b.p->get_log_parser();
                r += "," + dump_event(lp.get_log_event_view(), lp);
            }
            emit(r);
            if (e != ErrorCode::Success || b.p->done()) {
                break;
            }
        }
        return true;
    }
    if (c == "bp.ask") {
        auto& b = bps.at(w[1]);
        for (size_t i = 2; i < w.size(); ++i) {
            show_id(unhex(w[i]), b.p->get_variable_id(unhex(w[i])), b.p->get_log_parser());
        }
        return true;
    }
    if (c == "bp.types") {
        show_types(bps.at(w[1]).p->get_log_parser());
        return true;
    }
    if (c == "bp.slot") {
        bps[w[1]];
        schemas[w[1]];
        return true;
    }
    if (c == "bp.upto" && bps.at(w[1]).p->done()) {
        return true;
    }
    if (c == "bp.finish") {
        for (int i = 0; i < 2000 && !bps.at(w[1]).p->done(); ++i) {
            run_bp({"bp.step", w[1]});
        }
        return true;
    }
    if (c == "bp.step" || c == "bp.upto") {  // the next event of the buffer that was set
        auto& b = bps.at(w[1]);
        Sizes s;
        ErrorCode e = b.p->parse_next_event(b.buf.data(), b.buf.size() - 1, b.off, true);
        string r = "\"ev\":\"bnext\",\"rc\":\"" + string(rc_name(e)) + "\",\"done\":"
                   + (b.p->done() ? "true" : "false");
        if (e == ErrorCode::Success) {
            auto const& lp = b.p->get_log_parser();
            r += "," + dump_event(lp.get_log_event_view(), lp);
        }
        emit(r);
        return true;
    }
    if (c == "bp.drain") {  // slot unit times every: parse a long buffer, report as rp.drain does
        auto& b = bps.at(w[1]);
        Sizes s;
        string const u = unhex(w[2]);
        size_t const every = std::stoul(w[4]);
        string d;
        for (int i = std::stoi(w[3]); i > 0; --i) {
            d += u;
        }
        b.p->reset();
        size_t off = 0;
        size_t n = 0;
        size_t delivered = 0;
        size_t longest = 0;
        while (true) {
            ErrorCode e = b.p->parse_next_event(d.data(), d.size(), off, true);
            size_t const len
                    = b.p->get_log_parser().get_log_event_view().to_string().size();
            ++n;
            delivered += len;
            longest = std::max(longest, len);
            bool const last = b.p->done() || e != ErrorCode::Success || n > 10'000'000;
            if (last || n % every == 0) {
                emit("\"ev\":\"drain\",\"rc\":\"" + string(rc_name(e)) + "\",\"done\":"
                     + (b.p->done() ? "true" : "false") + ",\"n\":" + std::to_string(n)
                     + ",\"out\":" + std::to_string(delivered) + ",\"longest\":"
                     + std::to_string(longest) + ",\"ahead\":0,\"ask\":0,\"mem\":"
                     + std::to_string(mallinfo2().uordblks + mallinfo2().hblkhd));
            }
            if (last) {
                break;
            }
        }
        return true;
    }
    if (c == "bp.copy") {
        auto const& lp = bps.at(w[1]).p->get_log_parser();
        Sizes s;
        try {
            copies[w[2]] = std::make_unique<LogEvent>(lp.get_log_event_view().deep_copy());
            emit("\"ev\":\"copy\",\"ok\":true," + dump_event(*copies[w[2]], lp));
        } catch (std::exception const& e) {
            emit("\"ev\":\"copy\"," + exc_body(e));
        }
        return true;
    }
    if (c == "bp.refill") {
        // The documented refill loop: slot input capacity late plan.  The buffer starts with
        // `capacity` bytes; on BufferOutOfBounds the bytes from offset on are moved to the front
        // and the rest is filled from the input; if nothing could be freed the buffer is doubled.
        auto& b = bps.at(w[1]);
        string d = unhex(w[2]);
        size_t cap = std::stoul(w[3]);
        bool late = w[4] == "1";
        vector<int> plan;
        if (w.size() > 5) {
            std::istringstream in(w[5]);
            string x;
            while (std::getline(in, x, ',')) {
                plan.push_back(std::stoi(x));
            }
        }
        size_t call = 0;
        Sizes s;
        b.buf.assign(cap, '\0');
        size_t have = 0;
        size_t off = 0;
        size_t in_pos = 0;
        bool fin = false;
        auto fill = [&] {
            size_t n = std::min(b.buf.size() - have, d.size() - in_pos);
            if (call < plan.size() && plan[call] >= 0) {
                n = std::min(n, static_cast<size_t>(plan[call]));
            }
            ++call;
            memcpy(b.buf.data() + have, d.data() + in_pos, n);
            have += n;
            in_pos += n;
            // a caller may learn that there is no more only when it asks again
            fin = in_pos == d.size() && (!late || n == 0);
        };
        fill();
        size_t base = 0;  // absolute position of b.buf[0]
        for (int guard = 0; guard < 100000; ++guard) {
            size_t const before = off;
            ErrorCode e = b.p->parse_next_event(b.buf.data(), have, off, fin);
            string r = "\"ev\":\"bnext\",\"rc\":\"" + string(rc_name(e)) + "\",\"done\":"
                       + (b.p->done() ? "true" : "false") + ",\"from\":"
                       + std::to_string(base + before) + ",\"off\":" + std::to_string(base + off)
                       + ",\"lim\":" + std::to_string(base + have) + ",\"fin\":"
                       + (fin ? "true" : "false");
            if (e == ErrorCode::Success) {
                auto const& lp = b.p->get_log_parser();
                r += "," + dump_event(lp.get_log_event_view(), lp);
            }
            emit(r);
            if (e == ErrorCode::Success) {
                if (b.p->done()) {
                    break;
                }
                continue;
            }
            if (e != ErrorCode::BufferOutOfBounds || off > have) {
                break;
            }
            memmove(b.buf.data(), b.buf.data() + off, have - off);
            base += off;
            have -= off;
            off = 0;
            if (have == b.buf.size()) {
                b.buf.resize(b.buf.size() * 2);
            }
            fill();
        }
        return true;
    }
    return false;
}
