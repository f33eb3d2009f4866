// FileReader
#include <log_surgeon/FileReader.hpp>

static std::unique_ptr<FileReader> freader;

static bool run_fr(vector<string> const& w) {
    string const& c = w[0];
    if (c == "fr.new") {
        freader = std::make_unique<FileReader>();
        emit("\"ev\":\"fr\",\"op\":\"new\",\"n\":0,\"rc\":\"Success\",\"d\":[]");
        return true;
    }
    if (c == "fr.open") {
        auto e = freader->try_open(unhex(w[1]));
        emit("\"ev\":\"fr\",\"op\":\"open\",\"n\":" + w[2] + ",\"rc\":\"" + rc_name(e)
             + "\",\"d\":[]");
        return true;
    }
    if (c == "fr.read") {
        size_t n = std::stoul(w[1]);
        vector<char> b(n + 1);
        size_t got = 0;
        auto e = freader->read(b.data(), n, got);
        emit("\"ev\":\"fr\",\"op\":\"read\",\"n\":" + w[1] + ",\"rc\":\"" + rc_name(e) + "\",\"d\":"
             + bytes({b.data(), std::min(got, n)}));
        return true;
    }
    if (c == "fr.line") {  // delim keep append
        static string acc;
        bool app = w[3] == "1";
        if (!app) {
            acc = "zz";
        }
        string before = acc;
        auto e = freader->try_read_to_delimiter(
                static_cast<char>(std::stoi(w[1])),
                w[2] == "1",
                app,
                acc
        );
        string res = acc;
        if (app && res.compare(0, before.size(), before) == 0) {
            res = res.substr(before.size());
        }
        emit("\"ev\":\"fr\",\"op\":\"line\",\"n\":" + w[1] + ",\"keep\":"
             + (w[2] == "1" ? "true" : "false") + ",\"rc\":\"" + rc_name(e) + "\",\"d\":"
             + bytes(res));
        return true;
    }
    if (c == "fr.close") {
        freader->close();
        emit("\"ev\":\"fr\",\"op\":\"close\",\"n\":0,\"rc\":\"Success\",\"d\":[]");
        return true;
    }
    return false;
}
