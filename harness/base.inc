// Schemas by slot, buffer sizes
#include <filesystem>
#include <log_surgeon/Buffer.hpp>
#include <log_surgeon/SchemaParser.hpp>
#include <log_surgeon/Token.hpp>

static std::map<string, string> schemas;
static std::map<string, std::unique_ptr<SchemaAST>> asts;
static uint32_t size_char = cStaticByteBuffSize;
static uint32_t size_tok = cStaticByteBuffSize;

struct Sizes {
    Sizes() {
        Buffer<char>::cInitialSize = size_char;
        Buffer<Token>::cInitialSize = size_tok;
    }

    ~Sizes() {
        Buffer<char>::cInitialSize = cStaticByteBuffSize;
        Buffer<Token>::cInitialSize = cStaticByteBuffSize;
    }
};

static auto schema_ast(string const& slot) -> std::unique_ptr<SchemaAST> {
    auto it = asts.find(slot);
    if (it != asts.end()) {
        return std::move(it->second);
    }
    return SchemaParser::try_schema_string(schemas.at(slot));
}

static bool run_base(vector<string> const& w) {
    string const& c = w[0];
    if (c == "sizes") {
        // 0: the library's own sizes
        size_char = w[1] == "0" ? cStaticByteBuffSize : std::stoul(w[1]);
        size_tok = w[2] == "0" ? cStaticByteBuffSize : std::stoul(w[2]);
        return true;
    }
    if (c == "schema") {
        schemas[w[1]] = unhex(w[2]);
        return true;
    }
    if (c == "mkdir") {
        std::filesystem::create_directory(unhex(w[1]));
        return true;
    }
    if (c == "schemafile") {  // write the schema text to a scratch file
        std::ofstream f(unhex(w[1]), std::ios::binary);
        f << unhex(w[2]);
        return true;
    }
    return false;
}
