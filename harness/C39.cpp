// C39: the same program does the same in every build: on every platform, with and without assertions, by each compiler
#include "pbt.hpp"

#include <dlfcn.h>
#include <unistd.h>

using namespace pbt;

namespace {

using Program = const char* (*)(const uint32_t*, size_t, size_t);
struct Build {
    std::string name;
    Program run;
};

const std::vector<Build>& builds() {
    static const std::vector<Build> all = [] {
        char self[4096] = {};
        CHECK(readlink("/proc/self/exe", self, sizeof self - 1) > 0, "no path to the executable");
        const std::string dir = std::string(self).substr(0, std::string(self).rfind('/'));
        std::vector<Build> b;
        std::string names = PROGRAMS;
        for (size_t at = 0; at < names.size();) {
            const auto end = names.find(',', at);
            const auto name = names.substr(at, end - at);
            at = end == std::string::npos ? names.size() : end + 1;
            void* const lib = dlopen((dir + "/lib" + name + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
            CHECK(lib, "cannot load " << name << ": " << dlerror());
            b.push_back({name, reinterpret_cast<Program>(dlsym(lib, "spine_program"))});
            CHECK(b.back().run, "no program in " << name);
        }
        return b;
    }();
    return all;
}

const char* const SUBJECTS[] = {"vectors", "rings", "streams", "events", "controllers", "filters", "units", "strings", "results", "platform"};

void compare(Ctx& c, const std::vector<uint32_t>& script) {
    std::string first;
    for (auto& b : builds()) {
        const std::string got = b.run(script.data(), script.size(), 40000);
        if (&b == &builds()[0]) {
            first = got;
            continue;
        }
        if (got == first) continue;
        size_t line = 1, at = 0;
        for (size_t i = 0; i < std::min(got.size(), first.size()) && got[i] == first[i]; ++i)
            if (first[i] == '\n') ++line, at = i + 1;
        CHECK(false, SUBJECTS[script.empty() ? 0 : script[0] % 10] << ", line " << line << ": the build '" << builds()[0].name << "' says \"" << first.substr(std::min(at, first.size()), first.find('\n', std::min(at, first.size())) - at) << "\", '" << b.name << "' says \"" << got.substr(std::min(at, got.size()), got.find('\n', std::min(at, got.size())) - at) << "\"");
    }
    const auto lines = size_t(std::count(first.begin(), first.end(), '\n'));
    if (lines >= 5) c.nontrivial();
    if (lines >= 5) c.label(SUBJECTS[script[0] % 10]);
    if (first.find("exception: ") != std::string::npos) c.label("an error was raised");
    if (c.narrate) c.story << first;
}

} // namespace

PROP(all_builds, 1) {
    std::vector<uint32_t> script{uint32_t(c.draw(9))};
    script.push_back(uint32_t(c.draw(2))), script.push_back(uint32_t(c.draw(3))), script.push_back(uint32_t(c.draw(UINT32_MAX)));
    while (c.more(80))
        for (int i = 0; i < 4; ++i)
            script.push_back(uint32_t(c.chance(3, 4) ? c.draw(255) : c.draw(UINT32_MAX)));
    compare(c, script);
}
