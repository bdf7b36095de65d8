// Common driver code of all checks: arguments, counters, evidence file, verdict.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <fstream>
#include <sstream>
#include <chrono>
#include <sys/stat.h>
#include <unistd.h>

namespace chk {

inline std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c;
    }
    return r + "\"";
}

struct Check {
    std::string id, level = "exploration", tier = "quick", verif, replay;
    long seed = 1;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    std::map<std::string, long> num;                 // coverage counters
    std::vector<std::string> samples, assumptions;
    std::string rule;
    bool exhaustive = true;
    std::vector<std::pair<std::string, std::string>> violations; // key, text
    std::set<std::string> known;                     // keys of listed findings
    std::vector<std::string> knownhit;

    Check(const std::string &id, int argc, char **argv) : id(id) {
        const char *v = getenv("VERIF_DIR"); verif = v ? v : "/verif";
        if (const char *t = getenv("VERIF_TIER")) tier = t;
        if (const char *s = getenv("VERIF_SEED")) seed = atol(s);
        for (int i = 1; i < argc; i++) {
            if (!strcmp(argv[i], "--tier") && i + 1 < argc) tier = argv[++i];
            else if (!strcmp(argv[i], "--replay") && i + 1 < argc) replay = argv[++i];
        }
        if (tier != "thorough") tier = "quick";
        std::ifstream kf(verif + "/known-findings.txt"); std::string line;
        while (std::getline(kf, line)) {
            std::string pre = "known: property=" + id + " key=";
            if (line.compare(0, pre.size(), pre) == 0) { std::string k = line.substr(pre.size()); size_t sp = k.find(' '); known.insert(sp == std::string::npos ? k : k.substr(0, sp)); }
        }
    }
    bool thorough() const { return tier == "thorough"; }
    double elapsed() const { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    void sample(const std::string &s) { if (samples.size() < 12) samples.push_back(s); }
    void violation(const std::string &key, const std::string &text) {
        if (known.count(key)) { knownhit.push_back(key); return; }
        violations.push_back({ key, text });
    }
    int finish() {
        mkdir((verif + "/evidence").c_str(), 0755); mkdir((verif + "/replays").c_str(), 0755);
        std::ofstream f(verif + "/evidence/" + id + ".json");
        f << "{\n \"property\": " << jstr(id) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed << ",\n \"level\": " << jstr(level) << ",\n \"coverage\": {";
        bool first = true;
        for (auto &n : num) { f << (first ? "" : ",") << "\n  " << jstr(n.first) << ": " << n.second; first = false; }
        if (rule.size()) f << ",\n  \"rule\": " << jstr(rule);
        f << ",\n  \"exhaustive\": " << (exhaustive ? "true" : "false") << ",\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++) f << (i ? ", " : "") << "\n   " << jstr(samples[i]);
        f << "\n  ]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < assumptions.size(); i++) f << (i ? ", " : "") << "\n  " << jstr(assumptions[i]);
        f << "],\n \"wall_s\": " << elapsed() << ",\n \"violations\": " << violations.size() << "\n}\n";
        f.close();
        std::set<std::string> said;
        for (auto &k : knownhit) if (said.insert(k).second) printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), k.c_str());
        std::string sum; for (auto &n : num) sum += " " + n.first + "=" + std::to_string(n.second);
        printf("%s [%s]:%s wall=%.1fs\n", id.c_str(), tier.c_str(), sum.c_str(), elapsed());
        int i = 0;
        for (auto &v : violations) {
            std::string path = verif + "/replays/" + id + "-" + std::to_string(i) + ".txt";
            std::ofstream r(path); r << v.first << "\n" << v.second << "\n"; r.close();
            printf("%s\n", v.second.substr(0, 2000).c_str());
            printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str());
            if (++i >= (getenv("MAXFAIL") ? atoi(getenv("MAXFAIL")) : 3)) break;
        }
        fflush(stdout);
        return violations.empty() ? 0 : 1;
    }
};
}
