// Independent reader of plain PGM texts, used as the oracle.
#pragma once
#include <string>
#include <vector>
namespace oracle {
enum Kind { WELL, BAD, UNCLEAR };           // UNCLEAR: readers may differ, only consistency is required
struct Text { Kind kind = BAD; const char* why = ""; bool literal = false; unsigned long w = 0, h = 0, m = 0; std::vector<unsigned long> v; };
inline bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\v' || c == '\f' || c == '\r'; }
inline bool num(const std::string& t, unsigned long& v) {
    if (t.empty()) return false;
    v = 0;
    for (char c : t) { if (c < '0' || c > '9') return false; if (v > (~0ul - (unsigned long)(c - '0')) / 10) return false; v = v * 10 + (unsigned long)(c - '0'); }
    return true;
}
inline Text parse(const std::string& s) {
    Text r; std::vector<std::string> tok; bool glued = false, lead = s.empty() || s[0] != 'P';
    for (size_t i = 0; i < s.size();) {
        if (sp(s[i])) { ++i; continue; }
        if (s[i] == '#') { while (i < s.size() && s[i] != '\n') ++i; continue; }
        size_t j = i; while (j < s.size() && !sp(s[j])) ++j;
        tok.push_back(s.substr(i, j - i));
        if (tok.back().find('#') != std::string::npos) glued = true;
        i = j;
    }
    auto bad = [&](const char* w) { r.kind = glued ? UNCLEAR : BAD; r.why = w; r.literal = false; return r; };
    if (tok.empty() || tok[0] != "P2") return bad("wrong magic");
    if (tok.size() < 4) return bad("missing header numbers");
    if (!num(tok[1], r.w) || !num(tok[2], r.h) || !num(tok[3], r.m)) return bad("header is not made of numbers");
    if (r.m > 65536) return bad("too large maximal value");
    if (r.w && r.h > ~0ul / r.w) return bad("impossible size");
    unsigned long n = r.w * r.h;
    if (tok.size() - 4 < n) return bad("too few intensities");
    if (tok.size() - 4 > n) return bad("redundant data");
    bool over = false;
    for (unsigned long i = 0; i < n; ++i) { unsigned long v; if (!num(tok[4 + i], v)) return bad("an intensity is not a number"); r.v.push_back(v); if (v > r.m) over = true; }
    r.literal = true;
    r.kind = lead || over || !r.w || !r.h || !r.m || r.m > 65535 ? UNCLEAR : WELL;
    return r;
}
inline size_t longest_line(const std::string& s) { size_t m = 0, c = 0; for (char ch : s) { if (ch == '\n') c = 0; else if (++c > m) m = c; } return m; }
}
