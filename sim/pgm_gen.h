// Generation of plain PGM texts, well-formed and damaged.
#pragma once
#include "rt.h"
#include "pgm_oracle.h"
#include <string>
#include <vector>
namespace pgmgen {
using namespace sim;
inline std::string printable(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += (char)c; if (o.size() > 700) { o += "..."; break; } } return o; }

inline std::string comment() {
    static const char* c[] = {"", " a comment", "1 2 3", "#", " ## 4", "P2", "\t x\r", "9", " 255 0"};
    int k = (int)draw(11);
    std::string s = "#";
    if (k < 9) s += c[k]; else s += std::string(1 + (chance(1, 10) ? draw(chance(1, 16) ? 70000 : 9000) : draw(k == 9 ? 90 : 400)), (char)('a' + draw(26)));
    if (chance(1, 12)) { static const char any[] = {'\xff', '\0', '\x80', '\x1a', '\v', '\xc3', '\x7f', '#', '\b'}; int n = 1 + (int)draw(3); while (n--) s.insert(s.begin() + 1 + (long)draw((uint32_t)s.size()), any[draw(9)]); }
    return s;
}
inline std::string gap(bool need, bool fancy) {
    static const char* ws[] = {" ", "\n", "  ", "\t", "\r\n", "\n\n", " \n ", "\v", "\f", " \t \n\n  "};
    std::string s = ws[draw(fancy ? 10 : 2)];
    if (fancy && chance(1, 6)) { int n = 1 + (int)draw(3); for (int i = 0; i < n; ++i) { s += comment() + "\n"; if (chance(1, 3)) s += ws[draw(10)]; } }
    if (fancy && chance(1, 150000)) { s += "\n"; for (int i = 0; i < 120000; ++i) s += "#\n"; }      // comments without end
    (void)need;
    return s;
}
// tokens of a well-formed image
inline std::vector<std::string> gen_tokens(int& w, int& h, long& m) {
    static const int dims[] = {1, 2, 3, 4, 5, 7, 11, 12, 16, 22, 23, 40};
    static const long ms[] = {1, 255, 65535, 2, 9, 10, 99, 1000, 32768, 65536};
    w = dims[draw(chance(1, 4) ? 12 : 9)]; h = dims[draw(6)]; m = ms[draw(10)];
    if (chance(1, 48)) { static const int big[] = {100, 300, 1000, 2500}; w = big[draw(4)]; h = 1 + (int)draw(3); }   // more than any buffer
    bool huge = chance(1, 1500);                          // more pixels, columns or rows than 16 bits count
    if (huge) { static const int wd[] = {65537, 1, 300, 257, 2, 32769}, hd[] = {1, 65540, 220, 256, 32769, 2}; int k = (int)draw(6); w = wd[k]; h = hd[k]; }
    std::vector<std::string> t{"P2", std::to_string(w), std::to_string(h), std::to_string(m)};
    if (huge) {
        uint64_t r = draw(1u << 30);
        for (int i = 0; i < w * h; ++i) { r = r * 6364136223846793005ull + 1442695040888963407ull; t.push_back(std::to_string((long)((r >> 33) % (uint64_t)(m + 1)))); }
        return t;
    }
    bool zeros = chance(1, 5);
    for (int i = 0; i < w * h; ++i) {
        uint32_t k = draw(4);
        long v = k == 3 ? m : k == 2 ? 0 : (long)draw((uint32_t)m + 1);
        std::string n = std::to_string(v);
        if (zeros && chance(1, 4)) n = std::string(1 + draw(chance(1, 8) ? chance(1, 8) ? 6000 : 60 : 3), '0') + n;
        t.push_back(n);
    }
    return t;
}
inline std::string render(const std::vector<std::string>& t, bool fancy) {
    std::string s;
    for (size_t i = 0; i < t.size(); ++i) { if (i) s += i > 20000 ? i % 19 ? " " : "\n" : gap(true, fancy); s += t[i]; }
    int e = (int)draw(6);
    if (e == 0) s += "\n";
    else if (e == 2) s += gap(false, true);
    else if (e == 3) s += "\n" + comment();
    else if (e == 4) s += " " + comment() + "\n";
    else if (e == 5) s += "\n\n" + comment() + "\n \n" + comment();
    if (e && fancy && chance(1, 8000)) { s += "\n"; for (int i = 0; i < 120000; ++i) s += "#\n"; }
    return s;
}
inline std::string malform(std::vector<std::string> t, bool fancy, int w, int h) {
    static const char* junk[] = {"x", "-1", "+3", "1.5", "0x10", "1e3", "99999999999999999999", "18446744073709551616", "18446744073709551615", "4294967296", "12abc", "--", "\xff\xfe", "NaN", "-0", "1,", "340282366920938463463374607431768211457"};
    static const char* magic[] = {"P1", "P5", "P3", "P22", "p2", "P", "2", "P2P2", "\xef\xbb\xbfP2", "P 2", "P2\0x"};
    int k = (int)draw(13);
    switch (k) {
    case 0: t.erase(t.begin() + draw((uint32_t)t.size())); break;
    case 1: { std::string x = chance(1, 2) ? std::to_string(draw(300)) : junk[draw(17)]; t.insert(t.begin() + 1 + draw((uint32_t)t.size()), x); break; }
    case 2: t[1 + draw((uint32_t)t.size() - 1)] = junk[draw(17)]; break;
    case 3: t[0] = magic[draw(11)]; break;
    case 4: { static const char* m[] = {"65537", "70000", "4294967295", "18446744073709551615", "0", "65536"}; t[3] = m[draw(6)]; break; }
    case 5: {
        static const char* a[][2] = {{"4294967296", "4294967296"}, {"18446744073709551615", "2"}, {"9223372036854775808", "2"}, {"3037000500", "3037000500"}, {"100000", "1"}, {"1", "18446744073709551615"}, {"2305843009213693952", "1"}, {"2305843009213693951", "1"}, {"65536", "65536"}, {"0", "18446744073709551615"}, {"0", "0"}, {"0", "5"}, {"5", "0"}, {"1152921504606846976", "16"}, {"6148914691236517206", "3"}};
        int q = (int)draw(15); t[1] = a[q][0]; t[2] = a[q][1];
        if (chance(1, 3)) t.resize(4 + draw(3) % (t.size() - 3));
        break;
    }
    case 6: std::swap(t[1], t[2]); t[1 + draw(2)] = std::to_string(1 + draw(20)); break;
    case 7: t.resize(draw((uint32_t)t.size())); break;
    case 8: { // sizes that are right modulo a power of two
        unsigned long n = (unsigned long)(w * h);
        t[2] = "1"; t[1] = chance(1, 2) ? std::to_string(n + (1ull << 32)) : std::to_string(n + (1ull << 61)); break;
    }
    default: break;
    }
    std::string s = render(t, fancy);
    switch (k) {
    case 9: s = s.substr(0, draw((uint32_t)s.size() + 1)); break;
    case 10: { int n = 1 + (int)draw(3); for (int i = 0; i < n && !s.empty(); ++i) { s[draw((uint32_t)s.size())] ^= (char)(1 << draw(8)); } fault(F_BAD_BYTE); break; }
    case 11: { static const char ins[] = {'#', '\0', '-', '\xff', 'a', '\n', '3', ' '}; int n = 1 + (int)draw(2); for (int i = 0; i < n; ++i) s.insert(s.begin() + (long)draw((uint32_t)s.size() + 1), ins[draw(8)]); fault(F_BAD_BYTE); break; }
    case 12: { static const char* tail[] = {"x", " 7", "\n0\n", "# c\n5", "\n#c\nP2\n", "\0", " -"}; int q = (int)draw(7); s += q == 5 ? std::string(1, '\0') : std::string(tail[q]); break; }
    }
    if (k < 9 || k == 12) fault(F_MALFORMED);
    return s;
}

}
