// C11, C12: reading PGM texts from hostile streams. C13: writing them to hostile sinks.
#include "common.h"
#include "pgm_gen.h"
#include <cstring>
#include <istream>
#include <memory>
#include <ostream>
#include <sstream>
using sp::image::PGM_IO;
using namespace pgmgen;

namespace {
// A stream buffer that delivers a text in pieces and injects faults.
struct Source : std::streambuf {
    const std::string& s; size_t pos = 0; std::vector<size_t> chunks; size_t ci = 0; char b[512];
    bool seekable; long err_at = -1, eof_at = -1; bool transient = false; bool erred = false, ended = false; int calls = 0;
    explicit Source(const std::string& t) : s(t) {}
    size_t limit() const { size_t n = s.size(); if (eof_at >= 0) n = std::min(n, (size_t)eof_at); return n; }
    int_type underflow() override {
        sync_point();
        Harness h;
        if (++calls > 2000000) fail("no-termination", "the reader does not stop asking for bytes at the end of the text");
        ++R->io_ops;
        if (err_at >= 0 && pos >= (size_t)err_at && (!erred || !transient)) { if (!erred) { fault(F_READ_ERR); desc("  read error after %zu bytes", pos); } erred = true; Sut u; throw std::runtime_error("I/O error"); }
        size_t n = limit();
        if (pos >= n) { if (eof_at >= 0 && n < s.size() && !ended) { fault(F_EARLY_EOF); desc("  the text ends early after %zu of %zu bytes", pos, s.size()); } ended = true; return traits_type::eof(); }
        size_t c = chunks.empty() ? 512 : chunks[ci++ % chunks.size()];
        c = std::min({c, sizeof b, n - pos});
        if (err_at >= 0 && !erred) c = std::min(c, std::max<size_t>(1, (size_t)err_at - pos));
        if (c < n - pos) fault(F_SHORT_READ);
        memcpy(b, s.data() + pos, c); pos += c; setg(b, b, b + c);
        return traits_type::to_int_type(b[0]);
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
        Harness h;
        if (!seekable) { fault(F_SEEKLESS); return pos_type(off_type(-1)); }
        off_type at = (off_type)pos - (egptr() - gptr());
        if (d == std::ios_base::beg) at = o; else if (d == std::ios_base::cur) at += o; else at = (off_type)limit() + o;
        if (at < 0 || at > (off_type)limit()) return pos_type(off_type(-1));
        pos = (size_t)at; setg(b, b, b); return pos_type(at);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
    size_t consumed() { return pos - (size_t)(egptr() - gptr()); }
};

// The state in which a client hands its stream over: number formats, a locale that groups digits, exceptions instead of states
struct Grouping : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\3"; } char do_decimal_point() const override { return ','; } };
const std::locale& grouping() { static const std::locale* l = new std::locale(std::locale::classic(), new Grouping); return *l; }
struct Format {
    std::ios_base::fmtflags f{}; bool loc = false; std::ios_base::iostate mask = std::ios_base::goodbit;
    Format() {
        if (!chance(1, 4)) return;
        typedef std::ios_base B;
        static const B::fmtflags base[] = {B::dec, B::hex, B::oct, B::fmtflags()}, more[] = {B::showbase, B::showpos, B::uppercase, B::left, B::scientific};
        f = base[draw(4)]; for (auto m : more) if (chance(1, 4)) f |= m;
        loc = chance(1, 3);
        if (chance(1, 3)) mask = chance(1, 2) ? B::badbit : B::failbit | B::badbit;
        desc("the stream has%s%s%s%s%s%s%s", f & B::hex ? " hex" : f & B::oct ? " oct" : "", f & B::showbase ? " showbase" : "", f & B::showpos ? " showpos" : "", f & B::left ? " left" : "", loc ? " a locale that groups digits" : "", mask & B::badbit ? " exceptions for badbit" : "", mask & B::failbit ? " and failbit" : "");
        grouping(); used = true; probe(9);
    }
    bool used = false;
    void to(std::ios& s) const { if (!used) return; s.flags(f | (s.flags() & std::ios_base::skipws)); if (loc) s.imbue(grouping()); s.exceptions(mask); }
};
// Sometimes another thread reads and writes an image of its own at the same time.
struct Mate {
    bool on; std::string text, wrote; oracle::Text want, got; std::unique_ptr<Source> src; bool rfailed = false, wfailed = false;
    Mate() : on(chance(1, 8)) {
        if (!on) return;
        int w = 1 + (int)draw(4), h = 1 + (int)draw(3); long m = chance(1, 2) ? 65535 : 9;
        text = "P2 " + std::to_string(w) + " " + std::to_string(h) + "\n" + (chance(1, 2) ? "# of another thread\n" : "") + std::to_string(m);
        for (int i = 0; i < w * h; ++i) { text += i % w ? " " : "\n"; text += std::to_string(draw((uint32_t)m + 1)); }
        text += "\n"; want = oracle::parse(text); src.reset(new Source(text)); src->seekable = true;
        int nc = (int)draw(3); for (int i = 0; i < nc; ++i) src->chunks.push_back(1 + draw(9));
        choose_sched();
        desc("at the same time another thread reads and writes \"%s\"", printable(text).c_str()); probe(8);
    }
    void start() {
        if (!on) return;
        spawn("another", [this] {
            Sut u; PGM_IO io; std::istream in(src.get());
            try { in >> io; } catch (const std::exception& e) { fail("exception", "another thread reading \"%s\" raises %s", printable(text).c_str(), e.what()); }
            std::ostringstream out; auto im = io.get_image();
            if (im) { out << io; out.flush(); }
            Harness h; rfailed = in.fail(); wfailed = out.fail(); wrote = out.str();
            if (im) { got.w = im->width; got.h = im->height; got.m = im->max_value; got.v.assign(im->data.begin(), im->data.end()); }
        });
    }
    void check() {
        if (!on) return;
        auto same = [&](const oracle::Text& a) { return a.w == want.w && a.h == want.h && a.m == want.m && a.v == want.v; };
        if (rfailed || !same(got)) fail("wrong-image", "another thread's \"%s\" is %s", printable(text).c_str(), rfailed ? "refused" : "read as another image");
        if (wfailed || !same(oracle::parse(wrote))) fail("wrong-text", "another thread's \"%s\" is written as \"%s\"", printable(text).c_str(), printable(wrote).c_str());
    }
};
void read_case(bool hostile) {
    heap_reuse = chance(1, 4);
    alloc_plan.limit = 8 << 20;
    int rounds = 1 + (int)draw(3);
    PGM_IO* io = nullptr; std::shared_ptr<Image>* held = nullptr;
    bool initial = !chance(1, 4), shared = chance(1, 2); std::shared_ptr<Image> held_too;
    run_in_fiber("prepare", [&] { Sut u; io = new PGM_IO; if (initial) { held = new std::shared_ptr<Image>(new Image(make_image(2, 2, 9, {1, 2, 3, 4}))); io->set_image(*held); if (!shared) { delete held; held = nullptr; } } });
    for (int r = 0; r < rounds; ++r) {
        int w, h; long m;
        bool fancy = chance(1, 2);
        auto t = gen_tokens(w, h, m);
        bool bad = hostile ? !chance(1, 5) : chance(1, 8);
        std::string text = bad ? malform(t, fancy, w, h) : render(t, fancy);
        if ((size_t)w * (size_t)h > 65535) probe(7);
        if (text.size() > 100000) alloc_plan.limit = 128 << 20;
        Source src(text);
        src.seekable = chance(1, 2);
        int nc = (int)draw(6); for (int i = 0; i < nc; ++i) src.chunks.push_back(1 + draw(1u << (1 + draw(7))));
        if (nc == 5) src.chunks.assign(1, 1);
        int f = (int)draw(hostile ? 5 : 12);
        if (f == 1 || f == 2) { src.err_at = (long)draw((uint32_t)text.size() + 1); src.transient = f == 2; }
        else if (f == 3 && !text.empty()) src.eof_at = (long)draw((uint32_t)text.size());
        Format fmt;
        desc("text %d: \"%s\"%s", r, printable(text).c_str(), src.seekable ? "" : ", unseekable");
        const Image* before; oracle::Text bimg;
        auto snap = [&](const std::shared_ptr<Image>& i) { oracle::Text o; if (i) { o.w = i->width; o.h = i->height; o.m = i->max_value; o.v.assign(i->data.begin(), i->data.end()); } return o; };
        auto same = [](const oracle::Text& a, const oracle::Text& b) { return a.w == b.w && a.h == b.h && a.m == b.m && a.v == b.v; };
        // somebody else may hold the image too, or nobody
        { std::shared_ptr<Image> b = io->get_image(); before = b.get(); bimg = snap(b); if (shared) held_too = b; else held_too.reset(); }
        bool failed = false, oom = false, leftover = false, again = chance(1, 8); size_t used = 0;
        std::shared_ptr<Image> kept; oracle::Text kimg;
        Mate mate; mate.start();
        run_in_fiber("reader", [&] {
            Sut u;
            std::istream in(&src); fmt.to(in);
            try { in >> *io; }
            catch (const std::bad_alloc&) { oom = true; }
            catch (const std::exception& e) { if (!fmt.mask || (!in.fail() && !src.erred)) fail("exception", "reading \"%s\" raises %s", printable(text).c_str(), e.what()); if (!in.fail()) fail("not-failed", "reading raises %s, but the stream has not failed", e.what()); }
            failed = in.fail();
            { Harness hh; used = src.consumed(); leftover = used < src.limit(); }
            if (again && !oom) {
                // there is no second image in the text
                { Harness hh; kept = io->get_image(); kimg = snap(kept); }
                try { in >> *io; } catch (const std::exception& e) { if (!fmt.mask) fail("exception", "reading again from the same stream raises %s", e.what()); }
                Harness hh; probe(10);
                if (!in.fail()) fail("nothing-read", "reading again from the stream that delivered \"%s\" succeeds, but there is nothing left to read", printable(text).c_str());
                if (io->get_image() != kept || !same(snap(kept), kimg)) fail("held-image", "reading again from a stream without anything left changed the held image");
                kept.reset();
            }
        });
        join_all(); mate.check();
        std::string delivered = text.substr(0, src.limit());
        oracle::Text want = oracle::parse(delivered);
        auto im = io->get_image(); oracle::Text got = snap(im);
        probe(0); if (want.kind == oracle::WELL && !src.erred) probe(1); if (want.kind == oracle::BAD) probe(2); if (src.erred) probe(3); if (src.ended && src.eof_at >= 0) probe(4); if (oom) probe(5); if (want.kind == oracle::UNCLEAR) probe(6);
        if (hostile ? want.kind == oracle::BAD || src.erred : want.kind == oracle::WELL && R->faults[F_SHORT_READ]) set_nontrivial();
        std::string shown = printable(delivered);
        if (oom) {
            // the simulated machine has 8 MiB; only a text that announces more may end like this
            if (want.kind == oracle::WELL) fail("exception", "reading a well-formed text \"%s\" raises out-of-memory", shown.c_str());
            if ((shared && im.get() != before) || !im != !before || !same(got, bimg)) fail("held-image", "running out of memory while reading changed the held image");
            continue;
        }
        if (!failed) {
            if (src.erred) fail("error-ignored", "the stream broke after %zu bytes of \"%s\", but reading succeeds", src.pos, shown.c_str());
            if (want.kind == oracle::BAD) fail("bad-text-accepted", "%s, but reading \"%s\" succeeds", want.why, shown.c_str());
            if (!im) fail("wrong-image", "reading \"%s\" succeeds, but no image is held", shown.c_str());
            if (want.literal && !same(got, want)) fail("wrong-image", "reading \"%s\" gives an image %lux%lu with maximal value %lu, not what the text spells", shown.c_str(), got.w, got.h, got.m);
            if (leftover) fail("not-consumed", "reading \"%s\" succeeds, but only %zu of %zu bytes were consumed", shown.c_str(), used, src.limit());
            if (got.v.size() != got.w * got.h) fail("wrong-image", "reading \"%s\" gives an image %lux%lu with %zu intensities", shown.c_str(), got.w, got.h, got.v.size());
        } else {
            if (want.kind == oracle::WELL && !src.erred) fail("good-text-refused", "reading the well-formed text \"%s\" fails", shown.c_str());
            if ((shared && im.get() != before) || !im != !before) fail("held-image", "reading \"%s\" failed, but the held image was replaced", shown.c_str());
            if (!same(got, bimg)) fail("held-image", "reading \"%s\" failed, but the held image was modified", shown.c_str());
        }
    }
}
void c11() { read_case(false); }
void c12() { read_case(true); }

// -------------------------------------------------------------------------------- C13
struct Sink : std::streambuf {
    std::string got; long cap = -1; bool transient = false, throwing = false, refused = false; long sync_fail = -1; int syncs = 0; std::vector<char> buf; bool sync_failed = false; int calls = 0;
    void buffered(size_t n) { buf.resize(n); if (n) setp(buf.data(), buf.data() + n); }
    size_t take(const char* p, size_t n) {
        if (++calls > 2000000) fail("no-termination", "the writer does not stop");
        ++R->io_ops;
        size_t k = n;
        if (cap >= 0 && got.size() + n > (size_t)cap && (!refused || !transient)) { k = refused ? 0 : (size_t)cap - std::min(got.size(), (size_t)cap); }
        got.append(p, k);
        if (k < n && !refused) { refused = true; fault(k ? F_SHORT_WRITE : F_ENOSPC); desc("  the sink refuses bytes after %zu accepted ones", got.size()); }
        return k;
    }
    bool flush_buf() {
        size_t n = (size_t)(pptr() - pbase()); if (!n) return true;
        size_t k = take(pbase(), n);
        setp(buf.data(), buf.data() + buf.size());
        return k == n;
    }
    void maybe_throw(bool ok) { if (!ok && throwing) { Sut u; throw std::runtime_error("I/O error"); } }
    int_type overflow(int_type c) override {
        sync_point(); Harness h;
        bool ok = true;
        if (!buf.empty()) { ok = flush_buf(); if (ok && c != traits_type::eof()) { *pptr() = (char)c; pbump(1); } }
        else if (c != traits_type::eof()) { char ch = (char)c; ok = take(&ch, 1) == 1; }
        maybe_throw(ok);
        return ok ? traits_type::not_eof(c) : traits_type::eof();
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override {
        if (!buf.empty()) return std::streambuf::xsputn(p, n);
        sync_point(); Harness h;
        size_t k = take(p, (size_t)n); maybe_throw(k == (size_t)n); return (std::streamsize)k;
    }
    int sync() override {
        sync_point(); Harness h;
        if (syncs++ == sync_fail) { fault(F_SYNC_ERR); sync_failed = true; desc("  flushing fails after %zu bytes", got.size()); maybe_throw(false); return -1; }
        bool ok = buf.empty() || flush_buf(); maybe_throw(ok); return ok ? 0 : -1;
    }
};
void c13() {
    heap_reuse = chance(1, 4);
    static const int dims[] = {1, 2, 3, 10, 11, 12, 13, 22, 23, 34, 40};
    static const long ms[] = {1, 255, 65535, 2, 9, 10, 99, 1000, 9999, 32768, 65536};
    int w = dims[draw(11)], h = 1 + (int)draw(5); long m = ms[draw(11)];
    if (chance(1, 40)) { static const int big[] = {100, 700, 2000}; w = big[draw(3)]; h = 1 + (int)draw(3); }
    bool huge = chance(1, 1500);
    if (huge) { static const int wd[] = {65537, 1, 300, 257, 2, 32769}, hd[] = {1, 65540, 220, 256, 32769, 2}; int k = (int)draw(6); w = wd[k]; h = hd[k]; }
    std::vector<long> d;
    bool full = chance(1, 3);
    if (huge) { uint64_t r = draw(1u << 30); for (int i = 0; i < w * h; ++i) { r = r * 6364136223846793005ull + 1442695040888963407ull; d.push_back((long)((r >> 33) % (uint64_t)(m + 1))); } }
    else for (int i = 0; i < w * h; ++i) d.push_back(full ? m - (long)draw(2) : (long)draw((uint32_t)m + 1));
    int invalid = chance(1, 5) ? 1 + (int)draw(5) : 0;
    PGM_IO* io = nullptr; std::shared_ptr<Image>* im = nullptr;
    if (invalid == 2) m = 0; else if (invalid == 3) w = 0; else if (invalid == 4) h = 0; else if (invalid == 5) d[draw((uint32_t)d.size())] = m + 1 + (long)draw(70000);
    if (invalid == 3 || invalid == 4) if (chance(1, 2)) d.clear();
    if (invalid == 2) if (chance(1, 2)) std::fill(d.begin(), d.end(), 0);
    bool ctor = chance(1, 2);
    run_in_fiber("prepare", [&] {
        Sut u; im = new std::shared_ptr<Image>(); if (invalid != 1) *im = std::make_shared<Image>(make_image(w, h, m, d));
        if (ctor) io = new PGM_IO(*im); else { io = new PGM_IO; io->set_image(*im); }
    });
    desc("image %dx%d, maximal value %ld%s", w, h, m, invalid ? ", absent or invalid" : "");
    auto write = [&](Sink& s, bool& failed) {
        Format fmt; Mate mate; mate.start();
        run_in_fiber("writer", [&] {
            Sut u; std::ostream out(&s); fmt.to(out);
            try { out << *io; out.flush(); } catch (const std::exception& e) { if (!fmt.mask || !out.fail()) fail("exception", "writing raises %s", e.what()); }
            failed = out.fail();
        });
        join_all(); mate.check();
    };
    Sink plain; bool failed = false;
    write(plain, failed);
    std::string text = plain.got;
    if (failed) fail("spurious-failure", "writing to a working sink fails");
    auto after = io->get_image();
    if (after != *im || (after && (after->width != (unsigned long)w || after->height != (unsigned long)h || after->max_value != (unsigned long)m || !std::equal(d.begin(), d.end(), after->data.begin(), after->data.end()))))
        fail("image-modified", "writing modified the image");
    probe(0); if (huge) probe(3);
    if (invalid) {
        probe(1);
        if (!text.empty()) fail("invalid-written", "an absent or invalid image (%dx%d, maximal value %ld) is written as \"%s\"", w, h, m, printable(text).c_str());
    } else {
        oracle::Text o = oracle::parse(text);
        bool same = o.literal && o.w == (unsigned long)w && o.h == (unsigned long)h && o.m == (unsigned long)m && std::equal(d.begin(), d.end(), o.v.begin(), o.v.end());
        if (!same || o.kind == oracle::BAD) fail("wrong-text", "the image %dx%d with maximal value %ld is written as \"%s\" (%s)", w, h, m, printable(text).c_str(), o.why);
        if (oracle::longest_line(text) > 70) fail("long-line", "a line of %zu characters is written", oracle::longest_line(text));
        // this reader
        Source src(text); src.seekable = true; bool rf = true; PGM_IO* back = nullptr;
        run_in_fiber("reader", [&] { Sut u; back = new PGM_IO; std::istream in(&src); in >> *back; rf = in.fail(); });
        auto b = back->get_image();
        if (rf || !b || b->width != (unsigned long)w || b->height != (unsigned long)h || b->max_value != (unsigned long)m || !std::equal(d.begin(), d.end(), b->data.begin(), b->data.end()))
            fail("not-readable", "the written text \"%s\" is not read back as the same image", printable(text).c_str());
    }
    int rounds = 1 + (int)draw(3);
    for (int r = 0; r < rounds; ++r) {
        Sink s;
        int f = (int)draw(5);
        if (f != 4) s.cap = (long)draw((uint32_t)text.size() + 2);
        if (f == 1 || f == 2) s.transient = true;
        s.throwing = chance(1, 4);
        if (f == 4) s.sync_fail = (long)draw((uint32_t)std::count(text.begin(), text.end(), '\n') + 2);
        if (chance(1, 2)) s.buffered(1 + draw(1u << (1 + draw(8))));
        bool fl = false;
        write(s, fl);
        if (s.refused || s.sync_failed) { probe(2); set_nontrivial(); }
        if (s.got.size() > text.size() || text.compare(0, s.got.size(), s.got) != 0) fail("not-a-prefix", "the sink accepted \"%s\", which is not the beginning of \"%s\"", printable(s.got).c_str(), printable(text).c_str());
        if ((s.refused || s.sync_failed) && !fl) fail("failure-hidden", "the sink refused bytes after %zu of %zu accepted ones%s, but the stream has not failed", s.got.size(), text.size(), s.sync_failed ? " (flushing failed)" : "");
        if (!fl && s.got != text) fail("incomplete", "the stream has not failed, but only %zu of %zu bytes were accepted", s.got.size(), text.size());
        if (fl && !s.refused && !s.sync_failed) fail("spurious-failure", "the stream failed although the sink accepted everything");
    }
}
Reg r11("C11", c11), r12("C12", c12), r13("C13", c13);
}
