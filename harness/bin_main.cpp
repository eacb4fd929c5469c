// Binary containers and the headers of witness and proving-key files, well-formed and damaged.
#include <stdexcept>
#include <iostream>
#include <functional>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <omp.h>
#include "binfile_utils.hpp"
#include "wtns_utils.hpp"
#include "zkey_utils.hpp"
#include "common.h"
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
typedef std::string Str;
typedef unsigned long long ull;
using BinFileUtils::BinFile;
static Rng rng(1);
static Str dir;
static int which = 3;
static u64 seedv = 1;
struct Sec { uint32_t id; Str data; };
struct Doc { Str type; uint32_t version; std::vector<Sec> secs; Str tail; };
static void u32(Str &s, uint32_t v) { for (int i = 0; i < 4; i++) s += (char)(v >> (8 * i)); }
static void u64le(Str &s, u64 v) { for (int i = 0; i < 8; i++) s += (char)(v >> (8 * i)); }
static Str bytes(u64 n) { Str s; for (u64 i = 0; i < n; i++) s += (char)rng.next(); return s; }
static Str pack(const Doc &d) { Str s = d.type; u32(s, d.version); u32(s, d.secs.size()); for (auto &x : d.secs) { u32(s, x.id); u64le(s, x.data.size()); s += x.data; } return s + d.tail; }
// reference reader
static bool parse(const Str &s, const Str &type, uint32_t maxV, Doc &d) {
    u64 p = 0; auto has = [&](u64 n) { return n <= s.size() - p; };
    auto g = [&](int n) { u64 v = 0; for (int i = 0; i < n; i++) v |= (u64)(uint8_t)s[p + i] << (8 * i); p += n; return v; };
    if (!has(4)) return false; d.type = s.substr(0, 4); p = 4; if (d.type != type) return false;
    if (!has(4)) return false; d.version = g(4); if (d.version > maxV) return false;
    if (!has(4)) return false; u64 n = g(4); d.secs.clear();
    for (u64 i = 0; i < n; i++) { if (!has(12)) return false; uint32_t id = g(4); u64 z = g(8); if (!has(z)) return false; d.secs.push_back({id, s.substr(p, z)}); p += z; }
    d.tail = s.substr(p); return true;
}
static Str brief(const Str &s) { Str r = std::to_string(s.size()) + " bytes "; char b[4]; for (size_t i = 0; i < s.size() && i < 80; i++) { snprintf(b, 4, "%02x", (uint8_t)s[i]); r += b; } return r; }
// 0 returned, 1 a standard exception, 2 something else was thrown
static int guarded(const std::function<void()> &f, Str &what) {
    try { f(); return 0; } catch (std::exception &e) { what = e.what(); return 1; } catch (...) { what = "something that is not a std::exception"; return 2; }
}
static Str path() { return dir + "/f"; }
static void writeFile(const Str &s) { unlink(path().c_str()); int fd = open(path().c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) { perror("write"); _exit(3); } o += k; } close(fd); }
static int fds() { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) != -1) n++; return n; }
static std::unique_ptr<BinFile> open_(const Str &s, const Str &type, uint32_t maxV, bool mem) {
    if (!mem) { writeFile(s); return BinFileUtils::openExisting(path(), type, maxV); }
    std::unique_ptr<char[]> copy(new char[s.size()]); memcpy(copy.get(), s.data(), s.size());      // exact size; released before reading
    std::unique_ptr<BinFile> f(new BinFile(copy.get(), s.size(), type, maxV));
    return f;
}
#define EV(k) (rep::stat("evaluations"), rep::stat(k))
static void use(BinFile &f, const Doc &d, const char *how) {
    std::map<uint32_t, std::vector<const Str *>> by; for (auto &x : d.secs) by[x.id].push_back(&x.data);
    Str w; 
    for (auto &kv : by) for (size_t i = 0; i < kv.second.size(); i++) {
        const Str &want = *kv.second[i]; uint32_t id = kv.first;
        Str ctx = Str(rep::cur()); 
        EV("section");
        u64 n = 0; void *p = 0;
        int r = guarded([&] { n = f.getSectionSize(id, i); p = f.getSectionData(id, i); }, w);
        if (r) { rep::viol("section/missing", "%s (%s): section %u number %zu cannot be had: %s", rep::cur(), how, id, i, w.c_str()); continue; }
        if (n != want.size() || (n && memcmp(p, want.data(), n))) { rep::viol("section/bytes", "%s (%s): section %u number %zu has %llu bytes, expected %zu, or other content", rep::cur(), how, id, i, (ull)n, want.size()); continue; }
        r = guarded([&] { if (i == 0 && rng.chance(1, 2)) f.startReadSection(id); else f.startReadSection(id, i); }, w);
        if (r) { rep::viol("section/start", "%s (%s): reading section %u number %zu does not start: %s", rep::cur(), how, id, i, w.c_str()); continue; }
        // while it is being read no section starts: neither this one nor another, nor one that does not exist
        { uint32_t id2 = id, i2 = i; int k = rng.below(3); if (k) { auto it = std::next(by.begin(), rng.below(by.size())); id2 = it->first; i2 = rng.below(it->second.size() + (k == 2 && rng.chance(1, 4))); }
          EV("nested start"); r = guarded([&] { f.startReadSection(id2, i2); }, w); }
        if (r != 1) rep::viol("section/nested", "%s (%s): starting a section while another is being read: %s", rep::cur(), how, r ? w.c_str() : "accepted");
        u64 pos = 0; bool bad = false;
        while (pos < want.size() && !rng.chance(1, 12) && !bad) {
            int k = rng.below(3); u64 len = k == 0 ? 4 : k == 1 ? 8 : rng.below(want.size() - pos + 1);
            if (pos + len > want.size()) { k = 2; len = want.size() - pos; }
            if (rng.chance(1, 6)) {      // looking a section up does not move the reader
                auto it = std::next(by.begin(), rng.below(by.size())); uint32_t id2 = it->first, i2 = rng.below(it->second.size() + rng.chance(1, 3)); bool have = i2 < it->second.size(); u64 n2 = 0; void *p2 = 0;
                EV("lookup while reading"); r = guarded([&] { if (rng.chance(1, 2)) { n2 = f.getSectionSize(id2, i2); p2 = f.getSectionData(id2, i2); } else { p2 = f.getSectionData(id2, i2); n2 = f.getSectionSize(id2, i2); } }, w);
                if (r != !have || (have && (n2 != it->second[i2]->size() || (n2 && memcmp(p2, it->second[i2]->data(), n2))))) rep::viol("section/lookup", "%s (%s): section %u number %u looked up while section %u is read: %s", rep::cur(), how, id2, i2, id, r ? w.c_str() : "wrong answer");
            }
            EV("read"); u64 got = 0, exp = 0; const void *q = 0;
            r = guarded([&] { if (k == 0) got = f.readU32LE(); else if (k == 1) got = f.readU64LE(); else q = f.read(len); }, w);
            if (r) { rep::viol("read/refused", "%s (%s): %s at %llu of %zu refused: %s", rep::cur(), how, k == 0 ? "u32" : k == 1 ? "u64" : "bytes", (ull)pos, want.size(), w.c_str()); bad = true; break; }
            if (k < 2) { for (u64 b = 0; b < len; b++) exp |= (u64)(uint8_t)want[pos + b] << (8 * b); bad = got != exp; } else bad = len && memcmp(q, want.data() + pos, len);
            if (bad) rep::viol("read/value", "%s (%s): section %u, %s at %llu: wrong value", rep::cur(), how, id, k == 0 ? "u32" : k == 1 ? "u64" : "bytes", (ull)pos);
            pos += len;
        }
        // past the end of the section, where the container goes on
        if (!bad && pos == want.size() && rng.chance(1, 3)) {
            u64 rest = 0; size_t nth = 0; bool after = false;
            for (auto &x : d.secs) { if (after) rest += 12 + x.data.size(); else if (x.id == id && nth++ == i) after = true; }
            rest += d.tail.size();
            u64 len = rest && rng.chance(2, 3) ? 1 + rng.below(rest < 40 ? rest : 40) : rest + 1 + (rng.chance(1, 2) ? rng.below(50) : rng.next() >> 1);
            EV("read past the section"); const void *q = 0; r = guarded([&] { q = f.read(len); }, w);
            if (r == 0 && len > rest) { rep::viol("read/beyond", "%s (%s): %llu bytes read where the container has %llu left", rep::cur(), how, (ull)len, (ull)rest); bad = true; }
            else if (r > 1) rep::viol("read/beyond", "%s (%s): %s", rep::cur(), how, w.c_str());
            else if (r == 0) { volatile char c = 0; for (u64 b = 0; b < len; b++) c = c ^ ((const char *)q)[b]; pos += len; rep::stat("sections overrun"); }
        }
        EV("end"); rep::seen(hcomb(hcomb(want.size() < 40 ? want.size() : 40, id & 7), hcomb(i, pos == want.size())));
        bool check = rng.chance(3, 4);
        r = guarded([&] { if (check) f.endReadSection(); else f.endReadSection(false); }, w);
        if (bad) { if (r) guarded([&] { f.endReadSection(false); }, w); continue; }
        int expR = check && pos != want.size();
        if (r != expR) rep::viol("section/end", "%s (%s): ending section %u after %llu of %zu bytes%s: %s", rep::cur(), how, id, (ull)pos, want.size(), check ? "" : " without a check", r == 0 ? "accepted" : w.c_str());
        if (r) { r = guarded([&] { f.endReadSection(false); }, w); if (r) rep::viol("section/end", "%s (%s): a section whose end check failed cannot be ended without it: %s", rep::cur(), how, w.c_str()); }
    }
    for (int k = 0; k < 6; k++) {
        uint32_t id = k == 0 ? 0 : k == 1 ? ~0u : k == 2 ? (uint32_t)rng.below(12) : k == 3 || by.empty() ? (uint32_t)rng.next() : std::next(by.begin(), rng.below(by.size()))->first;
        uint64_t have = by.count(id) ? by[id].size() : 0; uint32_t n = have ? have + rng.below(3) : rng.below(2);
        if (k == 4) { id = id ^ (1u << (8 + rng.below(24))); have = by.count(id) ? by[id].size() : 0; n = have; }      // an existing number with a far bit changed
        if (k == 5 && have) { uint64_t far = rng.chance(1, 4) ? ~0u - rng.below(2) : rng.below(have) + (1ull << (8 + rng.below(24))); n = far >= have && far <= ~0u ? far : have; }
        for (int m = 0; m < 3; m++) { EV("absent section"); int r = guarded([&] { if (m == 0) f.getSectionSize(id, n); else if (m == 1) f.getSectionData(id, n); else f.startReadSection(id, n); }, w);
            if (r != 1) { rep::viol("section/absent", "%s (%s): section %u number %u does not exist: %s", rep::cur(), how, id, n, r ? w.c_str() : "accepted"); if (r == 0 && m == 2) f.endReadSection(false); } }
    }
}
static void container(const Str &s, const Str &type, uint32_t maxV, const char *kind) {
    Doc d; bool ok = parse(s, type, maxV, d); Str w;
    for (int mem = 0; mem < 2; mem++) {
        rep::op("%s container, type '%s' up to %u, from %s: %s", kind, brief(type).c_str(), maxV, mem ? "memory" : "a file", brief(s).c_str());
        EV(ok ? "open" : "open damaged"); rep::seen(hcomb(hash_str(kind), hcomb(s.size() < 100 ? s.size() : 100 + s.size() % 16, hcomb(mem, ok))));
        int n0 = fds(); bool used = false;
        size_t live[4]; int reps = ok ? 1 : 3;
        for (int k = 0; k < reps; k++) {
            { std::unique_ptr<BinFile> f;
              int r = guarded([&] { f = open_(s, type, maxV, mem); }, w);
              if (r == 2) rep::viol("open/exception", "%s: refused by throwing %s", rep::cur(), w.c_str());
              else if (ok && r) rep::viol("open/refused", "%s: refused: %s", rep::cur(), w.c_str());
              else if (!ok && !r) {  rep::viol("open/accepted", "%s: accepted although it is damaged", rep::cur()); }
              if (!r && ok && !used) { used = true; use(*f, d, mem ? "memory" : "file"); } }
            live[k] = rep::live();
        }
        if (reps == 3 && live[2] > live[1] && live[1] > live[0]) rep::viol("open/leak", "%s: each refused attempt leaves memory allocated (%zu bytes)", rep::cur(), live[2] - live[1]);
        if (fds() != n0) rep::viol("open/descriptor", "%s: %d file descriptors are left open", rep::cur(), fds() - n0);
    }
}
static Doc doc() {
    Doc d; static const char *T[] = {"wtns", "zkey", "r1cs", "ptau"}; d.type = rng.chance(1, 6) ? bytes(4) : Str(T[rng.below(4)]); if (rng.chance(1, 12)) d.type[rng.below(4)] = 0; d.version = rng.chance(1, 12) ? (uint32_t)rng.next() % 0xfffffff0u : rng.below(4); int n = rng.chance(1, 8) ? 0 : 1 + rng.below(7);
    for (int i = 0; i < n; i++) d.secs.push_back({(uint32_t)(rng.chance(1, 10) ? rng.next() : rng.below(6)), bytes(rng.chance(1, 5) ? 0 : rng.chance(1, 30) ? 5000 + rng.below(9000) : rng.below(60))});
    if (rng.chance(1, 6)) d.tail = bytes(rng.below(30));
    return d;
}
// Containers that follow a similar one: the same name and size, or the same memory, with a byte of the contents changed; several of them alive at once.
static void inPlace(const Str &s) { int fd = open(path().c_str(), O_CREAT | O_WRONLY, 0600); if (fd < 0 || pwrite(fd, s.data(), s.size(), 0) != (ssize_t)s.size() || ftruncate(fd, s.size())) { perror("write"); _exit(3); } close(fd); }
static void history(Doc d) {
    std::vector<size_t> fat; for (size_t i = 0; i < d.secs.size(); i++) if (d.secs[i].data.size()) fat.push_back(i);
    if (fat.empty()) return;
    Str s = pack(d), w; bool mem = rng.chance(1, 2); std::unique_ptr<char[]> m(new char[s.size()]);
    std::vector<std::pair<std::unique_ptr<BinFile>, Doc>> alive;
    for (int r = 0, rounds = 2 + rng.below(3); r < rounds; r++) {
        if (r) { Str &x = d.secs[fat[rng.below(fat.size())]].data; x[rng.below(x.size())] ^= 1 << rng.below(8); if (rng.chance(1, 3)) { uint32_t t = d.secs[0].id; d.secs[0].id = d.secs.back().id; d.secs.back().id = t; } s = pack(d); }
        rep::op("container number %d in a row, from the same %s: %s", r, mem ? "memory" : "file name", brief(s).c_str()); EV("container after a similar one");
        std::unique_ptr<BinFile> f;
        int e = guarded([&] { if (mem) { memcpy(m.get(), s.data(), s.size()); f.reset(new BinFile(m.get(), s.size(), d.type, d.version)); } else { inPlace(s); f = BinFileUtils::openExisting(path(), d.type, d.version); } }, w);
        if (e) { rep::viol("open/refused", "%s: refused: %s", rep::cur(), w.c_str()); return; }
        use(*f, d, mem ? "memory" : "file");
        alive.emplace_back(std::move(f), d);
        if (rng.chance(1, 2)) { auto &a = alive[rng.below(alive.size())]; rep::op("an earlier container used after another of the same name, memory or size was opened: %s", brief(pack(a.second)).c_str()); use(*a.first, a.second, mem ? "memory" : "file"); }
        if (rng.chance(1, 3)) alive.erase(alive.begin());
    }
}
// Two containers read in turns.
static void interleaved(const Doc &a, const Doc &b) {
    struct One { std::unique_ptr<BinFile> f; const Doc *d; size_t at; u64 pos; } o[2]; Str w; const Doc *ds[2] = {&a, &b};
    for (int i = 0; i < 2; i++) { if (ds[i]->secs.empty()) return; o[i].d = ds[i]; o[i].at = rng.below(ds[i]->secs.size()); o[i].pos = 0; }
    rep::op("two containers read in turns: %s and %s", brief(pack(a)).c_str(), brief(pack(b)).c_str()); EV("containers in turns");
    bool mem = rng.chance(1, 2); Str s[2] = {pack(a), pack(b)};
    if (guarded([&] { for (int i = 0; i < 2; i++) { o[i].f = open_(s[i], ds[i]->type, ds[i]->version, mem); uint32_t id = ds[i]->secs[o[i].at].id, nth = 0; for (size_t k = 0; k < o[i].at; k++) nth += ds[i]->secs[k].id == id; o[i].f->startReadSection(id, nth); } }, w)) { rep::viol("turns/start", "%s: %s", rep::cur(), w.c_str()); return; }
    for (int step = 0; step < 20; step++) {
        One &x = o[rng.below(2)]; const Str &want = x.d->secs[x.at].data; u64 len = rng.below(9); if (len > want.size() - x.pos) len = want.size() - x.pos; const void *q = 0;
        if (guarded([&] { q = x.f->read(len); }, w) || (len && memcmp(q, want.data() + x.pos, len))) { rep::viol("turns/read", "%s: %llu bytes at %llu of section %u: %s", rep::cur(), (ull)len, (ull)x.pos, x.d->secs[x.at].id, w.c_str()); return; }
        x.pos += len;
    }
    for (int i = 0; i < 2; i++) { One &x = o[i]; int r = guarded([&] { x.f->endReadSection(); }, w), e = x.pos != x.d->secs[x.at].data.size(); if (r != e) rep::viol("turns/end", "%s: ending section %u after %llu bytes: %s", rep::cur(), x.d->secs[x.at].id, (ull)x.pos, r ? w.c_str() : "accepted"); }
}
static void modeBin(u64 count) {
    for (u64 i = 0; i < count; i++) {
        Doc d = doc(); Str s = pack(d);
        container(s, d.type, d.version + rng.below(3), "well-formed");
        if (i % 3 == 0) history(d);
        if (i % 3 == 1) interleaved(d, doc());
        if (i % 4 == 0) { container(s, d.type == "wtns" ? "zkey" : "wtns", 9, "wrong type"); Str t = d.type; t[rng.below(4)] ^= 1 << rng.below(8); container(s, t, d.version, "wrong type"); container(s, d.type.substr(0, rng.below(4)), d.version, "wrong type"); container(s, d.type.c_str(), d.version, "wrong type"); container(s, d.type + Str(1, 0), d.version, "wrong type"); if (d.version) container(s, d.type, d.version - 1 - rng.below(d.version), "too new"); }
        // cut short
        for (int k = 0; k < 3; k++) { u64 n = k == 0 ? rng.below(17) : rng.below(s.size() + 1); if (n < s.size()) container(s.substr(0, n), d.type, 9, "cut short"); }
        // section sizes, counts and random bytes
        for (int k = 0; k < 4; k++) {
            Str t = s; u64 at = 12;
            if (k < 2 && d.secs.size()) { int j = rng.below(d.secs.size()); for (int m = 0; m < j; m++) at += 12 + d.secs[m].data.size(); at += 4;
                u64 z = d.secs[j].data.size(), left = s.size() - at - 8; u64 nz; switch (rng.below(7)) { case 0: nz = ~0ull - rng.below(40); break; case 1: nz = left + 1; break; case 2: nz = left; break; case 3: nz = z + 1; break; case 4: nz = -(u64)rng.below(at + 40); break; case 5: nz = 1ull << rng.below(64); break; default: nz = z ? z - 1 : 1; }
                for (int b = 0; b < 8; b++) t[at + b] = (char)(nz >> (8 * b)); container(t, d.type, 9, "section size altered"); }
            else if (k == 2) { uint32_t c = rng.chance(1, 2) ? (uint32_t)d.secs.size() + 1 + rng.below(3) : (uint32_t)rng.next(); for (int b = 0; b < 4; b++) t[8 + b] = (char)(c >> (8 * b)); container(t, d.type, 9, "section count altered"); }
            else { for (int b = 1 + rng.below(3); b > 0; b--) t[rng.below(t.size())] = (char)rng.next(); container(t, d.type, 9, "bytes altered"); }
        }
        // reading on past the end
        if (d.secs.size()) { Doc e = d; e.tail = ""; Str t = pack(e);
            for (int mem = 0; mem < 2; mem++) for (int m = 0; m < 3; m++) {
                rep::op("reading past the end of a container, from %s: %s", mem ? "memory" : "a file", brief(t).c_str()); EV("read past the end");
                Str w; std::unique_ptr<BinFile> f; if (guarded([&] { f = open_(t, e.type, 9, mem); uint32_t id = e.secs.back().id, pos = 0; for (auto &x : e.secs) pos += x.id == id; f->startReadSection(id, pos - 1); }, w)) continue;
                u64 z = e.secs.back().data.size(); volatile u64 sink = 0;
                int r = guarded([&] { if (m == 0) { for (u64 k = 0; k <= z / 4; k++) sink += f->readU32LE(); } else if (m == 1) { for (u64 k = 0; k <= z / 8; k++) sink += f->readU64LE(); } else { u64 len = z + 1 + (rng.chance(1, 3) ? rng.next() : rng.below(9)); if (len <= z) len = ~0ull; char *p = (char *)f->read(len); sink += p[0] + p[len > 4096 ? 4096 : len - 1]; } }, w);
                if (r != 1) rep::viol("read/past", "%s: a read past the end of the data %s", rep::cur(), r ? w.c_str() : "was served");
            } }
    }
    Str w; int n0 = fds();
    for (const char *p : {"/nonexistent/x", "", "/"}) { rep::op("opening '%s'", p); EV("open nothing"); int r = guarded([&] { BinFileUtils::openExisting(p, "wtns", 1); }, w); if (r != 1) rep::viol("open/nofile", "opening '%s': %s", p, r ? w.c_str() : "accepted"); }
    rep::op("opening a directory"); int r = guarded([&] { BinFileUtils::openExisting(dir, "wtns", 1); }, w); EV("open nothing"); if (r != 1) rep::viol("open/nofile", "opening a directory: %s", r ? w.c_str() : "accepted");
    if (fds() != n0) rep::viol("open/descriptor", "opening what is no container leaves %d descriptors open", fds() - n0);
    container("", "wtns", 1, "empty");
}
static mpz_class num(const Str &s) { mpz_class r; mpz_import(r.get_mpz_t(), s.size(), -1, 1, 0, 0, s.data()); return r; }
// Headers
static void wtns(const Str &s) {
    Doc d; bool ok = parse(s, "wtns", 2, d); Str w; const Str *h = 0; for (auto &x : d.secs) if (x.id == 1 && !h) h = &x.data;
    // what follows the first header section is readable too: a short section is refused by the check of its end
    uint32_t n8 = 0, nv = 0; Str p;
    if (ok) { ok = h && h->size() >= 4; if (ok) { n8 = 0; for (int b = 0; b < 4; b++) n8 |= (uint32_t)(uint8_t)(*h)[b] << (8 * b); ok = h->size() == (u64)n8 + 8; if (ok) { p = h->substr(4, n8); for (int b = 0; b < 4; b++) nv |= (uint32_t)(uint8_t)(*h)[4 + n8 + b] << (8 * b); } } }
    for (int mem = 0; mem < 2; mem++) {
        rep::op("witness header from %s: %s", mem ? "memory" : "a file", brief(s).c_str()); EV(ok ? "witness header" : "witness header damaged"); rep::seen(hcomb(n8 < 100 ? n8 : 100, hcomb(ok, 17 + mem)));
        size_t live[4]; int r = 0;
        for (int k = 0; k < 3; k++) {
            { r = guarded([&] { auto f = open_(s, "wtns", 2, mem); auto H = WtnsUtils::loadHeader(f.get());
                if (ok && (H->n8 != n8 || H->nVars != nv || mpz_class(H->prime) != num(p))) rep::viol("wtns/value", "%s: n8 %u nVars %u prime %s", rep::cur(), H->n8, H->nVars, mpz_class(H->prime).get_str().c_str());
                if (ok) { f->startReadSection(1); f->endReadSection(false); } }, w);
              if (r == 2) rep::viol("wtns/exception", "%s: refused by throwing %s", rep::cur(), w.c_str()); else if (ok != !r) rep::viol(ok ? "wtns/refused" : "wtns/accepted", "%s: %s", rep::cur(), r ? w.c_str() : "accepted although it is damaged"); }
            live[k] = rep::live(); }
        if (live[2] > live[1] && live[1] > live[0]) rep::viol("wtns/leak", "%s: each attempt leaves memory allocated (%zu bytes)", rep::cur(), live[2] - live[1]);
    }
}
struct ZK { uint32_t protocol, n8q, n8r, nVars, nPublic, domain; Str q, r, vk; u64 coefBytes; };
static void zkey(const Str &s) {
    Doc d; bool ok = parse(s, "zkey", 1, d); Str w; const Str *h[5] = {};
    for (auto &x : d.secs) if (x.id < 5 && !h[x.id]) h[x.id] = &x.data;
    u64 q8 = 0, r8 = 0, o = 0; uint32_t v[3] = {}; Str p, rr, vk;
    auto g = [&](const Str &t, u64 &o, uint32_t &x) { if (t.size() - o < 4) return false; x = 0; for (int b = 0; b < 4; b++) x |= (uint32_t)(uint8_t)t[o + b] << (8 * b); o += 4; return true; };
    if (ok) { uint32_t x; ok = h[1] && h[2] && h[4] && h[1]->size() == 4 && g(*h[1], o, x) && x == 1;
        if (ok) { const Str &t = *h[2]; o = 0; ok = g(t, o, x); q8 = x; ok = ok && t.size() - o >= q8; if (ok) { p = t.substr(o, q8); o += q8; ok = g(t, o, x); r8 = x; ok = ok && t.size() - o >= r8; if (ok) { rr = t.substr(o, r8); o += r8; ok = g(t, o, v[0]) && g(t, o, v[1]) && g(t, o, v[2]) && t.size() - o == q8 * 18; if (ok) vk = t.substr(o); } } } }
    for (int mem = 0; mem < 2; mem++) {
        rep::op("key header from %s: %s", mem ? "memory" : "a file", brief(s).c_str()); EV(ok ? "key header" : "key header damaged"); rep::seen(hcomb(q8 < 100 ? q8 : 100, hcomb(ok, hcomb(r8 < 100 ? r8 : 100, 17 + mem))));
        size_t live[4]; int r = 0;
        for (int k = 0; k < 3; k++) {
            { r = guarded([&] { auto f = open_(s, "zkey", 1, mem); auto H = ZKeyUtils::loadHeader(f.get());
                if (ok) {
                    u64 nc = h[4]->size() / (12 + r8);
                    bool same = H->n8q == q8 && H->n8r == r8 && H->nVars == v[0] && H->nPublic == v[1] && H->domainSize == v[2] && H->nCoefs == nc && mpz_class(H->qPrime) == num(p) && mpz_class(H->rPrime) == num(rr);
                    void *a[] = {H->vk_alpha1, H->vk_beta1, H->vk_beta2, H->vk_gamma2, H->vk_delta1, H->vk_delta2}; u64 z[] = {2, 2, 4, 4, 2, 4}, at = 0;
                    for (int i = 0; i < 6; i++) { same = same && (q8 == 0 || !memcmp(a[i], vk.data() + at, z[i] * q8)); at += z[i] * q8; }
                    if (!same) rep::viol("zkey/value", "%s: n8q %u n8r %u nVars %u nPublic %u domain %u nCoefs %llu, or the primes or the points differ", rep::cur(), H->n8q, H->n8r, H->nVars, H->nPublic, H->domainSize, (ull)H->nCoefs);
                    f->startReadSection(1); f->endReadSection(false);
                } }, w);
              if (r == 2) rep::viol("zkey/exception", "%s: refused by throwing %s", rep::cur(), w.c_str()); else if (ok != !r) rep::viol(ok ? "zkey/refused" : "zkey/accepted", "%s: %s", rep::cur(), r ? w.c_str() : "accepted although it is damaged"); }
            live[k] = rep::live(); }
        if (live[2] > live[1] && live[1] > live[0]) rep::viol("zkey/leak", "%s: each attempt leaves memory allocated (%zu bytes)", rep::cur(), live[2] - live[1]);
    }
}
static void damage(const Str &s, const std::function<void(const Str &)> &f, int n) {
    for (int k = 0; k < n; k++) { Str t = s; switch (rng.below(4)) { case 0: t = t.substr(0, rng.below(t.size())); break; case 1: t[rng.below(t.size())] = (char)rng.next(); break; case 2: t[12 + rng.below(std::min<u64>(t.size() - 12, 40))] ^= 1 << rng.below(8); break; default: { u64 at = rng.below(t.size() - 4); uint32_t v = rng.chance(1, 2) ? ~0u - rng.below(16) : (uint32_t)rng.below(64); for (int b = 0; b < 4; b++) t[at + b] = (char)(v >> (8 * b)); } } f(t); }
}
// two headers alive at once, one file's header loaded twice, and numbers read after the files are gone
static void together(bool key) {
    struct One { Str s, p, r, vk; uint32_t n8, r8, v[3]; u64 coefs; } o[2]; Str w;
    for (auto &x : o) {
        Doc d; d.version = 1; Str h; x.n8 = rng.chance(1, 2) ? 32 : rng.below(50); x.r8 = rng.chance(1, 2) ? 32 : rng.below(50); x.p = bytes(x.n8); x.r = bytes(x.r8); x.vk = bytes(18ull * x.n8); x.coefs = rng.below(5); for (auto &v : x.v) v = rng.next();
        u32(h, x.n8); h += x.p;
        if (!key) { d.type = "wtns"; u32(h, x.v[0]); d.secs.push_back({1, h}); }
        else { d.type = "zkey"; Str a; u32(a, 1); u32(h, x.r8); h += x.r; for (auto v : x.v) u32(h, v); h += x.vk; d.secs.push_back({2, h}); d.secs.push_back({4, bytes(x.coefs * (12 + x.r8) + 4)}); d.secs.insert(d.secs.begin() + rng.below(3), {1, a}); }
        d.secs.insert(d.secs.begin() + rng.below(d.secs.size() + 1), {(uint32_t)(7 + rng.below(9)), bytes(8)}); x.s = pack(d);
    }
    for (int mem = 0; mem < 2; mem++) {
        rep::op("two %s headers at once, from %s", key ? "key" : "witness", mem ? "memory" : "files"); EV("headers at once"); rep::seen(hcomb(o[0].n8, hcomb(o[1].n8, hcomb(o[0].r8, 40 + 2 * mem + key))));
        int r = guarded([&] {
            std::unique_ptr<BinFile> f[2]; for (int i = 0; i < 2; i++) f[i] = open_(o[i].s, key ? "zkey" : "wtns", 1, mem);
            auto readOn = [&](int i) { f[i]->startReadSection(1); f[i]->readU32LE(); f[i]->endReadSection(false); };
            if (key) {
                std::unique_ptr<ZKeyUtils::Header> H[3]; H[0] = ZKeyUtils::loadHeader(f[0].get()); H[1] = ZKeyUtils::loadHeader(f[1].get()); if (rng.chance(1, 2)) readOn(0); H[2] = ZKeyUtils::loadHeader(f[0].get()); if (rng.chance(1, 2)) readOn(1);
                for (int gone = 0; gone < 2; gone++) { for (int i = 0; i < 3; i++) { One &x = o[i & 1]; auto &h = *H[i];
                    bool same = h.n8q == x.n8 && h.n8r == x.r8 && h.nVars == x.v[0] && h.nPublic == x.v[1] && h.domainSize == x.v[2] && h.nCoefs == x.coefs + (4 / (12 + x.r8)) && mpz_class(h.qPrime) == num(x.p) && mpz_class(h.rPrime) == num(x.r);
                    if (!gone && x.n8) { void *a[] = {h.vk_alpha1, h.vk_beta1, h.vk_beta2, h.vk_gamma2, h.vk_delta1, h.vk_delta2}; u64 z[] = {2, 2, 4, 4, 2, 4}, at = 0; for (int k = 0; k < 6; k++) { same = same && !memcmp(a[k], x.vk.data() + at, z[k] * x.n8); at += z[k] * x.n8; } }
                    if (!same) rep::viol("zkey/together", "%s: header %d of 3 differs from what its file stores%s", rep::cur(), i, gone ? " once the files are closed" : ""); }
                    f[0].reset(); f[1].reset(); }
                H[1].reset(); if (mpz_class(H[0]->qPrime) != num(o[0].p)) rep::viol("zkey/together", "%s: a header changed when another was destroyed", rep::cur());
            } else {
                std::unique_ptr<WtnsUtils::Header> H[3]; H[0] = WtnsUtils::loadHeader(f[0].get()); H[1] = WtnsUtils::loadHeader(f[1].get()); if (rng.chance(1, 2)) readOn(0); H[2] = WtnsUtils::loadHeader(f[0].get()); if (rng.chance(1, 2)) readOn(1);
                for (int gone = 0; gone < 2; gone++) { for (int i = 0; i < 3; i++) { One &x = o[i & 1]; if (H[i]->n8 != x.n8 || H[i]->nVars != x.v[0] || mpz_class(H[i]->prime) != num(x.p)) rep::viol("wtns/together", "%s: header %d of 3 differs from what its file stores%s", rep::cur(), i, gone ? " once the files are closed" : ""); } f[0].reset(); f[1].reset(); }
                H[1].reset(); if (mpz_class(H[0]->prime) != num(o[0].p)) rep::viol("wtns/together", "%s: a header changed when another was destroyed", rep::cur());
            } }, w);
        if (r) rep::viol(key ? "zkey/together" : "wtns/together", "%s: refused: %s", rep::cur(), w.c_str());
    }
}
static uint32_t longLength() { static const uint32_t L[] = {256, 4096, 16384, 21846, 32768, 65536}; return L[rng.below(6)] - 3 + rng.below(9); }
static void modeHead(u64 count) {
    auto noise = [&](Doc &d) { for (int k = rng.below(3); k > 0; k--) { Sec x = {(uint32_t)(5 + rng.below(4)), bytes(rng.below(50))}; d.secs.insert(d.secs.begin() + rng.below(d.secs.size() + 1), x); } };
    for (u64 i = 0; i < count; i++) {
        if (i % 3 == 1) { together(false); together(true); }
        { Doc d; d.type = "wtns"; d.version = rng.below(3); Str h; uint32_t n8 = i % 60 == 7 ? longLength() : rng.chance(1, 2) ? 32 : rng.below(70); u32(h, n8); h += bytes(n8); u32(h, rng.chance(1, 3) ? rng.next() : rng.below(1000)); 
          if (rng.chance(1, 5)) { if (rng.chance(1, 2)) h += bytes(1 + rng.below(5)); else h.resize(rng.below(h.size())); }
          d.secs.push_back({1, h}); d.secs.push_back({2, bytes(rng.below(200))}); if (rng.chance(1, 10)) d.secs.push_back({1, bytes(20)}); noise(d); Str s = pack(d); wtns(s); damage(s, wtns, 3);
          if (h.size() > 8) for (int k = 0; k < 2; k++) { rep::stat("header after a similar one"); Str t = s; size_t at = s.find(h); if (at != Str::npos) { t[at + (rng.chance(1, 2) ? h.size() - 1 - rng.below(4) : 4 + rng.below(h.size() - 4))] ^= 1 << rng.below(8); wtns(t); } }
          d.secs.erase(d.secs.begin()); if (rng.chance(1, 8)) wtns(pack(d)); }
        { Doc d; d.type = "zkey"; d.version = rng.below(2); Str a, b; u32(a, rng.chance(1, 8) ? rng.below(4) : 1); if (rng.chance(1, 20)) a += bytes(4);
          uint32_t nq = i % 60 == 17 ? longLength() : rng.chance(1, 2) ? 32 : rng.below(60), nr = i % 60 == 37 ? longLength() : rng.chance(1, 2) ? 32 : rng.below(60); u32(b, nq); b += bytes(nq); u32(b, nr); b += bytes(nr); for (int k = 0; k < 3; k++) u32(b, rng.chance(1, 3) ? rng.next() : rng.below(1000)); b += bytes(18ull * nq);
          if (rng.chance(1, 5)) { if (rng.chance(1, 2)) b += bytes(1 + rng.below(5)); else b.resize(rng.below(b.size())); }
          d.secs.push_back({1, a}); d.secs.push_back({2, b}); if (!rng.chance(1, 10)) d.secs.push_back({4, bytes(rng.below(6) * (12 + nr) + (rng.chance(1, 3) ? rng.below(12) : 0))}); d.secs.push_back({3, bytes(rng.below(40))});
          noise(d); Str s = pack(d); zkey(s); damage(s, zkey, 3);
          if (b.size() > 30) for (int k = 0; k < 2; k++) { rep::stat("header after a similar one"); Str t = s; size_t at = s.find(b); if (at != Str::npos) { t[at + 4 + rng.below(b.size() - 4)] ^= 1 << rng.below(8); zkey(t); } } }
    }
}
// Containers of several gigabytes: mostly zero pages nobody wrote, given as memory.
struct Big {
    u64 n, at = 0; char *p;
    Big(u64 n) : n(n) { p = (char *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } }
    ~Big() { munmap(p, n); }
    void put(const Str &s) { memcpy(p + at, s.data(), s.size()); at += s.size(); }
    void put32(uint32_t v) { Str s; u32(s, v); put(s); } void put64(u64 v) { Str s; u64le(s, v); put(s); }
};
static void hugeSections() {
    const u64 z = (1ull << 32) + 5 + rng.below(1000);
    Big b(12 + 3 * 12 + 7 + z + 9); Str a = bytes(7), e = bytes(9); b.put("abcd"); b.put32(1); b.put32(3); b.put32(1); b.put64(7); b.put(a); b.put32(2); b.put64(z); b.at += z - 4; b.put("last"); b.put32(1); b.put64(9); b.put(e);
    rep::op("a container with a section of %llu bytes", (ull)z); EV("section of more than 4 GiB"); Str w;
    int r = guarded([&] { BinFile f(b.p, b.n, "abcd", 1); b.p[b.n - 1] ^= 0;
        if (f.getSectionSize(2) != z || f.getSectionSize(1, 1) != 9 || memcmp(f.getSectionData(1, 1), e.data(), 9) || memcmp((char *)f.getSectionData(2) + z - 4, "last", 4)) rep::viol("huge/value", "%s: sizes or bytes differ", rep::cur());
        f.startReadSection(2); f.read(z - 4); if (f.readU32LE() != 0x7473616c) rep::viol("huge/value", "%s: the number at its end differs", rep::cur()); f.endReadSection();
        f.startReadSection(2); f.read(5); Str w2; if (guarded([&] { f.endReadSection(); }, w2) != 1) rep::viol("huge/end", "%s: 5 bytes of it are taken for all of it", rep::cur()); f.endReadSection(false);
        f.startReadSection(1, 1); if (memcmp(f.read(9), e.data(), 9)) rep::viol("huge/value", "%s: the section after it differs", rep::cur()); f.endReadSection(); }, w);
    if (r) rep::viol("huge/refused", "%s: refused: %s", rep::cur(), w.c_str());
    // the same container with its last section cut short
    rep::op("a container with a section of %llu bytes, cut short", (ull)z); EV("section of more than 4 GiB"); if (guarded([&] { BinFile f(b.p, b.n - 1, "abcd", 1); }, w) != 1) rep::viol("huge/accepted", "%s: accepted", rep::cur());
}
// a prime so long that twice its length, or its length plus something small, is 0 in 32 bits
static void hugePrime(bool second) {
    const u64 q8 = second ? 32 : 1ull << 31, r8 = second ? (1ull << 32) - 12 : 32, z2 = 4 + q8 + 4 + r8 + 12 + (second ? 18 * q8 : 0);
    Big b(12 + 12 + 4 + 12 + z2 + 12 + 20); b.put("zkey"); b.put32(1); b.put32(3); b.put32(1); b.put64(4); b.put32(1); b.put32(2); b.put64(z2); b.put32(q8); b.at += q8; b.put32(r8); b.at += r8; b.put32(10); b.put32(1); b.put32(8); if (second) b.at += 18 * q8; b.put32(4); b.put64(20); b.at += 20;
    rep::op("key header with primes of %llu and %llu bytes%s", (ull)q8, (ull)r8, second ? "" : " and no points"); EV("key header of several GiB"); Str w; u64 nc = 99;
    int r = guarded([&] { BinFile f(b.p, b.n, "zkey", 1); auto H = ZKeyUtils::loadHeader(&f); nc = H->nCoefs; }, w);
    if (second ? r : r != 1) rep::viol(second ? "zkey/huge/refused" : "zkey/huge/accepted", "%s: %s", rep::cur(), r ? w.c_str() : "accepted although its points are missing");
    else if (second && nc) rep::viol("zkey/huge/value", "%s: %llu coefficients", rep::cur(), (ull)nc);
}
static void death() { printf("\nFAULT\tsanitizer\t%s\n", rep::cur()); fflush(stdout); }
int main(int argc, char **argv) {
    u64 count = 100; Str mode = "bin";
    for (int i = 1; i + 1 < argc; i += 2) { Str k = argv[i], v = argv[i + 1]; if (k == "--seed") seedv = strtoull(v.c_str(), 0, 10); else if (k == "--count") count = strtoull(v.c_str(), 0, 10); else if (k == "--mode") mode = v; else if (k == "--threads") omp_set_num_threads(atoi(v.c_str())); }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    rep::install(); rng = Rng(seedv * 31 + (mode == "bin"));
    const char *sd = getenv("VF_SCRATCH"); Str t = Str(sd ? sd : "/tmp") + "/vfbin.XXXXXX"; if (!mkdtemp(&t[0])) { perror("mkdtemp"); return 3; } dir = t;
    atexit([] { unlink(path().c_str()); rmdir(dir.c_str()); });
    if (mode == "bin") modeBin(count); else if (mode == "head") modeHead(count); else if (mode == "hugebin") hugeSections(); else if (mode == "hugehead") hugePrime(false); else hugePrime(true);
    rep::sample("%s", rep::cur());
    rep::done();
    return 0;
}
