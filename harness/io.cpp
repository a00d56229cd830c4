// R01, R02: files, gzip files and zip archives with failing, short and interrupted disk operations, damaged data and crashes.
#include <Balau/Resource/ZipFile.hpp>
#include <Balau/Util/Compression.hpp>
#include <Balau/Util/Files.hpp>
#include <Balau/Util/Hashing.hpp>
#include <Balau/Util/Streams.hpp>
#include <Balau/Util/Zip.hpp>
#include <dirent.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <zlib.h>
#include <map>
#include <set>
#include "../sim/hlib.h"

using sim::Quiet;
namespace BR = Balau::Resource;
namespace BU = Balau::Util;
using BR::File;

namespace {

// ---- contents ----------------------------------------------------------------------------------
size_t someSize() {
  static const size_t edges[] = { 0, 1, 2, 255, 256, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 65535, 65536, 65537 };
  switch (sim::rnd(4)) { case 0: return (size_t) sim::rnd(60); case 1: return edges[sim::rnd(sizeof edges / sizeof *edges)]; case 2: return (size_t) sim::rnd(6000); default: return (size_t) sim::rnd(70000); }
}
std::string someBytes(size_t n) {
  std::string s; s.reserve(n);
  uint32_t x = (uint32_t) sim::rnd(); int kind = (int) sim::rnd(4);
  for (size_t i = 0; i < n; ++i) {
    x = x * 1664525u + 1013904223u;
    switch (kind) {
      case 0: s += (char) (x >> 24); break;                                         // anything
      case 1: s += (x >> 20) % 30 ? (char) ('a' + (x >> 24) % 26) : '\n'; break;      // text
      case 2: s += "abcabcabd\n"[i % 10]; break;                                    // well compressible
      default: s += (x >> 20) % 6 ? (char) ('0' + (x >> 24) % 3) : "\n\r\n\0 \t"[(x >> 26) % 6]; // many empty lines, NUL
    }
  }
  return s;
}
std::u32string somePoints(size_t n) {
  std::u32string s;
  uint32_t x = (uint32_t) sim::rnd(); int kind = (int) sim::rnd(3);
  for (size_t i = 0; i < n; ++i) {
    x = x * 1664525u + 1013904223u; uint32_t v = x >> 8;
    char32_t c = kind == 0 ? v % 0x80 : kind == 1 ? (v % 3 ? v % 0x7f + 1 : v % 0x800) : v % 0x110000;
    if (c >= 0xd800 && c < 0xe000) c = U'\u20ac';
    if (i == 0 && c == 0xfeff) c = U'a';
    s += c;
  }
  return s;
}
std::string utf8(const std::u32string & s) {
  std::string o;
  for (char32_t c : s) {
    if (c < 0x80) o += (char) c;
    else if (c < 0x800) { o += (char) (0xc0 | c >> 6); o += (char) (0x80 | (c & 63)); }
    else if (c < 0x10000) { o += (char) (0xe0 | c >> 12); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
    else { o += (char) (0xf0 | c >> 18); o += (char) (0x80 | (c >> 12 & 63)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
  }
  return o;
}
// Well-formed UTF-8 without a byte order mark at the front.
bool validUtf8(const std::string & s) {
  for (size_t i = 0; i < s.size();) {
    unsigned char x = (unsigned char) s[i]; size_t l = x < 0x80 ? 1 : x >= 0xc2 && x < 0xe0 ? 2 : x >= 0xe0 && x < 0xf0 ? 3 : x >= 0xf0 && x < 0xf5 ? 4 : 0;
    if (l == 0 || i + l > s.size()) return false;
    uint32_t v = l == 1 ? x : x & (0x7f >> l);
    for (size_t k = 1; k < l; ++k) { unsigned char c = (unsigned char) s[i + k]; if ((c & 0xc0) != 0x80) return false; v = v << 6 | (c & 63); }
    if ((l == 3 && (v < 0x800 || (v >= 0xd800 && v < 0xe000))) || (l == 4 && (v < 0x10000 || v > 0x10ffff))) return false;
    if (i == 0 && v == 0xfeff) return false;
    i += l;
  }
  return true;
}
std::vector<std::string> linesOf(const std::string & s) {
  std::vector<std::string> v; size_t p = 0;
  while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) { v.push_back(s.substr(p)); break; } v.push_back(s.substr(p, e - p)); p = e + 1; }
  return v;
}

// ---- direct access to the disk, without faults -----------------------------------------------------
void put(const std::string & path, const std::string & s) {
  Quiet q; int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666); if (fd < 0) sim::invalid("open %s", path.c_str());
  for (size_t i = 0; i < s.size();) { ssize_t k = write(fd, s.data() + i, s.size() - i); if (k <= 0) sim::invalid("write %s", path.c_str()); i += (size_t) k; }
  close(fd);
}
bool get(const std::string & path, std::string & s) {
  Quiet q; s.clear(); int fd = open(path.c_str(), O_RDONLY); if (fd < 0) return false;
  char b[65536]; ssize_t k; while ((k = read(fd, b, sizeof b)) > 0) s.append(b, (size_t) k); close(fd); return true;
}
std::string gz(const std::string & s, int level) {
  Quiet q; z_stream z {}; deflateInit2(&z, level, Z_DEFLATED, 15 + 16, 8, Z_DEFAULT_STRATEGY);
  std::string o(deflateBound(&z, s.size()) + 64, 0); z.next_in = (Bytef *) s.data(); z.avail_in = (uInt) s.size(); z.next_out = (Bytef *) &o[0]; z.avail_out = (uInt) o.size();
  if (deflate(&z, Z_FINISH) != Z_STREAM_END) sim::invalid("deflate"); o.resize(o.size() - z.avail_out); deflateEnd(&z); return o;
}
bool ungz(const std::string & s, std::string & o) {
  Quiet q; z_stream z {}; inflateInit2(&z, 15 + 16); z.next_in = (Bytef *) s.data(); z.avail_in = (uInt) s.size(); o.clear();
  char b[65536]; int rc; do { z.next_out = (Bytef *) b; z.avail_out = sizeof b; rc = inflate(&z, Z_NO_FLUSH); o.append(b, sizeof b - z.avail_out); } while (rc == Z_OK);
  bool ok = rc == Z_STREAM_END && z.avail_in == 0; inflateEnd(&z); return ok;
}
struct Item { std::string name, data; };
void makeZip(const std::string & path, const std::vector<Item> & items, const std::string & comment) {
  Quiet q; int e = 0; zip_t * z = zip_open(path.c_str(), ZIP_CREATE | ZIP_TRUNCATE, &e); if (!z) sim::invalid("zip_open %d", e);
  for (auto & i : items) {
    if (i.name.back() == '/') { if (zip_dir_add(z, i.name.c_str(), ZIP_FL_ENC_UTF_8) < 0) sim::invalid("zip_dir_add"); continue; }
    zip_int64_t k = zip_file_add(z, i.name.c_str(), zip_source_buffer(z, i.data.data(), i.data.size(), 0), ZIP_FL_ENC_UTF_8); if (k < 0) sim::invalid("zip_file_add");
    zip_set_file_compression(z, (zip_uint64_t) k, sim::chance(0.4) ? ZIP_CM_STORE : ZIP_CM_DEFLATE, 0);
  }
  if (!comment.empty()) zip_set_archive_comment(z, comment.data(), (zip_uint16_t) comment.size());
  if (zip_close(z)) sim::invalid("zip_close: %s", zip_strerror(z));
}
// All entries of an archive, or false when the file does not exist. Anything unreadable fails the run.
bool readZip(const std::string & path, std::map<std::string, std::string> & out, std::string & comment) {
  Quiet q; out.clear(); comment.clear(); if (access(path.c_str(), F_OK)) return false;
  int e = 0; zip_t * z = zip_open(path.c_str(), ZIP_RDONLY | ZIP_CHECKCONS, &e); if (!z) sim::fail("damaged-archive", "the archive cannot be opened (libzip error %d)", e);
  zip_int64_t n = zip_get_num_entries(z, 0);
  for (zip_int64_t i = 0; i < n; ++i) {
    zip_stat_t st; zip_stat_init(&st); if (zip_stat_index(z, (zip_uint64_t) i, 0, &st)) sim::fail("damaged-archive", "no information on entry %d", (int) i);
    zip_file_t * f = zip_fopen_index(z, (zip_uint64_t) i, 0); if (!f) sim::fail("damaged-archive", "entry '%s' cannot be opened", st.name);
    std::string d; char b[65536]; zip_int64_t k; while ((k = zip_fread(f, b, sizeof b)) > 0) d.append(b, (size_t) k);
    if (k < 0) sim::fail("damaged-archive", "entry '%s' cannot be read", st.name);
    zip_fclose(f);
    if (!out.emplace(st.name, d).second) sim::fail("damaged-archive", "entry '%s' exists twice", st.name);
  }
  int len = 0; const char * c = zip_get_archive_comment(z, &len, 0); if (c) comment.assign(c, (size_t) len);
  zip_discard(z); return true;
}
std::string brief(const std::string & s) { std::string o; for (unsigned char c : s.substr(0, 30)) { char b[5]; if (c >= 32 && c < 127) o += (char) c; else { snprintf(b, sizeof b, "\\x%02x", c); o += b; } } return o; }

struct NoIoFaults { sim::IoFaults old; NoIoFaults() { old = sim::ioFaults(); sim::ioFaults() = sim::IoFaults(); } ~NoIoFaults() { sim::ioFaults() = old; } };

std::string damage(const std::string & s, std::string & what) {
  std::string d = s; sim::count(sim::F_CORRUPT); if (d.empty()) { what = "nothing"; return d; }
  size_t p = sim::chance(0.5) ? (size_t) sim::rnd(d.size()) : sim::chance(0.5) ? (size_t) sim::rnd(std::min<size_t>(d.size(), 80)) : d.size() - 1 - (size_t) sim::rnd(std::min<size_t>(d.size(), 200));
  switch (sim::rnd(4)) {
    case 0: d[p] = (char) (d[p] ^ 1 << sim::rnd(8)); what = "a flipped bit at " + std::to_string(p); break;
    case 1: d[p] = (char) (d[p] + 1 + (int) sim::rnd(254)); what = "a changed byte at " + std::to_string(p); break;
    case 2: d.resize(p); what = "truncation to " + std::to_string(p); break;
    default: { size_t n = std::min<size_t>(d.size() - p, 1 + (size_t) sim::rnd(600)); for (size_t i = 0; i < n; ++i) d[p + i] = 0; what = std::to_string(n) + " bytes zeroed at " + std::to_string(p); }
  }
  return d;
}

uint64_t readFaults() { return sim::fired(sim::F_OPENFAIL) + sim::fired(sim::F_READERR); }
uint64_t writeFaults() { return readFaults() + sim::fired(sim::F_WRITEERR) + sim::fired(sim::F_ENOSPC) + sim::fired(sim::F_RENAMEFAIL); }

// Reads a stream to its end in a generated way; returns false when the stream reports a failure. A formatted copy of
// nothing (empty) sets the failbit of its destination.
bool drain(std::istream & in, std::string & out, int way, size_t chunk, bool empty) {
  out.clear();
  if (way == 0) { std::string b(chunk, 0); while (in) { in.read(&b[0], (std::streamsize) chunk); out.append(b, 0, (size_t) in.gcount()); } }
  else if (way == 1) { int c; while ((c = in.get()) != std::char_traits<char>::eof()) out += (char) c; }
  else if (way == 2) out = toString(in);
  else if (way == 3) { auto v = BU::Streams::readLinesToVector(in); bool bad = in.bad(); for (auto & l : v) { out += l; out += '\n'; } return !bad; }
  else { std::ostringstream o; BU::Streams::consume(o, in); out = o.str(); return !in.bad() && (!o.fail() || empty); }
  return !in.bad();
}

std::string hashOf(int kind, const std::string & s) {
  Quiet q; std::string c = s;
  switch (kind) { case 0: return BU::Hashing::sha256(c); case 1: return BU::Hashing::sha1(c); case 2: return BU::Hashing::md5(c); case 3: return BU::Hashing::crc32(c); case 4: return BU::Hashing::keccak(c); default: return BU::Hashing::sha3(c); }
}
std::string hashOf(int kind, const File & f) {
  switch (kind) { case 0: return BU::Hashing::sha256(f); case 1: return BU::Hashing::sha1(f); case 2: return BU::Hashing::md5(f); case 3: return BU::Hashing::crc32(f); case 4: return BU::Hashing::keccak(f); default: return BU::Hashing::sha3(f); }
}

// ---- R01 -----------------------------------------------------------------------------------------
struct Outcome { bool ok; std::string data, error; };
template <typename F> Outcome attempt(F f) {
  Outcome o { false, "", "" };
  try { o.ok = f(o.data); if (!o.ok) o.error = "the stream failed"; }
  catch (const std::exception & e) { o.ok = false; o.error = e.what(); }
  return o;
}

// The sizes in the directory of an archive have no checksum, and an entry with a zeroed size is an empty one.
bool g_emptyAllowed;

void checkRead(const char * what, const Outcome & o, const std::string & expected, uint64_t faultsBefore, bool damaged) {
  if (o.ok) {
    if (o.data == expected) { if (damaged) sim::probe("damage without effect"); return; }
    if (damaged && g_emptyAllowed && o.data.empty()) return;
    size_t d = 0; while (d < o.data.size() && d < expected.size() && o.data[d] == expected[d]) ++d;
    sim::fail("altered-content", "%s gave %zu bytes instead of the stored %zu without an error, different from byte %zu on: \"%s\" for \"%s\"%s", what, o.data.size(), expected.size(), d, brief(o.data.substr(d)).c_str(), brief(expected.substr(d)).c_str(), readFaults() > faultsBefore ? " (a read failed)" : "");
  }
  sim::note("%s reported: %.100s", what, o.error.c_str());
  if (readFaults() == faultsBefore && !damaged) sim::fail("spurious-error", "%s of intact data failed: %.300s", what, o.error.c_str());
  sim::probe(damaged ? "damage detected" : "read failure reported");
}

void readFaultRates() {
  sim::IoFaults f;
  if (sim::chance(0.6)) { double p = sim::chance(0.5) ? 0.3 : 0.03; f.readErr = sim::chance(0.5) ? p : 0; f.openFail = sim::chance(0.2) ? p : 0; }
  if (sim::chance(0.6)) f.shortRead = sim::chance(0.5) ? 0.8 : 0.2;
  if (sim::chance(0.4)) f.eintr = 0.3;
  sim::ioFaults() = f;
}

void reads() {
  sim::swarm(); sim::tuning().maxSteps = 30000000; sim::tuning().faultSteps = 20000000;
  (void) sim::scratch();
  int n = (int) sim::rndRange(1, 4);
  struct Plan { int op; std::string a; std::u32string u; int way; size_t chunk; bool dmg; int level; int hash; uint64_t seed; };
  std::vector<Plan> plan;
  for (int i = 0; i < n; ++i) {
    Plan p; p.op = (int) sim::rnd(12); size_t sz = someSize(); p.a = someBytes(sz); p.u = somePoints(sz / 3); p.way = (int) sim::rnd(5); p.chunk = 1 + (size_t) sim::rnd(sim::chance(0.5) ? 10 : 20000);
    p.dmg = sim::chance(0.4); p.level = (int) sim::rnd(10); p.hash = (int) sim::rnd(6);
    if (sim::keepOp()) plan.push_back(std::move(p));
  }
  for (size_t i = 0; i < plan.size(); ++i) {
    Plan & p = plan[i]; std::string path = "s/f" + std::to_string(i); File f(path); std::string what; bool dmg = false;
    readFaultRates(); g_emptyAllowed = false;
    auto before = [&] { return readFaults(); };
    if (p.op <= 3) { // a plain file
      put(path, p.a); uint64_t b = before(); sim::nontrivial();
      if (p.op == 0) checkRead("Files::readToString", attempt([&] (std::string & o) { o = BU::Files::readToString(f); return true; }), p.a, b, false);
      else if (p.op == 1) checkRead("Files::readToVector", attempt([&] (std::string & o) { auto v = BU::Files::readToVector(f); o.assign(v.data(), v.size()); return true; }), p.a, b, false);
      else if (p.op == 2) {
        std::string want; for (auto & l : linesOf(p.a)) { want += l; want += '\n'; }
        checkRead("Files::toLines", attempt([&] (std::string & o) { for (auto & l : BU::Files::toLines(f)) { o += l; o += '\n'; } return true; }), want, b, false);
      } else {
        std::string want = p.a; if (p.way == 3) { want.clear(); for (auto & l : linesOf(p.a)) { want += l; want += '\n'; } }
        std::vector<BR::FileByteReadResource> kept;
        checkRead("a file byte read resource", attempt([&] (std::string & o) {
          if (p.level < 3) { kept.push_back(f.getByteReadResource()); BR::FileByteReadResource moved(std::move(kept.back())); return drain(moved.readStream(), o, p.way, p.chunk, want.empty()); }
          auto r = f.byteReadResource(); bool ok = drain(r->readStream(), o, p.way, p.chunk, want.empty()); r->close(); return ok;
        }), want, b, false);
      }
    } else if (p.op == 4) { // UTF-8
      put(path, utf8(p.u)); uint64_t b = before(); sim::nontrivial();
      checkRead("a UTF-8 to UTF-32 read resource", attempt([&] (std::string & o) {
        auto r = f.utf8To32ReadResource(); auto & in = r->readStream(); std::u32string s;
        if (p.way < 2) { std::u32string c(p.chunk, 0); while (in) { in.read(&c[0], (std::streamsize) p.chunk); s.append(c, 0, (size_t) in.gcount()); } }
        else s = toString32(in);
        { Quiet q; o = utf8(s); }
        return !in.bad();
      }), utf8(p.u), b, false);
    } else if (p.op == 5) {
      put(path, p.a); uint64_t b = before(); sim::nontrivial();
      checkRead("hashing a file", attempt([&] (std::string & o) { o = hashOf(p.hash, f); return true; }), hashOf(p.hash, p.a), b, false);
    } else if (p.op <= 8) { // gzip
      std::string z = gz(p.a, p.level); if (p.dmg) { z = damage(z, what); dmg = true; sim::note("damage: %s", what.c_str()); }
      put(path, z); uint64_t b = before(); sim::nontrivial();
      if (p.op == 6) checkRead("GZip::gunzip to a string", attempt([&] (std::string & o) { BU::GZip::gunzip(f, o); return true; }), p.a, b, dmg);
      else if (p.op == 7) {
        std::string want = p.a; if (p.way == 3) { want.clear(); for (auto & l : linesOf(p.a)) { want += l; want += '\n'; } }
        checkRead("GZip::gunzip to a stream", attempt([&] (std::string & o) { std::unique_ptr<std::istream> in; BU::GZip::gunzip(f, in); return drain(*in, o, p.way, p.chunk, want.empty()); }), want, b, dmg);
      } else checkRead("GZip::gunzip to a file", attempt([&] (std::string & o) { std::string t = path + ".out"; BU::GZip::gunzip(f, File(t)); if (!get(t, o)) sim::fail("altered-content", "no file was written"); return true; }), p.a, b, dmg);
    } else { // zip
      std::vector<Item> items; std::string comment = sim::chance(0.3) ? "comment " + std::to_string(i) : ""; int k = (int) sim::rndRange(1, 5);
      for (int j = 0; j < k; ++j) {
        if (sim::chance(0.15)) { items.push_back({ "dir" + std::to_string(j) + "/", "" }); continue; }
        Item it; it.name = (sim::chance(0.3) ? "sub/" : "") + ("entry" + std::to_string(j)); it.data = j == 0 ? p.a : sim::chance(0.3) ? utf8(somePoints(someSize() / 3)) : someBytes(someSize()); items.push_back(it);
      }
      makeZip(path, items, comment);
      bool verify = sim::chance(0.3);
      if (p.dmg) { std::string raw; get(path, raw); std::string bad = damage(raw, what); put(path, bad); dmg = true;
        size_t dir = raw.find("PK\x01\x02"); // (or an accidental earlier occurrence, which only weakens the check)
        g_emptyAllowed = dir == std::string::npos || bad.size() < dir || bad.compare(dir, std::string::npos, raw, dir, std::string::npos) != 0; sim::note("damage: %s", what.c_str()); }
      uint64_t b = before(); sim::nontrivial();
      if (p.op == 9) {
        BU::Unzipper u;
        { Quiet q; if (u.isOpen()) sim::fail("not-open", "a new unzipper is open"); }
        Outcome op = attempt([&] (std::string &) { u.open(f, verify); return true; });
        if (!op.ok) { if (readFaults() == b && !dmg) sim::fail("spurious-error", "opening an archive failed: %.300s", op.error.c_str()); sim::note("open failed: %.200s", op.error.c_str()); continue; }
        if (!dmg) {
          { Quiet q; if (u.entryCount() != (long long) items.size()) sim::fail("altered-content", "the archive has %lld entries instead of %zu", u.entryCount(), items.size()); }
          auto names = u.entryNames(); for (size_t j = 0; j < items.size(); ++j) if (names.size() != items.size() || names[j] != items[j].name) sim::fail("altered-content", "the entry names are wrong");
          if (u.readArchiveComment() != comment) sim::fail("altered-content", "the archive comment is wrong");
          if (u.hasEntry("nothing")) sim::fail("altered-content", "an entry exists that does not");
          Outcome no = attempt([&] (std::string & o) { o = u.readEntryAsString("nothing"); return true; }); if (no.ok) sim::fail("altered-content", "an entry that does not exist was read");
        }
        for (size_t j = 0; j < items.size(); ++j) {
          if (items[j].name.back() == '/') continue;
          uint64_t b2 = before(); bool byName = sim::chance(0.5), asString = sim::chance(0.5);
          checkRead(asString ? "Unzipper::readEntryAsString" : "Unzipper::readEntryAsBytes", attempt([&] (std::string & o) {
            if (asString) o = byName ? u.readEntryAsString(items[j].name) : u.readEntryAsString((long long) j);
            else { auto v = byName ? u.readEntryAsBytes(items[j].name) : u.readEntryAsBytes((long long) j); o.assign(v.data(), v.size()); }
            return true;
          }), items[j].data, b2, dmg);
        }
      } else {
        BR::ZipFile zf((File(path))); int way = (int) sim::rnd(3); size_t at = 0;
        Outcome op = attempt([&] (std::string &) {
          auto it = zf.recursiveZipFileIterator(verify);
          while (it.hasNext()) {
            BR::ZipEntry e = it.next(); size_t j = at++;
            if (j >= items.size()) { if (dmg) break; sim::fail("altered-content", "too many entries"); }
            if (items[j].name.back() == '/') { if (!dmg && !e.isEntryDirectory()) sim::fail("altered-content", "a directory is not one"); continue; }
            if (!dmg && (e.name() != items[j].name || e.size() != items[j].data.size())) sim::fail("altered-content", "name or size of entry %zu is wrong", j);
            uint64_t b2 = before();
            bool text = way == 1 && validUtf8(items[j].data);
            if (text) {
              checkRead("a zip entry UTF-8 to UTF-32 read resource", attempt([&] (std::string & o) {
                auto r = e.utf8To32ReadResource(); auto & in = r->readStream(); std::u32string s, c(p.chunk, 0); while (in) { in.read(&c[0], (std::streamsize) p.chunk); s.append(c, 0, (size_t) in.gcount()); }
                { Quiet q; o = utf8(s); } return !in.bad(); }), items[j].data, b2, dmg);
            } else {
              std::string want = items[j].data; if (p.way == 3) { want.clear(); for (auto & l : linesOf(items[j].data)) { want += l; want += '\n'; } }
              if (way == 2) checkRead("ZipEntry::readEntryAsString", attempt([&] (std::string & o) { o = e.readEntryAsString(); return true; }), items[j].data, b2, dmg);
              else checkRead("a zip entry byte read resource", attempt([&] (std::string & o) { auto r = e.byteReadResource(); return drain(r->readStream(), o, p.way, p.chunk, want.empty()); }), want, b2, dmg);
            }
          }
          return true;
        });
        if (!op.ok && readFaults() == b && !dmg) sim::fail("spurious-error", "reading a zip file failed: %.300s", op.error.c_str());
        if (op.ok && !dmg && at != items.size()) sim::fail("altered-content", "%zu entries of %zu were iterated", at, items.size());
      }
    }
  }
}

// ---- R02 -----------------------------------------------------------------------------------------
void writeFaultRates(bool errors) {
  sim::IoFaults f; sim::setFlagDiskFull(false);
  if (errors) {
    double p = sim::chance(0.4) ? 0.4 : 0.05;
    if (sim::chance(0.5)) f.writeErr = p; if (sim::chance(0.4)) f.enospc = p; if (sim::chance(0.2)) f.openFail = p; if (sim::chance(0.2)) f.readErr = p; if (sim::chance(0.3)) f.renameFail = 0.5;
  }
  if (sim::chance(0.5)) f.shortWrite = sim::chance(0.5) ? 0.8 : 0.2;
  if (sim::chance(0.4)) f.eintr = 0.3;
  if (sim::chance(0.4)) f.shortRead = 0.4;
  sim::ioFaults() = f;
}

void checkWrite(const char * what, const Outcome & o, const std::string & path, const std::string & expected, uint64_t before, bool gzipped) {
  if (o.ok) {
    std::string got; if (!get(path, got)) sim::fail("lost-data", "%s reported success, the file does not exist", what);
    if (gzipped) { std::string u; if (!ungz(got, u)) sim::fail("lost-data", "%s reported success, the file of %zu bytes is not a complete gzip file%s", what, got.size(), writeFaults() > before ? " (a write failed)" : ""); got = u; }
    if (got != expected) sim::fail("lost-data", "%s reported success, the file has %zu bytes of content instead of %zu%s", what, got.size(), expected.size(), writeFaults() > before ? " (a write failed)" : "");
    return;
  }
  sim::note("%s reported: %.100s", what, o.error.c_str());
  if (writeFaults() == before) sim::fail("spurious-error", "%s failed although no operation failed: %.300s", what, o.error.c_str());
  sim::probe("write failure reported");
}

void writes() {
  sim::swarm(); sim::tuning().maxSteps = 30000000; sim::tuning().faultSteps = 20000000;
  (void) sim::scratch();
  int n = (int) sim::rndRange(1, 4);
  struct Plan { int op; std::string a; std::u32string u; size_t chunk; bool flush, exists; int form; };
  std::vector<Plan> plan;
  for (int i = 0; i < n; ++i) {
    Plan p; p.op = (int) sim::rnd(5); size_t sz = someSize(); p.a = someBytes(sz); p.u = somePoints(sz / 3); p.chunk = 1 + (size_t) sim::rnd(sim::chance(0.3) ? 10 : 20000); p.flush = sim::chance(0.2); p.exists = sim::chance(0.3); p.form = (int) sim::rnd(3);
    if (sim::keepOp()) plan.push_back(std::move(p));
  }
  bool errors = sim::chance(0.6);
  for (size_t i = 0; i < plan.size(); ++i) {
    Plan & p = plan[i]; std::string path = "s/w" + std::to_string(i), in = "s/i" + std::to_string(i); File f(path);
    if (p.exists && p.op != 4) put(path, "what was there before, which is replaced");
    writeFaultRates(errors); uint64_t b = writeFaults(); sim::nontrivial();
    if (p.op <= 1) {
      if (f.exists() != p.exists) sim::fail("wrong-state", "exists() is wrong");
      checkWrite("a file byte write resource", attempt([&] (std::string &) {
        std::vector<BR::FileByteWriteResource> kept;
        auto go = [&] (BR::ByteWriteResource & r) { auto & o = r.writeStream(); for (size_t k = 0; k < p.a.size(); k += p.chunk) { o.write(p.a.data() + k, (std::streamsize) std::min(p.chunk, p.a.size() - k)); if (p.flush) o.flush(); } r.close(); return !o.fail(); };
        if (p.form == 0) { kept.push_back(f.getByteWriteResource()); BR::FileByteWriteResource moved(std::move(kept.back())); return go(moved); }
        auto r = f.byteWriteResource(); return go(*r);
      }), path, p.a, b, false);
      if (writeFaults() == b) { File g(path); if (!g.exists() || !g.isRegularFile() || g.size() != p.a.size()) sim::fail("wrong-state", "the written file has %zu bytes, exists %d", g.size(), (int) g.exists()); }
    } else if (p.op == 2) {
      checkWrite("a UTF-32 to UTF-8 write resource", attempt([&] (std::string &) {
        auto r = f.utf32To8WriteResource(); auto & o = r->writeStream(); for (size_t k = 0; k < p.u.size(); k += p.chunk) { o.write(p.u.data() + k, (std::streamsize) std::min(p.chunk, p.u.size() - k)); if (p.flush) o.flush(); } r->close(); return !o.fail();
      }), path, utf8(p.u), b, false);
    } else if (p.op == 3) {
      put(in, p.a);
      checkWrite("GZip::gzip", attempt([&] (std::string &) {
        if (p.form == 0) BU::GZip::gzip(p.a, f); else if (p.form == 1) BU::GZip::gzip(File(in), f); else { std::istringstream s(p.a); BU::GZip::gzip(s, f); }
        return true;
      }), path, p.a, b, true);
    } else {
      put(in, p.a);
      checkWrite("Files::copy", attempt([&] (std::string &) { BU::Files::copy(File(in), f); return true; }), path, p.a, b, false);
      std::string still; if (!get(in, still) || still != p.a) sim::fail("lost-data", "the source of a copy was changed");
    }
  }
}

using Model = std::map<std::string, std::string>;
void archives() {
  sim::swarm(); sim::tuning().maxSteps = 30000000; sim::tuning().faultSteps = 20000000;
  (void) sim::scratch();
  std::string path = "s/a.zip"; Model model; std::string comment; bool exists = false;
  struct Op { int kind; std::string name, to, data; int form; };
  struct Trans { std::vector<Op> ops; int end; bool verify; int errors; };
  std::vector<Trans> plan; int nt = (int) sim::rndRange(1, 4);
  auto someName = [] { static const char * const names[] = { "a", "b.txt", "d1/a", "d1/b", "d1/e/c", "d2/a", "d2/f/g/h" }; return std::string(names[sim::rnd(7)]); };
  auto someDir = [] { static const char * const names[] = { "d1/", "d1/e/", "d2/", "d2/f/", "d3/", "d3/x/" }; return std::string(names[sim::rnd(6)]); };
  for (int t = 0; t < nt; ++t) {
    Trans tr; tr.end = (int) sim::rnd(10); tr.verify = sim::chance(0.3); tr.errors = (int) sim::rnd(3); int no = (int) sim::rndRange(1, 7);
    for (int k = 0; k < no; ++k) {
      Op o; o.kind = (int) sim::rnd(12); o.name = someName(); o.to = someName(); o.form = (int) sim::rnd(3); o.data = someBytes(someSize());
      if (o.kind == 8 || o.kind == 10 || o.kind == 11) o.name = someDir();
      if (o.kind == 10) o.to = someDir();
      if (sim::keepOp()) tr.ops.push_back(std::move(o));
    }
    plan.push_back(std::move(tr));
  }
  int serial = 0;
  for (auto & tr : plan) {
    sim::ioFaults() = sim::IoFaults(); sim::setFlagDiskFull(false);
    std::string oldBytes; bool oldExists = get(path, oldBytes); if (oldExists != exists) sim::fail("lost-archive", "the archive %s", exists ? "is gone" : "exists");
    Model m = model; std::string c = comment; File f(path);
    auto z = std::make_unique<BU::Zipper>();
    auto addDirs = [&] (const std::string & name) { size_t l = name.rfind('/'); if (l == std::string::npos || m.count(name.substr(0, l + 1))) return; for (size_t p = name.find('/'); p != std::string::npos; p = name.find('/', p + 1)) m.emplace(name.substr(0, p + 1), ""); };
    if (tr.errors == 2) writeFaultRates(true);
    uint64_t b = writeFaults();
    Outcome op = attempt([&] (std::string &) { z->open(f, tr.verify); return true; });
    if (!op.ok) { if (writeFaults() == b) sim::fail("spurious-error", "opening the archive failed: %.300s", op.error.c_str()); sim::note("open failed"); z.reset(); std::string now; if (get(path, now) != exists || now != oldBytes) sim::fail("lost-archive", "a failed open changed the archive"); continue; }
    bool dead = false; int applied = 0;
    for (auto & o : tr.ops) {
      uint64_t b1 = writeFaults(); bool expectError = false; Model before = m; std::string src;
      Outcome r = attempt([&] (std::string &) {
        switch (o.kind) {
          case 0: case 1: case 2: case 3: case 4: case 5: {
            if (m.count(o.name + "/")) return true;
            addDirs(o.name); m[o.name] = o.data;
            std::string given = (o.form == 0 ? "" : o.form == 1 ? "/" : "") + o.name;
            if (o.kind < 3) { std::string tmp = o.data; z->putEntry(given, tmp); std::fill(tmp.begin(), tmp.end(), 'X'); }
            else if (o.kind < 5) { auto tmp = std::make_unique<std::vector<char>>(o.data.begin(), o.data.end()); z->putEntry(given, *tmp); std::fill(tmp->begin(), tmp->end(), 'X'); }
            else { src = "s/src" + std::to_string(serial++); put(src, o.data); z->putEntry(given, File(src)); }
            return true;
          }
          case 6: expectError = !m.count(o.name); m.erase(o.name); z->deleteEntry(o.name); return true;
          case 7: { if (m.count(o.to)) return true; expectError = !m.count(o.name); if (!expectError) { std::string d = m[o.name]; m.erase(o.name); m[o.to] = d; } z->renameEntry(o.name, o.to); return true; }
          case 8: addDirs(o.name); z->putDirectory(o.name); return true;
          case 9: c = o.data.substr(0, 40); for (auto & ch : c) ch = (char) ('a' + (unsigned char) ch % 26); z->putArchiveComment(c); return true;
          case 10: {
            for (auto & e : m) if (e.first.compare(0, o.to.size(), o.to) == 0) return true; // a new name only
            if (o.to.compare(0, o.name.size(), o.name) == 0) return true;
            Model k; for (auto & e : m) if (e.first.compare(0, o.name.size(), o.name) == 0) k[o.to + e.first.substr(o.name.size())] = e.second; else k.insert(e); m = k;
            z->renameEntry(o.name, o.to); return true;
          }
          default: for (auto e = m.begin(); e != m.end();) if (e->first.compare(0, o.name.size(), o.name) == 0) e = m.erase(e); else ++e; z->deleteEntry(o.name); return true;
        }
      });
      if (r.ok && expectError) sim::fail("no-error", "operation %d on '%s', which does not exist, reported success", o.kind, o.name.c_str());
      if (!r.ok) {
        m = before;
        if (!expectError) { if (writeFaults() == b1) sim::fail("spurious-error", "operation %d on '%s' '%s' failed: %.300s", o.kind, o.name.c_str(), o.to.c_str(), r.error.c_str()); dead = true; break; }
      } else ++applied;
    }
    auto unchanged = [&] (const char * why) { std::string now; bool e = get(path, now); if (e != exists || now != oldBytes) sim::fail("lost-archive", "%s changed the archive (%zu bytes instead of %zu%s)", why, now.size(), oldBytes.size(), e ? "" : ", gone"); };
    auto matches = [&] (const Model & want, const std::string & wc, const char * why) {
      NoIoFaults nf; Model got; std::string gc; bool e = readZip(path, got, gc);
      if (e != !want.empty()) sim::fail("lost-archive", "%s: the archive %s", why, e ? "exists although it is empty" : "does not exist");
      if (!e) return;
      for (auto & x : want) { auto g = got.find(x.first); if (g == got.end()) sim::fail("lost-data", "%s: entry '%s' is missing", why, x.first.c_str()); if (g->second != x.second) sim::fail("lost-data", "%s: entry '%s' has %zu bytes (\"%s\") instead of %zu", why, x.first.c_str(), g->second.size(), brief(g->second).c_str(), x.second.size()); }
      for (auto & x : got) if (!want.count(x.first)) sim::fail("lost-data", "%s: there is an entry '%s'", why, x.first.c_str());
      if (gc != wc) sim::fail("lost-data", "%s: the comment is '%s' instead of '%s'", why, gc.c_str(), wc.c_str());
    };
    if (applied) sim::nontrivial();
    if (dead || tr.end == 0) { z->close(); unchanged("close"); continue; }
    if (tr.end == 1) { z.reset(); unchanged("destruction without commit"); continue; }
    if (tr.end == 2 || tr.end == 3) { // the process is killed in the commit (or survives it)
      sim::IoFaults io = sim::ioFaults(); io.crash = 0.1; sim::ioFaults() = io;
      int pid = fork(); if (pid < 0) sim::invalid("fork");
      if (pid == 0) { Outcome r = attempt([&] (std::string &) { z->commit(); return true; }); _exit(r.ok ? 0 : 1); }
      int st; if (waitpid(pid, &st, 0) != pid) sim::invalid("waitpid");
      sim::ioFaults() = sim::IoFaults(); sim::setFlagDiskFull(false); z->close();
      bool killed = WIFSIGNALED(st); std::string now; bool e = get(path, now); bool same = e == exists && now == oldBytes;
      if (killed) sim::probe("killed during a commit");
      if (killed && same) continue; // (a commit that changes nothing looks the same)
      if (!killed && WEXITSTATUS(st) == 1) { unchanged("a failed commit"); continue; }
      matches(m, c, killed ? "killed during the commit" : "commit in a child process");
      model = m; comment = m.empty() ? "" : c; exists = !m.empty(); continue;
    }
    if (tr.errors == 1) writeFaultRates(true);
    uint64_t b2 = writeFaults();
    Outcome r = attempt([&] (std::string &) { z->commit(); return true; });
    if (!r.ok) {
      sim::note("commit reported: %.100s", r.error.c_str());
      if (writeFaults() == b2) sim::fail("spurious-error", "commit failed although no operation failed: %.300s", r.error.c_str());
      sim::probe("failed commit"); unchanged("a failed commit");
      if (!z->isOpen()) sim::fail("wrong-state", "a zipper is not open after a failed commit");
      if (tr.end < 6) { z->close(); unchanged("closing after a failed commit"); } else { z.reset(); unchanged("destruction after a failed commit"); }
      continue;
    }
    if (z->isOpen()) sim::fail("wrong-state", "a zipper is open after a commit");
    sim::ioFaults() = sim::IoFaults(); sim::setFlagDiskFull(false);
    matches(m, c, "after a commit"); model = m; comment = m.empty() ? "" : c; exists = !m.empty();
  }
  // what is read through the library afterwards
  sim::ioFaults() = sim::IoFaults();
  if (exists) {
    BU::Unzipper u; HL_TRY(u.open(File(path), true), "opening the final archive")
    for (auto & e : model) if (e.first.back() != '/') { std::string d; HL_TRY(d = u.readEntryAsString(e.first), "reading the final archive") if (d != e.second) sim::fail("altered-content", "entry '%s' is read with %zu bytes instead of %zu", e.first.c_str(), d.size(), e.second.size()); }
  }
}

} // namespace

SIM_SCENARIO(R01, reads, 1, "1-4 files, gzip files or zip archives of generated content, intact or damaged, read in every way the library offers while reads fail, are short or are interrupted; non-trivial: something was read") { reads(); }
SIM_SCENARIO(R02, writes, 1, "1-4 files or gzip files written in every way the library offers while writes fail, are short, are interrupted or the disk is full; non-trivial: something was written") { writes(); }
SIM_SCENARIO(R02, archives, 1, "1-4 update transactions of a zip archive, committed, discarded, failing or killed during the commit; non-trivial: a transaction with at least one applied change") { archives(); }
