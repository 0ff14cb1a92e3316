// C41: what is put into an ostream arrives at standard output when it is flushed, complete and in order.
#define PBT_MAIN
#define NANOSTL_IMPLEMENTATION
#include "numtext.h"
#include "nanoiostream.h"
using namespace pbt;
using nanostl::ostream;

// A buffer of its own, so that writing never allocates.
static char buffer[1 << 16];
static const int buffered = setvbuf(stdout, buffer, _IOFBF, sizeof buffer);

// Standard output of this process, put into a memory file while it lives.
struct Captured {
  int saved, fd;
  size_t seen;
  Captured() : seen(0) {
    fflush(stdout);
    saved = dup(1);
    fd = memfd_create("c41", 0);
    if (saved < 0 || fd < 0 || dup2(fd, 1) < 0) _exit(7);
  }
  ~Captured() {
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
    close(fd);
  }
  std::string fresh() {  // what arrived since the last call
    fflush(stdout);
    const off_t n = lseek(fd, 0, SEEK_END);
    std::string r((size_t)n - seen, '\0');
    size_t at = 0;
    while (at < r.size()) {
      ssize_t k = pread(fd, &r[at], r.size() - at, (off_t)(seen + at));
      if (k <= 0) _exit(7);
      at += (size_t)k;
    }
    seen = (size_t)n;
    return r;
  }
};
static std::string where(const std::string &got, const std::string &want) {
  size_t k = 0;
  while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
  const size_t b = k > 30 ? k - 30 : 0;
  return fmt("%zu characters instead of %zu, from %zu on %s instead of %s", got.size(), want.size(), b, show(got.substr(b)).c_str(), show(want.substr(b)).c_str());
}
static u64 any64(Src &s) {
  switch (s.below(4)) {
    case 0: return s.below(200);
    case 1: return 0 - s.below(200);
    case 2: return ((u64)1 << s.below(64)) + s.below(3) - 1;
    default: return s.bits64() >> s.below(64);
  }
}
// Puts one value of some type into o and gives its text.
template <class O>
static std::string put(O &o, Src &s, std::string &note) {
  O *r = 0;
  std::string t;
  switch (s.below(14)) {
    case 0: {
      bool v = s.flip();
      t = v ? "1" : "0", note = "bool ";
      r = &(o << v);
      break;
    }
    case 1: {
      short v = (short)any64(s);
      t = fmt("%d", v), note = "short ";
      r = &(o << v);
      break;
    }
    case 2: {
      unsigned short v = (unsigned short)any64(s);
      t = fmt("%d", v), note = "unsigned short ";
      r = &(o << v);
      break;
    }
    case 3: {
      int v = (int)any64(s);
      t = fmt("%d", v), note = "int ";
      r = &(o << v);
      break;
    }
    case 4: {
      unsigned v = (unsigned)any64(s);
      t = fmt("%u", v), note = "unsigned ";
      r = &(o << v);
      break;
    }
    case 5: {
      long long v = (long long)any64(s);
      t = fmt("%lld", v), note = "long long ";
      r = &(o << v);
      break;
    }
    case 6: {
      unsigned long long v = any64(s);
      t = fmt("%llu", v), note = "unsigned long long ";
      r = &(o << v);
      break;
    }
    case 7: {
      float v = (float)any_double(s);
      const nanostl::string n = nanostl::to_string(v);
      t.assign(n.c_str(), n.size()), note = "float ";
      r = &(o << v);
      break;
    }
    case 8: {
      double v = any_double(s);
      const nanostl::string n = nanostl::to_string(v);
      t.assign(n.c_str(), n.size()), note = "double ";
      r = &(o << v);
      break;
    }
    case 9: {
      // in a block of its own, released at once
      const std::string u = any_string(s, 40, false);
      char *p = (char *)malloc(u.size() + 1);
      memcpy(p, u.c_str(), u.size() + 1);
      t = u, note = "characters ";
      r = &(o << (const char *)p);
      memset(p, 'X', u.size());
      free(p);
      break;
    }
    case 10: {
      t = "nullptr", note = "";
      r = &(o << nullptr);
      break;
    }
    case 11: {
      t = "a % literal %s%d%n\n", note = "";
      r = &(o << "a % literal %s%d%n\n");
      break;
    }
    case 12: {
      t = s.chance(1, 40) ? long_string(s, 8, 15, true) : any_string(s, 60, true);
      note = "string ";
      nanostl::string n(t.data(), t.data() + t.size());
      r = &(o << n);
      n += "changed later";
      break;
    }
    default: {
      t = any_string(s, 20, true), note = "temporary string ";
      r = &(o << nanostl::string(t.data(), t.data() + t.size()));
    }
  }
  note += show(t);
  REQUIRE_MSG(r == &o, "inserting %s does not give the stream itself", note.c_str());
  return t;
}

PROPERTY(histories, 200000, 10000000, "histories over cout and two further streams: each flush writes what was inserted since the last one") {
  LeakCheck l;
  bool local = false;
  size_t op = 0, flushes = 0, mixed = 0;
  {
    Captured c;
    ostream first, second, third;
    const bool global = s.flip();  // cout may hold on to memory from case to case
    s.note(global ? "o0 is cout\n" : "");
    ostream *const o[3] = {global ? &nanostl::cout : &third, &first, &second};
    local = !global;
    std::string m[3];
    std::string want;  // what must have arrived and was not yet looked at
    while (s.more(25)) {
      op++;
      const int a = (int)s.below(3);
      std::string note;
      switch (s.below(10)) {
        case 0:
        case 1: {
          s.note("o%d.flush()\n", a);
          ostream &r = o[a]->flush();
          REQUIRE(&r == o[a]);
          flushes += !m[a].empty();
          mixed += !m[a].empty() && !m[(a + 1) % 3].empty();
          want += m[a];
          m[a].clear();
          if (s.flip()) {
            const std::string got = c.fresh();
            REQUIRE_MSG(got == want, "after the flush of operation %zu arrived %s", op, where(got, want).c_str());
            want.clear();
          }
          break;
        }
        case 2: {
          s.note("o%d << 7 << \" and \" << 2.5 << string << true << -9LL << flush\n", a);
          (*o[a] << 7 << " and " << 2.5 << nanostl::string("s") << true << -9ll).flush() << 3u;
          want += m[a] + "7 and 2.5E0s1-9";
          m[a] = "3";
          flushes++;
          break;
        }
        case 3: {  // written by other means, in between
          s.note("puts\n");
          fputs("[stdio]", stdout);
          want += "[stdio]";
          break;
        }
        default: {
          const std::string t = put(*o[a], s, note);
          s.note("o%d << %s\n", a, note.c_str());
          m[a] += t;
        }
      }
    }
    const std::string got = c.fresh();
    REQUIRE_MSG(got == want, "in the end arrived %s", where(got, want).c_str());
    for (int k = 2; k >= 0; k--) {
      o[k]->flush();
      const std::string g = c.fresh();
      REQUIRE_MSG(g == m[k], "the last flush of stream %d wrote %s", k, where(g, m[k]).c_str());
      o[k]->flush();
      const std::string e = c.fresh();
      REQUIRE_MSG(e.empty(), "flushing stream %d again wrote %s", k, show(e).c_str());
    }
  }
  if (local) l.done();
  if (op >= 4 && flushes > 1 && mixed) s.nontrivial();
}
PROPERTY(single, 200000, 8000000, "one value of any insertable type, then a flush") {
  LeakCheck l;
  {
    std::string note;
    Captured c;
    ostream o;
    std::string t = put(o, s, note);
    s.note("%s\n", note.c_str());
    const std::string early = c.fresh();
    REQUIRE_MSG(early.empty(), "%s was written before the flush", show(early).c_str());
    o.flush();
    const std::string g = c.fresh();
    REQUIRE_MSG(g == t, "wrote %s", where(g, t).c_str());
    if (t.size() > 1) s.nontrivial();
  }
  l.done();
}
