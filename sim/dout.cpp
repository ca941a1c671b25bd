// Engine "dout": threads that write debug output, change formats, switches and destinations; checked against an
// executable reference model of the documented behaviour.
#include "case.h"
#include "world.h"
#include <cerrno>
#include <cstring>
#include <iostream>
#include <algorithm>
#include <deque>
#include <memory>
#include <set>
#include <streambuf>

using namespace app;
using rt::violation;

namespace {

enum : unsigned {
  nonewline_cf = 1, noprefix_cf = 2, nolabel_cf = 4, blank_margin_cf = 8, blank_label_cf = 0x10, blank_marker_cf = 0x20,
  cerr_cf = 0x40, flush_cf = 0x80, wait_cf = 0x100, error_cf = 0x200, b_continued_cf = 0x400, b_expected = 0x800,
  b_fatal = 0x1000, b_core = 0x2000, b_continued = 0x4000, b_finish = 0x8000 };

enum Probe { PR_UNFINISHED, PR_CONTINUED, PR_NONEWLINE, PR_NESTED, PR_NEST3, PR_OFFEXPR, PR_REPLACED, PR_FLUSHED, PR_FATAL2, PR_CERR, PR_OWN_INT,
  PR_TEND_OPEN, PR_LOSSY, PR_CRASH, PR_ERRFATAL, PR_WAIT, PR_LONG, PR_PAD, PR_ORDER, PR_LEARN, PR_EMPTY, PR_TEND_NL, PR_TERMINATED };

enum { PR_DEEP = 70, PR_TOO_DEEP, PR_REPEAT };
constexpr int max_depth = 64;          // statements that may enclose another one
constexpr int CERR = NSTREAM, COUT = NSTREAM + 1, NS = NSTREAM + 2;

void lock_hook(void const* m, int what);

struct World;
World* W;

struct Sink : std::streambuf
{
  int id = 0;
  std::string all;            // everything written
  size_t flushed = 0;
  bool dead = false, lossy = false;
  int uses = 0;
  int overflow(int c) override { if (c == EOF) return 0; char ch = (char)c; return put(&ch, 1) == 1 ? c : EOF; }
  std::streamsize xsputn(char const* s, std::streamsize n) override { return put(s, n); }
  int sync() override;
  std::streamsize put(char const* s, std::streamsize n);
};

struct OS   // the state of one message under construction
{
  unsigned mask; std::string label; int err;
  std::string buf; size_t in = 0, pos = 0;
  bool uap = false, cn = false;   // unfinished already printed, continued needed
};
using OSp = std::shared_ptr<OS>;

struct TO   // per thread, per debug object
{
  int off = 0;
  bool start_expected = true, unfinished_expected = false;
  std::vector<OSp> stack;
  OSp cur;
  int off_count = 0;
  std::vector<int> cont;
  std::string con, coff, margin, marker = ": ";
  std::vector<std::string> margins, markers;
  unsigned short indent = 0;
  size_t mark_floor = 0;           // markers below this belong to Mark objects
};

struct Entry   // something that must be written in one piece
{
  int kind;      // 0: message (part), 1: raw text
  int o; bool cerr;
  OSp os; std::string text, prefix, coff, con;
  bool req_unf = false, flush = false, eol = true, poss = true, restore = false;
  size_t len0 = 0;
};

struct Frame { Op const* op; int o; bool on; bool begun = false, evaluated = false; int locks = 0; int errno_before = 0; OSp os; };

struct Piece { int sink; std::string s; };

struct TM
{
  int id = -1;
  bool initialising = false, init_after = false;    // another call of init_thread returned before the current one started
  std::map<int, int> chan;    // off counter per channel (0 = off, -1 = on)
  TO to[NOBJ];
  std::deque<Entry> q;
  std::vector<Frame> frames;
  std::vector<Piece> cap;
  std::map<int, size_t> last_end;  // per sink: position after this thread's last byte
  int last_sink = -1;
  bool direct = false;
  bool loose = false; std::string loose_text, expect; bool expect_core = true; bool need_text = true;
  std::map<int, size_t> must_flush;   // per sink: flushed up to here when the statement returns
  bool parked = false;
  bool used = false;
  std::string name;
  std::vector<std::vector<std::string>> fmt_scopes;
  uint64_t seq0 = 0;
  bool global_ops = false;
  int tries0 = 0;
  uint64_t os_inv = 0;
  uint64_t reg_seen = 0;
  std::set<int> known;             // channels made during the run that this thread may use
  std::set<std::string> at_pre; uint64_t ver_pre = 0; size_t len_pre = 0;
  bool ended = false, joined = false, open_end = false;
  std::vector<int> spawned;
};

struct Pair { int s; int l; uint64_t inv = 0, ret = ~0ull; };   // stream, lock (-1: none, -2: to be learned)

struct OM
{
  std::vector<Pair> cand;
  char hb = 0;                          // address only
  int always_flush = 0;
  int setting = 0, setting_os = 0;      // pending set_ostream calls (all; without lock)
  int nl_tid = -1; std::string nl_coff; OSp unf;
};

struct World
{
  Case const& c;
  Sink sink[NS];
  std::vector<std::unique_ptr<std::ostream>> os;
  OM om[NOBJ];
  std::vector<std::unique_ptr<TM>> tm;
  std::vector<int> tid_of;     // program -> tid (or -1)
  std::map<std::string, size_t> pad;
  size_t max_len = 8;
  std::map<int, std::string> labels;
  std::set<std::string> pub;   // public labels
  std::vector<std::string> reg_order;      // labels that were registered during the run
  std::set<std::string> registering;
  std::multiset<size_t> reg_len;           // lengths of the labels that are being registered
  std::set<int> init_chan;
  bool init_busy = false, init_done = false, init_first = false, init_named = false;
  int inits = 0, inits_learned = 0;                // calls of init_thread
  std::map<int, bool> rc_on;
  int direct_streams[NS] = {};
  char direct_hb = 0, reg_before = 0, reg_after = 0;      // only their addresses are used (happens-before edges)
  uint64_t reg_version = 0;
  int running = 0;             // threads ever started
  int next_tid = 1;
  std::map<std::pair<void*, size_t>, std::set<std::pair<int, uint64_t>>> left;    // blocks that ended threads left behind, by allocation site and size
  bool any_lossy() const { for (auto& k : sink) if (k.lossy) return true; return false; }
  std::string last_text(TM& t) { return t.loose_text; }
  void const* lock_addr[NLOCK + 8] = {};
  int nlock = NLOCK;
  int direct_users[NLOCK + 8] = {};
  int stmts = 0;               // statements in progress
  int gate = 0;
  bool lock_error = false;     // a thread wrote to a stream that has no lock
  bool any_loose = false;      // some thread reports a program error: what it writes is not modelled
  bool terminated = false; std::string term_kind; int term_tid = -1;
  uint64_t clock = 0;
  std::streambuf *save_cerr = nullptr, *save_cout = nullptr;
  std::string errlines;
  explicit World(Case const& k) : c(k) { }

  TM& me() { return *tm[rt::tid()]; }
  TM& thread(int t) { while ((int)tm.size() <= t) { tm.emplace_back(new TM); tm.back()->id = (int)tm.size() - 1; } return *tm[t]; }
  std::string padded(std::string const& l) { std::string r = l; r.resize(max_len, ' '); return r; }
  // Public labels in the order in which they are iterated over.
  std::vector<std::string> order(std::set<std::string> const& l, size_t width) const
  {
    std::vector<std::string> r(l.begin(), l.end());
    std::sort(r.begin(), r.end(), [&](std::string const& a, std::string const& b) { std::string x = a, y = b; x.resize(width, ' '); y.resize(width, ' '); return x < y; });
    return r;
  }
  std::vector<std::string> order() const { return order(pub, max_len); }
  int by_label(std::string const& l) const { for (auto& kv : labels) if (kv.second == l && pub.count(l)) return kv.first; return -1; }
  int lock_index(void const* m) { for (int i = 0; i < nlock; ++i) if (lock_addr[i] == m) return i; return -1; }

  // --- bytes ------------------------------------------------------------------------------------------------
  [[noreturn]] void fail(std::string const& cls, std::string const& msg);

  std::string bytes(TM& t, Entry const& e)
  {
    if (e.kind == 1) return e.text;
    OM& m = om[e.o];
    std::string r;
    if (m.nl_tid != -1 && m.nl_tid != t.id)
    {
      r += m.nl_coff;
      if (m.unf) { if (m.unf != e.os) r += "<unfinished>\n"; }
      else r += "<no newline>\n";
    }
    bool uap = e.os->uap;
    if (e.os->cn && !e.text.empty())
    {
      r += e.prefix + e.coff + "<continued>";
      r += e.con.empty() ? " " : e.con + " ";
      uap = false;
    }
    r += e.text;
    if (e.req_unf && !uap) r += e.coff + "<unfinished>\n";
    return r;
  }
  void apply(TM& t, Entry const& e)
  {
    if (e.kind == 1) return;
    OM& m = om[e.o];
    if (m.nl_tid != -1 && m.nl_tid != t.id)
    {
      if (m.unf && m.unf != e.os) { m.unf->uap = true; m.unf->cn = true; rt::probe(PR_UNFINISHED); }
      else if (!m.unf) rt::probe(PR_NONEWLINE);
    }
    if (e.os->cn && !e.text.empty()) { e.os->cn = false; e.os->uap = false; rt::probe(PR_CONTINUED); }
    e.os->uap = e.eol;
    if (e.eol) { m.nl_tid = -1; m.unf = nullptr; }
    else if (!e.text.empty()) { m.nl_tid = t.id; m.nl_coff = e.coff; m.unf = e.poss ? nullptr : e.os; }
    else if (e.poss && m.unf == e.os) m.unf = nullptr;   // that message is complete
    if (e.restore) { e.os->cn = false; e.os->uap = false; }
  }

  // A piece of text was written by thread t, in one critical section of lock l (or without lock, l == -1).
  void match(TM& t, int l, bool section)
  {
    if (t.loose)
    {
      for (auto& p : t.cap) t.loose_text += p.s;
      if (!t.cap.empty())
      {
        OM& m = om[0];
        if (m.nl_tid != -1 && m.nl_tid != t.id && m.unf) { m.unf->uap = m.unf->cn = true; }
        m.nl_tid = -1; m.unf = nullptr;
      }
      t.cap.clear();
      return;
    }
    bool first = true;
    size_t ip = 0, off = 0;
    while (!t.q.empty())
    {
      bool left = ip < t.cap.size();
      if (!left && !first) break;
      Entry& e = t.q.front();
      std::string b = bytes(t, e);
      bool lossy = any_loose;
      if (e.cerr) lossy |= sink[CERR].lossy;
      else for (auto& p : om[e.o].cand) lossy |= sink[p.s].lossy;
      if (lossy)
      {
        rt::probe(PR_LOSSY);
        t.cap.clear(); ip = 0; left = false;
        apply(t, e); t.q.pop_front();
        if (section) break;
        continue;
      }
      if (!left && !b.empty()) break;       // nothing was written in this section
      size_t bi = 0;
      int sk = -1;
      while (bi < b.size())
      {
        if (ip >= t.cap.size()) fail("missing-output", "expected " + show(b) + "; got only " + show(b.substr(0, bi)));
        Piece& p = t.cap[ip];
        bool ok = e.cerr && p.sink == CERR;
        if (!e.cerr) for (auto& c2 : om[e.o].cand) if (c2.s == p.sink && (!section || c2.l == l)) ok = true;
        if (!ok) fail("wrong-stream", "text " + show(p.s) + " written to stream " + std::to_string(p.sink) + (section ? " under lock " + std::to_string(l) : "") + " but expected " + show(b) + " on the stream of object " + std::to_string(e.o));
        if (bi > 0 && off == 0 && ip > 0 && t.cap[ip - 1].sink != p.sink) fail("wrong-stream", "one message part went to two streams: " + show(b));
        size_t n = std::min(b.size() - bi, p.s.size() - off);
        if (b.compare(bi, n, p.s, off, n) != 0)
        {
          std::string got;
          for (size_t k = ip; k < t.cap.size(); ++k) got += k == ip ? t.cap[k].s.substr(off) : t.cap[k].s;
          fail("wrong-output", "expected " + show(b) + " got " + show(b.substr(0, bi) + got));
        }
        sk = p.sink;
        bi += n; off += n;
        if (off == p.s.size()) { ++ip; off = 0; }
      }
      rt::note("out T%d o%d %s", t.id, e.o, show(b).c_str());
      if (e.flush && sk >= 0) t.must_flush[sk] = t.last_end[sk];
      apply(t, e);
      t.q.pop_front();
      first = false;
      while (ip < t.cap.size() && t.cap[ip].s.empty()) ++ip;
    }
    if (ip < t.cap.size())
    {
      std::string got;
      for (size_t k = ip; k < t.cap.size(); ++k) got += k == ip ? t.cap[k].s.substr(off) : t.cap[k].s;
      bool lossy = any_loose || sink[t.cap[ip].sink].lossy;
      if (!lossy) fail("extra-output", "unexpected text " + show(got));
    }
    t.cap.clear();
  }
  static std::string show(std::string const& s)
  {
    std::string r = "\"";
    for (unsigned char c : s) { if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += (char)c; }
    if (r.size() > 700) r = r.substr(0, 350) + "..." + r.substr(r.size() - 350);
    return r + "\"";
  }

  void check_flushed(TM& t, char const* cls, char const* when)
  {
    for (auto& kv : t.must_flush)
    {
      rt::probe(PR_FLUSHED);
      Sink& s = sink[kv.first];
      if (!s.lossy && !s.dead && s.flushed < kv.second)
        fail(cls, std::string(when) + " but " + show(s.all.substr(s.flushed, kv.second - s.flushed)) + " was not flushed to the device");
    }
    t.must_flush.clear();
  }
  // Do all objects in use have the same lock?
  bool one_lock() { int l = -3; for (auto& m : om) for (auto& p : m.cand) { if (p.l == -1 && p.s == CERR) continue; if (l != -3 && p.l != l) return false; l = p.l; } return l >= 0; }
  // Programs with threads must have set a lock before they write anything.
  bool lock_missing(int o) { return running && (unlocked(o) || unlocked(0) || (init_busy && !init_done)); }
  bool unlocked(int o) { return om[o].cand.size() == 1 && om[o].cand[0].l == -1; }

  // --- sinks ------------------------------------------------------------------------------------------------
  void check_access(int s, char const* what)
  {
    TM& t = me();
    Sink& k = sink[s];
    if (k.dead) fail("dead-stream", std::string(what) + " of a stream after set_ostream returned for its replacement");
    if (s == CERR && rt::tid() >= 0)
    {
      // cerr_cf output, or a debug object that writes to cerr.
      bool used = false;
      for (auto& m : om) for (auto& p : m.cand) if (p.s == CERR) used = true;
      if (!used) return;
    }
    bool any = false, ok = false, nolock = false;
    for (auto& m : om)
      for (auto& p : m.cand)
      {
        bool mine = p.s == s || s == CERR;
        if (!mine) continue;
        any = true;
        if (p.l == -1) nolock = true;
        if (p.l == -2)
        {
          void const* h = rt::innermost_mutex(t.id);
          if (h)
          {
            int i = lock_index(h);
            if (i < 0) { i = nlock++; lock_addr[i] = h; rt::watch_lock(h, true); rt::probe(PR_LEARN); }
            for (auto& m2 : om) for (auto& q : m2.cand) if (q.l == -2) q.l = i;
          }
        }
        if (p.l >= 0 && rt::mutex_owner(lock_addr[p.l]) == t.id) ok = true;
      }
    if (t.direct) return;
    // The report of a program error gives up on the lock after a while.
    if (t.loose && rt::failed_tries(t.id) - t.tries0 >= 10) return;
    if (any && !ok && !nolock) fail("unlocked-access", std::string(what) + " of stream " + std::to_string(s) + " by a thread that does not hold its lock");
  }

  // --- model of a statement ---------------------------------------------------------------------------------
  void enqueue(TM& t, int o, OSp os, unsigned tmask, bool req_unf, bool flush, bool eol, bool poss)
  {
    Entry e;
    e.kind = 0; e.o = o; e.cerr = tmask & cerr_cf; e.os = os; e.text = os->buf.substr(os->in); os->in = os->buf.size();
    e.prefix = os->buf.substr(0, os->pos); e.coff = t.to[o].coff; e.con = t.to[o].con;
    e.req_unf = req_unf; e.flush = flush; e.eol = eol; e.poss = poss;
    if (e.cerr) rt::probe(PR_CERR);
    if (e.text.size() > 512) rt::probe(PR_LONG);
    t.q.push_back(e);
  }
  void start(TM& t, int o, unsigned mask, std::string const& label, int err)
  {
    TO& d = t.to[o];
    if (mask & (b_continued | b_finish))
    {
      d.cur->err = err;
      d.cur->mask = mask;
      if (mask & b_finish) d.cur->mask &= ~b_expected;
      return;
    }
    if (d.cur && (d.cur->mask & b_continued_cf) && d.unfinished_expected)
    {
      rt::probe(PR_OWN_INT);
      enqueue(t, o, d.cur, d.cur->mask, true, false, true, false);
      t.q.back().restore = true;
      d.cur->buf.resize(d.cur->pos);
      d.cur->in = 0;
      d.cur->buf += d.coff + "<continued>" + (d.con.empty() ? " " : d.con + " ");
    }
    if (!d.start_expected)
    {
      d.stack.push_back(d.cur);
      d.indent += 4;
      mask |= d.cur->mask & cerr_cf;
    }
    d.cur = std::make_shared<OS>();
    OS& s = *d.cur;
    s.mask = mask; s.label = label; s.err = err;
    d.start_expected = false;
    d.unfinished_expected = true;
    s.buf += d.con;
    if (!(mask & noprefix_cf))
    {
      s.buf += (mask & blank_margin_cf) ? std::string(d.margin.size(), ' ') : d.margin;
      if (!(mask & nolabel_cf))
      {
        s.buf += (mask & blank_label_cf) ? std::string(max_len, ' ') : label;
        s.buf += (mask & blank_marker_cf) ? std::string(d.marker.size(), ' ') : d.marker;
        s.buf += std::string(d.indent, ' ');
      }
    }
    if (mask & b_continued_cf) s.pos = s.buf.size();
  }
  void finish(TM& t, int o)
  {
    TO& d = t.to[o];
    OSp c2 = d.cur;
    bool af = om[o].always_flush > 0;
    if ((c2->mask & b_continued_cf) && !(c2->mask & b_finish))
    {
      c2->mask |= b_expected;
      d.unfinished_expected = true;
      if (af || (c2->mask & flush_cf)) enqueue(t, o, c2, c2->mask, false, true, false, false);
      return;
    }
    if (c2->mask & error_cf)
    {
      char b[512];
      c2->buf += std::string(": ") + strerrorname_np(c2->err) + " (" + strerror_r(c2->err, b, sizeof b) + ")";
    }
    bool eol = !(c2->mask & nonewline_cf);
    if (eol) c2->buf += d.coff + "\n";
    if (c2->mask & (b_core | b_fatal)) { enqueue(t, o, c2, c2->mask, false, true, eol, true); return; }
    if (c2->mask & wait_cf)
    {
      enqueue(t, o, c2, c2->mask, false, true, eol, true);
      Entry e;
      e.kind = 1; e.o = o; e.cerr = c2->mask & cerr_cf; e.text = "(type return)"; e.flush = true;
      t.q.push_back(e);
      rt::probe(PR_WAIT);
    }
    else enqueue(t, o, c2, c2->mask, false, af || (c2->mask & flush_cf), eol, true);
    if (d.start_expected) { d.indent -= 4; d.stack.pop_back(); }
    if (!d.stack.empty())
    {
      OSp old = d.cur;
      d.cur = d.stack.back();
      if (af || (old->mask & flush_cf)) d.cur->mask |= flush_cf;
    }
    else d.cur = nullptr;
    d.start_expected = true;
    d.unfinished_expected = false;
  }
  bool chan_on(TM& t, int ch) { auto i = t.chan.find(ch); return i != t.chan.end() && i->second == -1; }
  std::string label_of(int ch) { return padded(labels[ch]); }
};

[[noreturn]] void World::fail(std::string const& cls, std::string const& msg)
{
  std::string m = msg + "\n  thread T" + std::to_string(rt::tid());
  if (rt::tid() >= 0 && rt::tid() < (int)tm.size())
    for (auto& f : me().frames) m += std::string("\n  in ") + code_names[f.op->code] + " channel " + std::to_string(f.op->a[1]) + " flags " + std::to_string(f.op->a[2]);
  violation(cls, m);
}

// ----------------------------------------------------------------------------------------------------------------
void check_crash(World& w)
{
  rt::probe(PR_CRASH);
  (void)w;
  // Everything promised was compared with what reached the device when the promise was made.
  rt::finish_ok();
}

std::streamsize Sink::put(char const* s, std::streamsize n)
{
  if (!rt::active || rt::tid() < 0) return n;
  rt::point(rt::P_IO);
  rt::InRt g;
  W->check_access(id, "write");
  bool const unlocked = W->me().loose;     // the report of a program error may give up on the lock
  if ((unlocked ? 0 : uses++) && (id != CERR || W->one_lock())) W->fail("concurrent-stream", "two threads are inside a write of stream " + std::to_string(id));
  long v;
  if ((v = rt::fault(rt::F_CRASH)) >= 0) check_crash(*W);
  if ((v = rt::fault(rt::F_SINK_STALL)) >= 0) { rt::sleep_ns(1000000ull * (1 + v)); }
  else rt::point(rt::P_IO);
  if (rt::fault(rt::F_SINK_ERRNO) >= 0) errno = EAGAIN;
  std::streamsize r = n;
  if (rt::fault(rt::F_SINK_FAIL) >= 0) { lossy = true; errno = ENOSPC; r = n / 2; }
  bool thr = false;
  if (rt::fault(rt::F_SINK_THROW) >= 0) { lossy = true; thr = true; r = 0; }
  if (r)
  {
    all.append(s, (size_t)r);
    TM& t = W->me();
    if (!t.cap.empty() && t.cap.back().sink == id) t.cap.back().s.append(s, (size_t)r); else t.cap.push_back({id, std::string(s, (size_t)r)});
    t.last_end[id] = all.size(); t.last_sink = id;
  }
  if (!unlocked) --uses;
  if (thr) throw std::ios_base::failure("simulated");
  return r;
}
int Sink::sync()
{
  if (!rt::active || rt::tid() < 0) return 0;
  rt::point(rt::P_IO);
  rt::InRt g;
  W->check_access(id, "flush");
  long v;
  if ((v = rt::fault(rt::F_CRASH)) >= 0) check_crash(*W);
  if ((v = rt::fault(rt::F_SINK_STALL)) >= 0) { ++uses; rt::sleep_ns(1000000ull * (1 + v)); --uses; }
  if (rt::fault(rt::F_SINK_ERRNO) >= 0) errno = EIO;
  if (rt::fault(rt::F_SINK_FAIL) >= 0) { lossy = true; errno = EIO; return -1; }
  flushed = all.size();
  rt::note("flush %d %zu", id, flushed);
  return 0;
}

void lock_hook(void const* m, int what)
{
  int l = W->lock_index(m);
  if (l < 0) return;
  TM& t = W->me();
  if (what == 0) return;
  if (t.direct) { t.direct = false; t.cap.clear(); return; }
  W->match(t, l, true);
}

// ----------------------------------------------------------------------------------------------------------------
struct DHooks : Hooks
{
  World& w;
  explicit DHooks(World& x) : w(x) { }

  TM& T() { return w.me(); }

  // After a registration everything that the registering thread did is known to the other threads (the program's own
  // synchronisation: registration is not promised to be concurrent with output).
  void sync_reg(TM& t)
  {
    if (t.reg_seen != w.reg_version) { t.reg_seen = w.reg_version; rt::hb_acquire(&w.reg_after); }
  }
  bool usable(TM& t, int ch, int code)
  {
    if (ch < 100) return true;
    if (code != S_DOUT && code != S_CONT_START && code != S_ENTERING && code != C_ON && code != C_OFF && code != C_FORCE && code != C_STATE) return true;
    return t.known.count(ch);
  }
  void expect_fatal(TM& t, std::string const& text, bool core = true)
  {
    w.any_loose = true;
    t.tries0 = rt::failed_tries(t.id);
    t.loose = true; t.expect = text; t.expect_core = core; t.need_text = !text.empty();
    rt::set_races(false);
    rt::probe(PR_ERRFATAL);
  }

  bool stmt_begin(Op const& op) override
  {
    rt::InRt g;
    TM& t = T();
    int o = (int)op.a[0];
    while (w.gate && t.frames.empty()) rt::sleep_ns(40000);
    sync_reg(t);
    if (!usable(t, (int)op.a[1], op.code) || (op.a[5] > 0 && !usable(t, (int)op.a[5] - 1, op.code))) return false;
    TO& d = t.to[o];
    if (w.lock_error && op.code == T_INIT) return false;
    if (op.code == S_DOUT && op.a[4] == 2)
    {
      // Output by a second thread to a stream for which there is no lock.
      if (t.id == 0 || w.lock_error || w.terminated || !w.unlocked(o) || w.om[o].setting || w.init_busy || w.init_done || !t.frames.empty() || !t.q.empty() || d.off >= 0 || !w.chan_on(t, (int)op.a[1]) || d.cur) return false;
      w.lock_error = true;
      Frame f{&op, o, false};
      f.locks = rt::locks_held(t.id);
      t.frames.push_back(f);
      rt::note("output without lock");
      expect_fatal(t, "you must provide a locking mechanism");
      return true;
    }
    if (op.code == T_INIT)
    {
      t.init_after = w.init_done;
      t.initialising = true;
      w.init_busy = !w.init_done;
      w.init_named |= !op.s.empty();
      ++w.inits;
    }
    else if (w.lock_missing(o)) return false;
    bool on = false, obj_on = d.off < 0;
    // Would this be an error of the program? Then it is only done when the case says so.
    bool err = false;
    if (op.code == S_CONT || op.code == S_FINISH)
    {
      if (obj_on)
      {
        if (d.off_count == 0)
        {
          if (op.code == S_FINISH && d.cont.empty()) err = true;
          if (!d.cur || !(d.cur->mask & b_expected)) err = true;
        }
      }
      else if (op.a[4]) return false;
    }
    // The open message cannot be continued from within the statement that is writing it.
    if ((op.code == S_CONT || op.code == S_FINISH) && obj_on && d.off_count == 0)
      for (auto& f : t.frames) if (f.on && !f.evaluated && f.o == o && f.os && f.os == d.cur) return false;
    if (err && !op.a[4]) return false;
    if (!err && op.a[4]) return false;
    if (op.code == S_CONT_START || op.code == S_DOUT || op.code == S_ENTERING) { }
    bool deeper = (op.code == S_CONT || op.code == S_FINISH) ? false : obj_on && !d.start_expected && d.stack.size() >= (size_t)max_depth;
    if (op.code == S_CONT_START && obj_on && d.cont.size() >= (size_t)max_depth) deeper = true;
    if (deeper)
    {
      // The library gives up on nesting that looks endless; whether this statement is on does not matter when it is not tried.
      if (op.code != S_DOUT && op.code != S_CONT_START) return false;
      if (!w.c.num("deep") || err || !w.chan_on(t, (int)op.a[1])) return false;
      Frame f{&op, o, false};
      f.locks = rt::locks_held(t.id);
      t.frames.push_back(f);
      rt::note("too deep");
      rt::probe(PR_TOO_DEEP);
      expect_fatal(t, "");
      return true;
    }
    if (d.stack.size() > 32) rt::probe(PR_DEEP);
    w.stmts += t.frames.empty();
    Frame f{&op, o, false};
    f.locks = rt::locks_held(t.id);
    f.errno_before = (int)op.a[3];
    rt::note("stmt %s o%d c%ld f%ld", code_names[op.code], o, op.a[1], op.a[2]);
    if (err)
    {
      t.frames.push_back(f);
      expect_fatal(t, op.code == S_FINISH && d.cont.empty() ? "dc::finish" : "continued_cf");
      return true;
    }
    unsigned mask = 0;
    std::string label;
    switch (op.code)
    {
      case S_DOUT: case S_CONT_START: case S_ENTERING:
        if (obj_on)
        {
          on = w.chan_on(t, (int)op.a[1]);
          label = w.label_of((int)op.a[1]);
          if (!on && op.a[5] > 0) { on = w.chan_on(t, (int)op.a[5] - 1); label = w.label_of((int)op.a[5] - 1); }
          mask = (unsigned)op.a[2];
          if (op.code == S_CONT_START)
          {
            mask |= b_continued_cf;
            if (!on) ++d.off_count;
            else { d.cont.push_back(d.off_count); d.off_count = 0; }
          }
        }
        break;
      case S_ALWAYS: on = obj_on; mask = (unsigned)op.a[2]; label = std::string(w.max_len, '>'); break;
      case S_CONT: case S_FINISH:
        if (obj_on)
        {
          on = d.off_count == 0;
          unsigned bit = op.code == S_CONT ? b_continued : b_finish;
          if (on)
          {
            d.cur->mask |= bit;
            mask = d.cur->mask | (unsigned)op.a[2];
            if (op.code == S_FINISH) { d.off_count = d.cont.back(); d.cont.pop_back(); }
          }
          else if (op.code == S_FINISH) --d.off_count;
        }
        break;
      case S_FATAL: on = true; mask = (unsigned)op.a[2] | (op.a[1] ? b_core : b_fatal); label = w.padded(op.a[1] ? "COREDUMP" : "FATAL"); break;
      case R_LIST: on = false; break;
      case T_INIT: on = false; break;
    }
    f.on = on;
    if (on)
    {
      if (!t.frames.empty()) { rt::probe(PR_NESTED); if (t.frames.size() >= 2) rt::probe(PR_NEST3); }
      w.start(t, o, mask, label, (int)op.a[3]);
      f.os = d.cur;
    }
    else if (op.code == R_LIST)
    {
      if (obj_on)
        for (auto& l : w.order())
        {
          int ch = w.by_label(l);
          TO& dd = t.to[o];
          w.start(t, o, noprefix_cf, "", 0);
          dd.cur->buf += dd.margin + w.padded(l) + ((ch >= 0 && w.chan_on(t, ch)) ? ": Enabled" : ": Disabled");
          w.finish(t, o);
        }
    }
    else if (op.code == T_INIT) init_thread(t, op);
    t.frames.push_back(f);
    return true;
  }

  void init_thread(TM& t, Op const& op)
  {
    // a[1]: 0 default (from_rcfile), 1 from_rcfile, 2 copy_from_main, 3 debug_off
    int mode = (int)op.a[1];
    if (mode == 0) mode = 1;
    TM& m = w.thread(0);
    if (mode == 1) { for (auto& kv : w.rc_on) if (kv.second && !w.chan_on(t, kv.first)) t.chan[kv.first] -= 1; }
    else if (mode == 2)
    {
      for (auto& kv : w.labels) if (w.pub.count(kv.second) && !w.chan_on(t, kv.first) && w.chan_on(m, kv.first)) t.chan[kv.first] -= 1;
      if (m.to[0].off >= 0) mode = 3;
    }
    if (mode != 3) --t.to[0].off;
    // the lock on the stream
    bool none = true;
    for (auto& p : w.om[0].cand) if (p.l != -1) none = false;
    if (none) for (auto& p : w.om[0].cand) p.l = -2;
    if (!op.s.empty())
    {
      std::string mg = op.s.substr(0, 15);
      mg.resize(16, ' ');
      t.to[0].margin = mg;
      if (t.to[0].off < 0 && w.chan_on(t, 0))
      {
        w.start(t, 0, 0, w.label_of(0), 0);
        t.to[0].cur->buf += "Thread started. Set debug margin to \"" + mg + "\".";
        w.finish(t, 0);
      }
    }
    // Otherwise it depends on whether this is the first one, see learned().
  }
  void learned(Op const& op, std::string const& margin) override
  {
    rt::InRt g;
    TM& t = T();
    if (!t.initialising) return;
    t.initialising = false;
    ++w.inits_learned;
    if (!op.s.empty() || t.loose || w.lock_error) return;
    char b[32];
    snprintf(b, sizeof b, "%12lx ", (unsigned long)pthread_self());
    bool first = margin != b;
    if (first && margin != t.to[0].margin) w.fail("margin", std::string("init_thread set the margin to ") + "\"" + margin + "\"");
    // Only the very first one gets no thread id in its margin.
    if (first && (t.init_after || w.init_first)) w.fail("margin", "init_thread did not set the margin of a thread that is not the first one");
    if (!first && w.inits == 1) w.fail("margin", "init_thread set the margin of the first thread");
    if (first) w.init_first = true;
    else t.to[0].margin = b;
    if (!w.init_first && !w.init_named && w.inits_learned == w.inits) w.fail("margin", "init_thread set the margin of every thread");
  }

  void body_begin(Op const& op) override
  {
    rt::InRt g;
    TM& t = T();
    if (op.code == OS_DIRECT) { t.direct = true; return; }
    Frame& f = t.frames.back();
    if (t.loose) return;
    if (!f.on) { rt::probe(PR_OFFEXPR); w.fail("evaluated-off", "the output expression of a statement that is off was evaluated"); }
    if (f.begun) w.fail("evaluated-twice", "the output expression was evaluated twice");
    f.begun = true;
    if (f.op->code == S_ENTERING) f.os->buf += "Entering ";
  }
  std::string item(Op const& s) override
  {
    rt::InRt g;
    TM& t = T();
    if (t.loose) return s.s;
    Frame& f = t.frames.back();
    std::string& b = f.os->buf;
    char x[64];
    switch (s.code)
    {
      case I_TEXT: { std::string r = s.s; if (s.a[0] > 0) r.resize(std::max<size_t>(r.size(), (size_t)s.a[0]), '='); b += r; return r; }
      case I_NUM: snprintf(x, sizeof x, "%ld", s.a[0]); b += x; break;
      case I_HEX: snprintf(x, sizeof x, "%lx", s.a[0]); b += x; break;
      case I_BOOL: b += s.a[0] ? "true" : "false"; break;
      case I_WIDTH: { std::string r = std::to_string(s.a[0]); if ((long)r.size() < s.a[1]) r = std::string((size_t)(s.a[1] - (long)r.size()), '.') + r; b += r; break; }
    }
    return "";
  }
  void body_end(Op const& op) override
  {
    rt::InRt g;
    TM& t = T();
    if (op.code == OS_DIRECT || t.loose) return;
    Frame& f = t.frames.back();
    f.evaluated = true;
    OSp const& cur = t.to[f.o].cur;
    if (op.code == S_FATAL && (cur->mask & b_continued_cf) && !(cur->mask & b_finish))
    {
      // A continued message was started, but not finished, in the expression of a fatal statement.
      w.finish(t, f.o);
      expect_fatal(t, "continued_cf");
      return;
    }
    w.finish(t, f.o);
    if (op.code == S_FATAL) { t.expect = "!"; t.expect_core = op.a[1]; t.need_text = false; }
  }
  static long times(Op const& op) { return op.a[3] > 1 ? op.a[3] : 1; }
  void drain(TM& t)
  {
    // Output of an object without lock has no sections.
    if (!t.cap.empty()) w.match(t, -1, false);
    while (!t.q.empty())
    {
      Entry& e = t.q.front();
      std::string b = w.bytes(t, e);
      bool lossy = w.any_loose;
      if (e.cerr) lossy |= w.sink[CERR].lossy; else for (auto& p : w.om[e.o].cand) lossy |= w.sink[p.s].lossy;
      if (!b.empty() && !lossy) w.fail("missing-output", "the statement returned but " + World::show(b) + " was not written");
      w.apply(t, e);
      t.q.pop_front();
    }
  }
  void stmt_end(Op const& op, bool evaluated) override
  {
    int er = errno;
    rt::InRt g;
    TM& t = T();
    Frame f = t.frames.back();
    if (op.code == S_FATAL) w.fail("fatal-returned", "a fatal statement returned");
    if (t.loose) w.fail("error-ignored", "a statement that should have been reported as a fatal error returned; expected a message with '" + t.expect + "'");
    if (op.code != R_LIST && op.code != T_INIT && f.on != evaluated)
      w.fail("not-delivered", f.on ? "a statement that is on was not executed" : "a statement that is off was executed");
    drain(t);
    if (op.code == T_INIT) { w.init_done = true; w.init_busy = false; }
    if (op.code != R_LIST && op.code != T_INIT && !f.on && er != f.errno_before)
      w.fail("errno-changed", "a statement that is off changed errno from " + std::to_string(f.errno_before) + " to " + std::to_string(er));
    if (rt::locks_held(t.id) != f.locks) w.fail("lock-kept", "the statement returned while holding" + rt::locks_held_str(t.id));
    t.frames.pop_back();
    if (t.frames.empty()) { --w.stmts; if (w.c.num("registers")) rt::hb_release(&w.reg_before); }
    w.check_flushed(t, "not-flushed", "the statement returned");
  }

  // Other operations
  bool pre(Op const& op) override
  {
    rt::InRt g;
    TM& t = T();
    TO& d = t.to[op.a[0] >= 0 && op.a[0] < NOBJ ? op.a[0] : 0];
    rt::note("op %s %ld %ld %ld", code_names[op.code], op.a[0], op.a[1], op.a[2]);
    bool err = false;
    std::string exp;
    if (!usable(t, (int)op.a[1], op.code)) return false;
    if (op.a[4] && w.lock_missing(0)) return false;
    switch (op.code)
    {
      case T_CORE:
        if (!t.frames.empty() || t.loose) return false;
        t.expect = "!"; t.expect_core = true; t.need_text = false;
        break;
      case R_FIND: case R_CHANS: t.at_pre = w.pub; t.ver_pre = w.reg_version; t.len_pre = w.max_len; break;
      case C_ON: if (op.a[3] > 1 && t.chan[(int)op.a[1]] < op.a[3] - 1) return false; err = w.chan_on(t, (int)op.a[1]); exp = "more often than"; break;
      case M_POP: err = d.margins.empty(); exp = "pop_margin"; break;
      case K_POP: err = d.markers.empty(); exp = "pop_marker"; if (d.mark_floor && d.markers.size() <= d.mark_floor) return false; break;
      case IND_SET: if (!t.frames.empty()) return false; break;
      case O_OFF: if (op.a[4] == 0 && d.off > 200000) return false; break;
      case O_ON: if (d.off < -200000) return false; break;
      case OS_SET: case OS_SET_LOCK: return !w.lock_error && pre_os(t, op);
      case OS_DIRECT:
      {
        bool ok = false;
        for (auto& m : w.om) for (auto& p : m.cand) if (p.s == op.a[1] && p.l == op.a[2] && m.cand.size() == 1) ok = true;
        if (!ok || w.sink[op.a[1]].dead || !t.frames.empty() || w.direct_users[op.a[2]] < 0) return false;
        ++w.direct_users[op.a[2]];
        ++w.direct_streams[op.a[1]];
        return true;
      }
      case FLUSH_ON: case FLUSH_OFF: case R_REG:
        // The values these operations change have no ordering with respect to running statements; keep them apart.
        if (op.code == R_REG && op.s.size() > 16 && op.a[4]) { err = true; exp = "strlen(\"" + op.s + "\") > 16"; break; }
        if (!t.frames.empty() || w.gate || w.terminated) return false;
        if (op.code == FLUSH_OFF && w.om[op.a[0]].always_flush <= 0) return false;
        if (op.code == R_REG)
        {
          if (w.labels.count((int)op.a[0] + 100) || op.s.empty() || op.s.size() > 16) return false;
          for (auto& kv : w.labels) if (kv.second == op.s) return false;
        }
        ++w.gate;
        while (w.stmts > 0 && !w.terminated) rt::sleep_ns(40000);
        if (w.terminated) { --w.gate; return false; }
        if (op.code == R_REG) { if (op.a[1] == 0) w.registering.insert(op.s); w.reg_len.insert(op.s.size()); ++w.reg_version; }
        rt::hb_acquire(&w.reg_before);
        return true;
      case IND_DEC: if (!t.frames.empty() || d.indent < op.a[1]) return false; break;
      default: break;
    }
    if (err != (op.a[4] != 0)) return false;
    if (err) expect_fatal(t, exp);
    return true;
  }
  bool pre_os(TM& t, Op const& op)
  {
    OM& m = w.om[op.a[0]];
    int s = (int)op.a[1], l = (int)op.a[2];
    if (s < 0 || s >= NS || w.sink[s].dead) return false;
    if (!t.frames.empty()) return false;
    if (op.code == OS_SET_LOCK && w.direct_users[l] < 0) return false;
    for (int i = 0; i < NOBJ; ++i)
      for (auto& p : w.om[i].cand)
        if (op.code == OS_SET_LOCK && p.s == s && p.l != l && (i != op.a[0])) return false;  // same stream, other lock
    // A stream must always be used with one and the same lock.
    if (op.code == OS_SET_LOCK) for (auto& p : m.cand) if (p.s == s && p.l != l && p.l != -1) return false;
    if (op.code == OS_SET) for (auto& mm : w.om) for (auto& p : mm.cand) if (p.s == s) for (auto& q : m.cand) if (q.l != p.l) return false;
    if (op.code == OS_SET && w.running)
    {
      // This writes a warning; it is only about streams that have no lock.
      if (w.lock_missing((int)op.a[0]) || (w.chan_on(t, 2) && t.to[0].off < 0)) return false;
    }
    // A call without lock keeps the current lock; which one that is, is only defined when no other call is pending.
    if (op.code == OS_SET ? m.setting : m.setting_os) return false;
    if (op.code == OS_SET && m.cand.size() != 1) return false;
    ++m.setting;
    if (op.code == OS_SET) ++m.setting_os;
    t.global_ops = true;
    uint64_t now = t.os_inv = ++w.clock;
    if (op.code == OS_SET_LOCK) m.cand.push_back({s, l, now, ~0ull});
    else
    {
      auto c2 = m.cand;
      for (auto& p : c2) m.cand.push_back({s, p.l, now, ~0ull});
    }
    rt::probe(PR_REPLACED);
    return true;
  }
  void post_os(TM& t, Op const& op)
  {
    OM& m = w.om[op.a[0]];
    uint64_t inv = t.os_inv;
    --m.setting;
    if (op.code == OS_SET) --m.setting_os;
    rt::hb_release(&m.hb);
    uint64_t now = ++w.clock;
    std::vector<Pair> keep, gone;
    for (auto& p : m.cand)
    {
      if (p.inv == inv) { p.ret = now; keep.push_back(p); }
      else if (p.ret < inv) gone.push_back(p);
      else keep.push_back(p);
    }
    m.cand = keep;
    for (auto& p : gone)
    {
      bool s_used = false, l_used = false;
      for (auto& mm : w.om) for (auto& q : mm.cand) { s_used |= q.s == p.s; l_used |= q.l == p.l; }
      if (!s_used && p.s < NSTREAM && !w.direct_streams[p.s]) w.sink[p.s].dead = true;
      // The application knows that all those calls returned.
      for (auto& mm : w.om) rt::hb_acquire(&mm.hb);
      rt::hb_acquire(&w.direct_hb);
      if (!l_used && p.l >= 0 && p.l < NLOCK && w.direct_users[p.l] == 0)
      {
        w.direct_users[p.l] = -1;
        if (w.c.num("destroy", 1)) { rt::OutRt og; sut.lock_destroy(p.l); }
      }
    }
  }
  void post(Op const& op, long r, std::string const& text) override
  {
    rt::InRt g;
    TM& t = T();
    TO& d = t.to[op.a[0] >= 0 && op.a[0] < NOBJ ? op.a[0] : 0];
    if (t.loose) w.fail("error-ignored", std::string(code_names[op.code]) + " should have been reported as a fatal error with '" + t.expect + "'");
    int const held = rt::locks_held(t.id);
    if (held && t.frames.empty()) w.fail("lock-kept", std::string(code_names[op.code]) + " returned while holding" + rt::locks_held_str(t.id));
    switch (op.code)
    {
      case T_CORE: w.fail("fatal-returned", "core_dump() returned"); break;
      case O_ON: d.off -= (int)times(op); break;
      case O_OFF: d.off += (int)times(op); break;
      case C_ON: t.chan[(int)op.a[1]] -= (int)times(op); break;
      case C_OFF: t.chan[(int)op.a[1]] += (int)times(op); break;
      case O_FORCE: t.fmt_scopes.push_back({std::to_string(d.off)}); d.off = -1; break;
      case C_FORCE: t.fmt_scopes.push_back({std::to_string(t.chan[(int)op.a[1]])}); t.chan[(int)op.a[1]] = -1; break;
      case M_ASSIGN: d.margin = op.s; break;
      case M_APPEND: d.margin += op.s; break;
      case M_PREPEND: d.margin = op.s + d.margin; break;
      case M_PUSH: d.margins.push_back(d.margin); break;
      case M_POP: d.margin = d.margins.back(); d.margins.pop_back(); break;
      case K_ASSIGN: d.marker = op.s; break;
      case K_APPEND: d.marker += op.s; break;
      case K_PREPEND: d.marker = op.s + d.marker; break;
      case K_PUSH: d.markers.push_back(d.marker); break;
      case K_POP: d.marker = d.markers.back(); d.markers.pop_back(); break;
      case COL_ON: d.con = op.a[1] == 1 ? d.con + op.s : op.a[1] == 2 ? op.s + d.con : op.s; break;
      case COL_OFF: d.coff = op.a[1] == 1 ? d.coff + op.s : op.a[1] == 2 ? op.s + d.coff : op.s; break;
      case F_RESERVE: if (r < op.a[2]) w.fail("reserve", "the capacity is " + std::to_string(r) + " after reserving " + std::to_string(op.a[2])); break;
      case IND_SET: d.indent = (unsigned short)op.a[1]; break;
      case IND_INC: d.indent += (unsigned short)op.a[1]; break;
      case IND_DEC: d.indent -= (unsigned short)op.a[1]; break;
      case OS_SET: case OS_SET_LOCK: post_os(t, op); break;
      case OS_GET:
      {
        bool ok = false;
        for (auto& p : w.om[op.a[0]].cand) if ((long)stream(p.s) == r) ok = true;
        if (!ok) { bool lateok = false; for (int i = 0; i < NS; ++i) if ((long)stream(i) == r) lateok = true; if (!lateok) w.fail("get_ostream", "get_ostream returned a stream that was never set"); }
        break;
      }
      case OS_HASM: { bool any = false; for (auto& p : w.om[op.a[0]].cand) any |= p.l != -1; if (any != (r != 0)) w.fail("has_mutex", "has_mutex returned " + std::to_string(r)); break; }
      case OS_DIRECT: rt::hb_release(&w.direct_hb); --w.direct_users[op.a[2]]; --w.direct_streams[op.a[1]]; break;
      case FLUSH_ON: ++w.om[op.a[0]].always_flush; gate_end(t); break;
      case FLUSH_OFF: --w.om[op.a[0]].always_flush; gate_end(t); break;
      case O_STATE: if ((r != 0) != (d.off < 0)) w.fail("switch-state", "debug object reports " + std::to_string(r) + " but its count is " + std::to_string(d.off)); break;
      case C_STATE: if ((r != 0) != w.chan_on(t, (int)op.a[1])) w.fail("switch-state", "channel " + w.labels[(int)op.a[1]] + " reports " + std::to_string(r) + " but its count is " + std::to_string(t.chan[(int)op.a[1]])); break;
      case D_FMT:
      {
        std::string e = d.margin + "\x01" + d.marker + "\x01" + d.con + "\x01" + d.coff + "\x01";
        if (text != e || r != d.indent) w.fail("format-state", "margin/marker/indent read back as " + World::show(text) + "/" + std::to_string(r) + " expected " + World::show(e) + "/" + std::to_string(d.indent));
        break;
      }
      case R_CHANS: check_chans(t, text); break;
      case R_OBJS: if (text.size() != NOBJ || std::set<char>(text.begin(), text.end()).size() != NOBJ || r != NOBJ) w.fail("object-registry", "iteration over debug objects gave '" + text + "', " + std::to_string(r) + " objects"); break;
      case R_FIND: check_find(t, op.s, r, text); break;
      case R_REG:
      {
        int ch = (int)op.a[0] + 100;
        w.labels[ch] = op.s;
        if (op.a[1] == 0) { w.pub.insert(op.s); w.registering.erase(op.s); w.reg_order.push_back(op.s); }
        w.reg_len.erase(w.reg_len.find(op.s.size()));
        if (op.s.size() > w.max_len) { w.max_len = op.s.size(); rt::probe(PR_PAD); }
        t.chan[ch] = op.s == "WARNING" ? -1 : 0;
        t.known.insert(ch);
        t.global_ops = true;
        gate_end(t);
        break;
      }
      default: break;
    }
  }
  void gate_end(TM& t)
  {
    rt::hb_release(&w.reg_after);
    t.reg_seen = ++w.reg_version;
    --w.gate;
  }
  static std::string strip(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }
  void check_chans(TM& t, std::string const& text)
  {
    std::set<std::string> seen;
    std::string prev;
    size_t width = 0, i = 0;
    while (i < text.size())
    {
      size_t j = text.find(';', i);
      std::string l = text.substr(i, j - i);
      i = j + 1;
      bool on = l.back() == '+';
      l.pop_back();
      std::string raw = strip(l);
      if (!seen.insert(raw).second) w.fail("channel-registry", "channel " + raw + " visited twice: " + text);
      if (!prev.empty() && prev >= l) w.fail("channel-order", "channels not in label order: " + text);
      if (width && width != l.size()) w.fail("label-width", "labels of different width in one iteration: " + text);
      width = l.size();
      prev = l;
      if (!w.pub.count(raw) && !w.registering.count(raw)) w.fail("channel-registry", "unknown channel '" + raw + "' visited");
      int ch = w.by_label(raw);
      if (ch != -1 && on != w.chan_on(t, ch)) w.fail("switch-state", "channel " + raw + " reports " + (on ? "on" : "off") + " in iteration");
    }
    for (auto& l : t.at_pre) if (!seen.count(l)) w.fail("channel-registry", "channel " + l + " not visited: " + text);
    if (t.ver_pre == w.reg_version && w.reg_len.empty() && width != w.max_len) w.fail("label-width", "labels have width " + std::to_string(width) + " instead of " + std::to_string(w.max_len));
    rt::probe(PR_ORDER);
  }
  void check_find(TM& t, std::string const& pre, long r, std::string const& text)
  {
    std::string raw = strip(text);
    auto last = [&](std::set<std::string> const& l, size_t width) {
      std::string m;
      for (auto& x : w.order(l, width)) { std::string p = x; p.resize(width, ' '); if (strncasecmp(pre.c_str(), p.c_str(), pre.size()) == 0) m = x; }
      return m;
    };
    std::set<size_t> widths{t.len_pre, w.max_len};
    for (size_t n : w.reg_len) if (n > w.max_len) widths.insert(n);
    // Any state that the registry had between the call and its return will do.
    std::vector<std::set<std::string>> states{t.at_pre};
    for (auto& l : w.reg_order) if (!t.at_pre.count(l)) { auto n = states.back(); n.insert(l); states.push_back(n); }
    for (auto& l : w.registering) { auto n = states.back(); n.insert(l); states.push_back(n); }
    std::string e;
    for (size_t width : widths) for (auto& st : states) { e = last(st, width); if (r ? raw == e : e.empty()) return; }
    w.fail("find-channel", "find(\"" + pre + "\") gave '" + (r ? raw : "nothing") + "', expected '" + (e.empty() ? "nothing" : e) + "'");
  }
  void scope(Op const& op, bool enter) override
  {
    rt::InRt g;
    TM& t = T();
    TO& d = t.to[op.code == S_ENTERING || op.code == SCOPE_INDENT || op.code == SCOPE_MARK ? 0 : op.a[0]];
    switch (op.code)
    {
      case S_ENTERING: if (enter) d.indent += 2; else d.indent -= std::min<int>(d.indent, 2); break;
      case SCOPE_INDENT: if (op.a[1] > 0) { if (enter) d.indent += (unsigned short)op.a[1]; else d.indent -= (unsigned short)std::min<long>(d.indent, op.a[1]); } break;
      case SCOPE_MARK:
        if (enter)
        {
          d.markers.push_back(d.marker);
          t.fmt_scopes.push_back({std::to_string(d.indent), std::to_string(d.mark_floor)});
          d.mark_floor = d.markers.size();
          d.marker += std::string(d.indent, ' ') + (op.s.empty() ? std::string(1, (char)op.a[1]) : op.s) + ' ';
          d.indent = 0;
        }
        else
        {
          d.marker = d.markers.back(); d.markers.pop_back();
          d.indent += (unsigned short)atoi(t.fmt_scopes.back()[0].c_str());
          d.mark_floor = (size_t)atoi(t.fmt_scopes.back()[1].c_str());
          t.fmt_scopes.pop_back();
        }
        break;
      case O_FORCE:
        if (enter) { if (d.off != -1) expect_fatal(t, ""); }
        else { if (t.loose) w.fail("error-ignored", "restore of an unbalanced object switch was not reported"); d.off = atoi(t.fmt_scopes.back()[0].c_str()); t.fmt_scopes.pop_back(); }
        break;
      case C_FORCE:
        if (enter) { if (!w.chan_on(t, (int)op.a[1])) expect_fatal(t, ""); }
        else { if (t.loose) w.fail("error-ignored", "restore of an unbalanced channel switch was not reported"); t.chan[(int)op.a[1]] = atoi(t.fmt_scopes.back()[0].c_str()); t.fmt_scopes.pop_back(); }
        break;
    }
  }
  std::ostream* stream(int i) override { return w.os[i].get(); }
  long external(Op const& op) override;
  void thread_end();
  void after_join(TM& t);
};


long DHooks::external(Op const& op)
{
  rt::InRt g;
  TM& t = T();
  switch (op.code)
  {
    case T_SPAWN:
    {
      int prog = (int)op.a[0];
      if (prog <= 0 || prog >= (int)w.c.threads.size() || w.tid_of[prog] != -1 || w.terminated) return 0;
      if (w.running >= rt::MAXT - 2) return 0;
      ++w.running;
      uint64_t seq = rt::alloc_seq();
      std::set<int> known = t.known;
      uint64_t seen = t.reg_seen;
      World* ww = &w;
      w.tid_of[prog] = -2;
      int id = w.next_tid++;
      TM& n = w.thread(id);
      n.known = known; n.reg_seen = seen; n.seq0 = seq; n.used = true;
      w.tid_of[prog] = id;
      t.spawned.push_back(prog);
      DHooks* self = this;
      int got = rt::spawn([ww, self, prog] { sut.run(self, ww->c.threads[prog]); rt::InRt g2; self->thread_end(); });
      if (got != id) rt::harness_error("thread ids");
      break;
    }
    case T_JOIN:
    {
      int prog = (int)op.a[0];
      if (prog <= 0 || prog >= (int)w.c.threads.size() || w.tid_of[prog] < 0 || std::find(t.spawned.begin(), t.spawned.end(), prog) == t.spawned.end()) return 0;
      int id = w.tid_of[prog];
      if (w.thread(id).joined) return 0;
      rt::join(id);
      w.thread(id).joined = true;
      after_join(w.thread(id));
      break;
    }
    case T_YIELD: { rt::OutRt o; rt::point(rt::P_SYNC); break; }
    case T_SLEEP: rt::sleep_ns((uint64_t)op.a[0] * 1000); break;
  }
  return 0;
}

// The thread's program is done; libcwd's own cleanup comes next.
void DHooks::thread_end()
{
  TM& t = T();
  if (rt::locks_held(t.id)) w.fail("lock-kept", "thread ends while holding" + rt::locks_held_str(t.id));
  bool open = false;
  for (int o = 0; o < NOBJ; ++o) if (!t.to[o].cont.empty() || !t.to[o].stack.empty()) open = true;
  if (open) rt::probe(PR_TEND_OPEN);
  t.open_end = open;
  for (auto& m : w.om) if (m.nl_tid == t.id) rt::probe(PR_TEND_NL);
  rt::note("program end");
}
void DHooks::after_join(TM& t)
{
  if (t.open_end || t.global_ops || w.c.num("noleak")) return;
  for (auto& b : rt::live_since(t.seq0)) if (b.tid == t.id) w.left[{b.pc, b.n}].insert({t.id, b.seq});
}

static void on_terminate(char const* kind, int code)
{
  World& w = *W;
  TM& t = w.me();
  std::string k = kind;
  if (w.terminated) w.fail("second-termination", "thread T" + std::to_string(t.id) + " terminates the process (" + k + ") while T" + std::to_string(w.term_tid) + " is already doing so");
  if (!t.loose && t.expect != "!") violation("terminated:" + k, "unexpected termination (" + k + " " + std::to_string(code) + ") of the process by T" + std::to_string(t.id) + "; last output: " + World::show(t.cap.empty() ? w.last_text(t) : t.cap.back().s));
  if (t.loose)
  {
    w.match(t, -1, false);
    if (t.need_text && t.loose_text.find(t.expect) == std::string::npos && !w.any_lossy())
      w.fail("error-text", "the error was reported as " + World::show(t.loose_text) + " but should contain " + World::show(t.expect));
    rt::probe(PR_ERRFATAL);
  }
  else
  {
    if (!t.cap.empty())
    {
      void const* m = rt::innermost_mutex(t.id);
      int l = m ? w.lock_index(m) : -1;
      w.match(t, l, l >= 0);
    }
    while (!t.q.empty())
    {
      Entry& e = t.q.front();
      std::string b = w.bytes(t, e);
      if (!b.empty() && !w.any_lossy() && !w.any_loose) w.fail("fatal-message-lost", "the process terminates but " + World::show(b) + " was not written");
      t.q.pop_front();
    }
  }
  bool core = t.expect_core;
  if (core ? k != "abort" : !((k == "_Exit" || k == "_exit") && code == 180))
    w.fail("termination-kind", "terminated by " + k + "(" + std::to_string(code) + ")");
  if (t.loose && t.need_text && t.last_sink >= 0 && t.loose_text.find(t.expect) != std::string::npos) t.must_flush[t.last_sink] = t.last_end[t.last_sink];
  w.check_flushed(t, "fatal-not-flushed", "the process terminates");
  w.terminated = true; w.term_tid = t.id;
  rt::probe(PR_TERMINATED);
  rt::sleep_until(~0ull, true);      // the process takes its time to end
  rt::harness_error("woken after termination");
}

static void on_end(char const* reason)
{
  World& w = *W;
  std::string r = reason;
  if (w.terminated && (r == "parked" || r == "blocked+parked"))
  {
    // Threads that may wait for ever: those that ended up in fatal output themselves, and those that wait for one of them.
    rt::finish_ok();
  }
  bool direct = false;
  for (auto& t : w.tm) if (t->direct) direct = true;
  if (r == "deadlock" && direct) violation("stuck:deadlock-application-holds-output-lock", rt::thread_states());
}

// ----------------------------------------------------------------------------------------------------------------
// Programs

struct Prof
{
  char const* name;
  int tmin, tmax;        // threads apart from the first
  int omin, omax;        // operations per thread
  double nest, cont, nonl, flush, cerr, wait, error, pfx;   // probabilities per statement
  int w_stmt, w_cont, w_enter, w_fatal, w_osw, w_csw, w_force, w_fmt, w_col, w_ind, w_scope, w_os, w_direct, w_fl, w_iter, w_find, w_list, w_reg, w_state, w_pause;
  double err;            // chance of a deliberate program error per operation
  double init;           // chance that a thread starts with init_thread
  int nobj;
  char const* faults;    // letters
};
//  name        thr   ops    nest cont nonl flsh cerr wait err  pfx | st co en fa os cs fo fm cl in sc OS di fl it fi li re sta pa | err  init obj faults
Prof const profs[] = {
  {"lock",      2, 4, 3, 9,  .15, .1, .08, .15, .15, .0, .05, .1,   12, 3, 1, 0, 0, 0, 0, 1, 1, 0, 0, 1, 4, 0, 0, 0, 1, 0, 0, 2,  0,   .2, 2, "tle"},
  {"deliver",   1, 4, 4, 14, .2,  .2, .08, .1,  .1,  .02,.1,  .1,   14, 4, 2, 0, 3, 4, 1, 1, 0, 0, 1, 0, 1, 0, 0, 0, 1, 0, 0, 1,  0,   .2, 3, "tw"},
  {"format",    1, 3, 6, 20, .15, .15,.05, .05, .05, .0, .1,  .4,   10, 2, 1, 0, 1, 1, 0, 9, 5, 3, 2, 0, 0, 0, 0, 0, 1, 0, 2, 0,  0,   .1, 3, ""},
  {"interrupt", 1, 4, 4, 14, .15, .5, .25, .3,  .0,  .0, .05, .1,   10, 9, 0, 0, 0, 1, 0, 1, 3, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 2,  0,   .1, 1, "w"},
  {"nest",      0, 2, 3, 8,  .6,  .35,.1,  .2,  .2,  .0, .1,  .1,   10, 6, 2, 0, 0, 1, 0, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0,  0,   .0, 2, ""},
  {"cont",      0, 2, 6, 20, .2,  .7, .05, .15, .05, .0, .1,  .1,   4, 14, 1, 0, 1, 6, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0,  .08, .0, 2, ""},
  {"switch",    0, 3, 8, 26, .1,  .1, .0,  .0,  .0,  .0, .0,  .05,  8, 2, 1, 0, 8, 9, 4, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 1, 5, 0,  .06, .2, 3, ""},
  {"flush",     1, 3, 4, 14, .3,  .35,.1,  .4,  .1,  .05,.05, .1,   12, 7, 1, 0, 0, 1, 0, 0, 1, 0, 0, 0, 1, 3, 0, 0, 0, 0, 0, 1,  0,   .1, 2, "x"},
  {"fatal",     0, 4, 2, 8,  .25, .2, .1,  .1,  .1,  .0, .2,  .1,   6, 3, 1, 4, 1, 1, 0, 1, 1, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 1,  .05, .2, 2, "t"},
  {"progress",  1, 4, 3, 10, .2,  .2, .1,  .2,  .15, .2, .1,  .1,   12, 4, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 5, 1, 1, 0, 1, 0, 0, 3,  0,   .2, 2, "wtciejl"},
  {"tend",      4, 9, 1, 5,  .1,  .3, .3,  .2,  .1,  .0, .05, .1,   10, 5, 1, 0, 1, 1, 0, 4, 4, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1,  .03, .2, 2, "r"},
  {"replace",   1, 3, 4, 12, .15, .15,.1,  .2,  .05, .0, .0,  .05,  12, 3, 1, 0, 0, 0, 0, 0, 1, 0, 0, 7, 1, 0, 0, 0, 0, 0, 0, 1,  0,   .1, 2, "t"},
  {"registry",  0, 3, 5, 14, .05, .05,.0,  .0,  .0,  .0, .0,  .1,   6, 1, 0, 0, 0, 4, 0, 0, 0, 0, 0, 0, 0, 0, 7, 7, 2, 7, 4, 1,  0,   .1, 1, ""},
  {"init",      2, 6, 1, 4,  .1,  .1, .0,  .0,  .0,  .0, .0,  .0,   8, 1, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 3, 0, 3, 1,  0,   1,  1, ""},
  {"errno",     0, 3, 4, 14, .3,  .4, .05, .25, .1,  .05,.6,  .1,   10, 8, 1, 0, 1, 2, 0, 0, 1, 0, 0, 0, 1, 1, 0, 0, 0, 0, 0, 1,  0,   .1, 2, "te"},
  {"mix",       2, 5, 4, 12, .2,  .25,.15, .2,  .1,  .03,.1,  .1,   12, 5, 1, 0, 2, 2, 1, 2, 2, 1, 1, 2, 2, 1, 2, 1, 1, 1, 1, 1,  0,   .3, 3, "twler"},
};

struct Gen
{
  Rng& r; Case& c; Prof const& p;
  int regs = 0;
  std::vector<std::string> used;
  int lockof[NSTREAM];
  double p_deep = 0; int nobj = 1;
  Gen(Rng& rr, Case& cc, Prof const& pp) : r(rr), c(cc), p(pp) { }

  std::string word()
  {
    static char const* const w[] = {"foo", "alpha", "x", "the quick", "value=", "12", ", ", "brown\tfox", "()", "z z", "", "end.", "lazy dog", "\xc3\xa9", "%s", "a\nb", "\x1b[1m", "\r", "\xff\x01"};
    if (r.chance(.02)) { static char const b[] = "\0nul\0bytes\0"; size_t k = r.below(6); return std::string(b + k, sizeof b - 1 - k - r.below(6)); }
    return w[r.below(19)];
  }
  long err_no() { static int const e[] = {0, ENOENT, EACCES, EINTR, EBADF, EINVAL, ENOSPC, EIO, EPIPE}; return e[r.below(9)]; }
  long chan() { if (regs && r.chance(.25)) return 100 + (long)r.below(regs); return (long)r.below(NCHAN); }
  long obj() { return (long)r.below(nobj); }
  long flags(bool cont)
  {
    long f = 0;
    if (!cont && r.chance(p.nonl)) f |= nonewline_cf;
    if (r.chance(p.flush)) f |= flush_cf;
    if (r.chance(p.cerr)) f |= cerr_cf;
    if (!cont && r.chance(p.wait)) f |= wait_cf;
    if (r.chance(p.error)) f |= error_cf;
    if (r.chance(p.pfx)) { static unsigned const q[] = {noprefix_cf, nolabel_cf, blank_margin_cf, blank_label_cf, blank_marker_cf, blank_label_cf | blank_marker_cf}; f |= q[r.below(6)]; }
    return f;
  }
  void items(Ops& o, int depth)
  {
    int n = r.chance(.1) ? 0 : 1 + (int)r.below(3);
    for (int i = 0; i < n; ++i)
    {
      if (depth < 6 && r.chance(p.nest / (1 + depth * .4))) { body(o, depth + 1, 1 + (int)r.below(2)); continue; }
      switch (r.below(9))
      {
        case 0: o.push_back(mkop(I_NUM, r.range(-99, 9999))); break;
        case 1: o.push_back(mkop(I_HEX, r.range(0, 99999))); break;
        case 2: o.push_back(mkop(I_BOOL, r.below(2))); break;
        case 3: o.push_back(mkop(I_WIDTH, r.range(0, 999), r.range(0, 9))); break;
        case 4: if (r.chance(.5)) { o.push_back(mkop(I_ERRNO, err_no())); break; } [[fallthrough]];
        case 5: if (r.chance(.15)) { o.push_back(mkops(I_TEXT, word(), r.chance(.3) ? r.chance(.06) ? r.range(65000, 140000) : r.range(2000, 6000) : r.range(480, 560))); break; } [[fallthrough]];
        default: o.push_back(mkops(I_TEXT, word())); break;
      }
    }
  }
  Op stmt(int code, int depth)
  {
    bool cont = code == S_CONT_START || code == S_CONT;
    Op o = mkop(code, code == S_ENTERING ? 0 : obj(), chan(), 0, err_no());
    if (code == S_CONT || code == S_FINISH) { if (r.chance(.3)) o.a[2] = flags(cont) & ~(noprefix_cf | nolabel_cf | blank_margin_cf | blank_label_cf | blank_marker_cf | cerr_cf); }
    else o.a[2] = flags(cont);
    if (code == S_FATAL) o.a[1] = r.below(2);
    if ((code == S_DOUT || code == S_CONT_START) && r.chance(.1)) o.a[5] = 1 + (long)r.below(NCHAN);
    items(o.sub, depth);
    return o;
  }
  // Nested to the limit, and beyond.
  void deep(Ops& out)
  {
    int n = (int)(r.chance(.5) ? r.range(7, 40) : r.range(62, 67));
    long o = obj(), ch = chan();
    bool cont = r.chance(.4), off = cont && r.chance(.3);
    if (off) { n = (int)r.range(100, 270); out.push_back(mkop(C_OFF, 0, ch, 0, 2)); }
    else if (r.chance(.7)) { out.push_back(mkop(C_OFF, 0, ch)); out.push_back(mkop(C_ON, 0, ch)); }
    Ops* at = &out;
    for (int i = 0; i < n; ++i)
    {
      Op s = cont ? mkop(S_CONT_START, o, ch, 0, err_no()) : mkop(S_DOUT, o, ch, 0, err_no());
      if (r.chance(.05)) s.a[2] = flags(cont);
      s.sub.push_back(mkops(I_TEXT, word()));
      at->push_back(s);
      if (!cont) at = &at->back().sub;
      if (!cont && r.chance(.1) && i + 1 < n) at->push_back(mkop(S_DOUT, o, ch, 0, 0));
    }
    for (int i = 0; cont && i < n; ++i) { Op k = mkop(S_FINISH, o, 0, 0, err_no()); if (r.chance(.9)) k.sub.push_back(mkops(I_TEXT, word())); out.push_back(k); }
    if (off) out.push_back(mkop(C_ON, 0, ch, 0, 2));
  }
  // A complete continued message, possibly with other things in between.
  void cont_seq(Ops& out, int depth, bool close, bool inner)
  {
    Op st = stmt(S_CONT_START, depth);
    long o = st.a[0];
    out.push_back(st);
    int n = (int)r.below(4);
    for (int i = 0; i < n; ++i)
    {
      if (r.chance(.35)) one(out, depth, inner);
      else if (r.chance(.2) && depth < 4) cont_seq(out, depth + 1, true, inner);
      else { Op k = stmt(S_CONT, depth); k.a[0] = o; out.push_back(k); }
    }
    if (close) { Op k = stmt(S_FINISH, depth); k.a[0] = o; out.push_back(k); }
  }
  std::string fmt() { static char const* const w[] = {"> ", "", "T:", "  ", "margin ", "|", "### ", "_"}; return w[r.below(8)]; }
  std::string ruler(long n) { std::string s; for (long i = 0, k = (long)r.below(26); i < n; ++i) s += (char)((i % 2 ? 65 : 97) + (k + i) % 26); return s; }
  // Operations inside an expression: no switching of objects (that would unbalance what encloses them).
  void body(Ops& out, int depth, int n) { for (int i = 0; i < n; ++i) one(out, depth, true); }
  void one(Ops& out, int depth, bool inner)
  {
    if (p_deep > 0 && depth == 0 && !inner && r.chance(p_deep)) { deep(out); return; }
    int w[] = {p.w_stmt, p.w_cont, inner ? 0 : p.w_enter, p.w_fatal, inner ? 0 : p.w_osw, p.w_csw, inner ? 0 : p.w_force, inner ? 0 : p.w_fmt, inner ? 0 : p.w_col, inner ? 0 : p.w_ind, inner ? 0 : p.w_scope, inner ? 0 : p.w_os,
      inner ? 0 : p.w_direct, inner ? 0 : p.w_fl, p.w_iter, p.w_find, inner ? 0 : p.w_list, inner ? 0 : p.w_reg, p.w_state, p.w_pause};
    int tot = 0;
    for (int x : w) tot += x;
    int k = (int)r.below(tot), i = 0;
    while (k >= w[i]) k -= w[i++];
    switch (i)
    {
      case 0: out.push_back(stmt(r.chance(.06) ? S_ALWAYS : S_DOUT, depth)); break;
      case 1: if (r.chance(p.err)) { Op s2 = stmt(r.chance(.5) ? S_CONT : S_FINISH, depth); s2.a[4] = 1; out.push_back(s2); } else cont_seq(out, depth, true, inner); break;
      case 2: { Op o = mkop(S_ENTERING); o.sub.push_back(stmt(S_ENTERING, depth)); if (depth < 3) body(o.sub, depth + 1, (int)r.below(3)); out.push_back(o); break; }
      case 3: if (depth == 0 && !inner && r.chance(.15)) out.push_back(mkop(T_CORE)); else out.push_back(stmt(S_FATAL, depth)); break;
      case 4:
      {
        long o = obj();
        int m = 1 + (int)r.below(3);
        bool first = r.chance(.5);
        static long const many[] = {127, 128, 129, 255, 256, 257, 300, 32768, 65536};
        long n = many[r.below(r.chance(.1) ? 9 : 7)];
        if (r.chance(.25)) out.push_back(mkop(r.chance(.5) ? O_ON : O_OFF, o));
        else if (r.chance(.06))
        {
          bool ch = r.chance(.5);
          long x = chan();
          out.push_back(ch ? mkop(C_OFF, 0, x, 0, n) : mkop(first ? O_OFF : O_ON, o, 0, 0, n));
          for (int j = (int)r.below(3); j > 0; --j) { Op s2 = stmt(S_DOUT, depth); if (ch) s2.a[1] = x; out.push_back(s2); }
          out.push_back(ch ? mkop(C_ON, 0, x, 0, n) : mkop(first ? O_ON : O_OFF, o, 0, 0, n));
          for (int j = (int)r.below(2); j > 0; --j) { Op s2 = stmt(S_DOUT, depth); if (ch) s2.a[1] = x; out.push_back(s2); }
        }
        else
        {
          for (int j = 0; j < m; ++j) out.push_back(mkop(first ? O_OFF : O_ON, o));
          if (depth < 3) { int q = (int)r.below(3); for (int j = 0; j < q; ++j) { Op s2 = stmt(S_DOUT, depth); out.push_back(s2); } }
          for (int j = 0; j < m; ++j) out.push_back(mkop(first ? O_ON : O_OFF, o));
        }
        break;
      }
      case 5: { Op o = mkop(r.chance(.5) ? C_ON : C_OFF, 0, chan()); if (o.code == C_ON && r.chance(p.err)) o.a[4] = 1; out.push_back(o); break; }
      case 6:
      {
        Op o = r.chance(.5) ? mkop(O_FORCE, obj()) : mkop(C_FORCE, 0, chan());
        int q = (int)r.below(4);
        for (int j = 0; j < q; ++j) if (r.chance(.75)) o.sub.push_back(stmt(S_DOUT, depth)); else { int cd = o.code == O_FORCE ? (r.chance(.5) ? O_ON : O_OFF) : (r.chance(.5) ? C_ON : C_OFF); long a0 = o.a[0], a1 = o.a[1]; o.sub.push_back(mkop(cd == C_ON ? C_OFF : cd == O_ON ? O_OFF : cd, a0, a1)); o.sub.push_back(stmt(S_DOUT, depth)); o.sub.push_back(mkop(cd == C_ON || cd == C_OFF ? C_ON : O_ON, a0, a1)); }
        if (r.chance(p.err / 4)) { o.sub.push_back(mkop(o.code == O_FORCE ? O_OFF : C_OFF, o.a[0], o.a[1])); o.sub.push_back(mkop(T_YIELD)); }        // not in pairs
        out.push_back(o);
        break;
      }
      case 7:
      {
        static int const k2[] = {M_ASSIGN, M_APPEND, M_PREPEND, M_PUSH, M_POP, K_ASSIGN, K_APPEND, K_PREPEND, K_PUSH, K_POP};
        Op o = mkops(k2[r.below(10)], r.chance(.1) ? ruler(r.chance(.1) ? r.range(250, 1100) : r.chance(.5) ? r.range(20, 70) : (64l << r.below(2)) + r.range(-2, 2)) : fmt(), obj());
        if (r.chance(.06)) o = mkop(F_RESERVE, o.a[0], (long)r.below(4), r.chance(.5) ? r.range(0, 300) : (64l << r.below(3)) + r.range(-2, 2));
        if (o.code == F_RESERVE && o.a[1] < 2 && r.chance(.5))
        {
          // Up to the last character that fits.
          static long const cap[] = {64, 129, 259};
          long at = o.a[0], which = o.a[1], n = cap[r.below(3)];
          o.a[2] = n - (long)r.below(60);
          out.push_back(o);
          o = mkops(which == 0 ? M_ASSIGN : K_ASSIGN, ruler(n + r.range(-1, 1)), at);
        }
        if ((o.code == M_POP || o.code == K_POP) && r.chance(p.err)) o.a[4] = 1;
        out.push_back(o);
        break;
      }
      case 8:
      {
        static char const* const on[] = {"\033[31m", "", "\033[1;34m", "<"};
        static char const* const off[] = {"\033[0m", "", "\033[39;49m", ">"};
        int q = (int)r.below(4);
        long o = obj();
        int how = r.chance(.8) ? 0 : (int)r.below(3);
        bool big = r.chance(.06);
        if (r.chance(.8)) out.push_back(mkops(COL_ON, big ? ruler(r.range(200, 600)) : on[q], o, how));
        if (r.chance(.8)) out.push_back(mkops(COL_OFF, big ? ruler(r.range(200, 600)) : off[q], o, how));
        break;
      }
      case 9: { static int const k2[] = {IND_SET, IND_INC, IND_DEC}; out.push_back(mkop(k2[r.below(3)], obj(), r.chance(.05) ? r.range(100, 600) : r.range(0, 8))); break; }
      case 10:
      {
        Op o = r.chance(.5) ? mkop(SCOPE_INDENT, 0, r.range(0, 6)) : mkop(SCOPE_MARK, 0, "|*#"[r.below(3)]);
        if (o.code == SCOPE_INDENT && r.chance(.1)) o.a[1] = -r.range(1, 3);
        if (o.code == SCOPE_MARK && r.chance(.3)) { o.s = r.chance(.5) ? "\u250a" : "--"; o.a[2] = r.chance(.5); }
        if (o.code == SCOPE_MARK && r.chance(.3)) o.a[3] = r.range(1, 2);
        if (depth < 3) body(o.sub, depth + 1, 1 + (int)r.below(3));
        out.push_back(o);
        break;
      }
      case 11:
      {
        long o = obj();
        long s = r.below(NSTREAM);
        if (r.chance(.8)) out.push_back(mkop(OS_SET_LOCK, o, s, lockof[s])); else out.push_back(mkop(OS_SET, o, s));
        if (r.chance(.2)) out.push_back(mkop(r.chance(.5) ? OS_GET : OS_HASM, o));
        break;
      }
      case 12:
      {
        long s = r.below(NSTREAM);
        if (r.chance(.7)) s = r.below(nobj);
        Op o = mkops(OS_DIRECT, "direct output\n", 0, s, lockof[s]);
        o.a[3] = r.chance(.5);
        if (r.chance(.1) && c.num("direct_get")) o.sub.push_back(mkop(r.chance(.5) ? OS_GET : OS_HASM, obj()));
        if (r.chance(.3)) o.sub.push_back(mkop(T_SLEEP, r.range(1, 100)));
        out.push_back(o);
        break;
      }
      case 13:
      {
        long o = obj();
        out.push_back(mkop(FLUSH_ON, o));
        if (r.chance(.7)) { if (depth < 3) for (int j = (int)r.below(3); j > 0; --j) out.push_back(stmt(S_DOUT, depth)); out.push_back(mkop(FLUSH_OFF, o)); }
        break;
      }
      case 14: out.push_back(mkop(r.chance(.75) ? R_CHANS : R_OBJS)); break;
      case 15:
      {
        static char const* const l[] = {"n", "NOT", "notify", "W", "warn", "", "de", "DEBUG", "z", "ALPHA ", "B", "WARNINGS", "no", "e", "S", "system", "F", "fo", "a", "al"};
        std::string q = l[r.below(20)];
        if (!used.empty() && r.chance(.5)) { q = used[r.below(used.size())]; q.resize(r.range(1, (long)q.size())); if (r.chance(.5)) for (auto& ch : q) ch = (char)tolower(ch); }
        out.push_back(mkops(R_FIND, q));
        break;
      }
      case 16: out.push_back(mkop(R_LIST, obj())); break;
      case 17:
      {
        static char const* const l[] = {"WARN", "AAA", "ZZZ", "NOTE", "LONGCHANNEL", "SIXTEENCHARSLONG", "DEBUGGER", "N", "ALPHABET", "MALLOCMALLOC", "W", "FOOD", "B", "SYS", "NOTIFYX", "ten_chars1", "nine_char", "WARNINGX"};
        if (regs < 40)
        {
          std::string q = l[r.below(18)];
          used.push_back(q);
          out.push_back(mkops(R_REG, q, regs++, r.chance(.12)));
          if (r.chance(.005)) { Op& l = out.back(); while (l.s.size() < 17 + (size_t)l.a[0] % 3) l.s += 'x'; l.a[4] = 1; }
        }
        break;
      }
      case 18: { static int const k2[] = {O_STATE, C_STATE, D_FMT}; int q = k2[r.below(3)]; out.push_back(mkop(q, q == C_STATE ? 0 : obj(), q == C_STATE ? chan() : 0)); break; }
      case 19: if (r.chance(.5)) out.push_back(mkop(T_YIELD)); else out.push_back(mkop(T_SLEEP, r.range(0, 300))); break;
    }
  }
  bool unnamed = false;
  // Things that can be repeated for ever: they leave everything as it was.
  void tail(Ops& out)
  {
    auto plain = [&](Ops& to, int code, long o) { Op x = mkop(code, o, chan(), code == S_DOUT ? flags(false) & ~(cerr_cf | wait_cf) : 0, err_no()); x.sub.push_back(mkops(I_TEXT, word())); to.push_back(x); };
    int n = 1 + (int)r.below(3);
    for (int i = 0; i < n; ++i)
    {
      long o = obj();
      switch (r.below(7))
      {
        case 0: plain(out, S_DOUT, o); break;
        case 1: plain(out, S_DOUT, o); { Ops in; plain(in, S_DOUT, obj()); out.back().sub.push_back(in[0]); } break;
        case 2:
          plain(out, S_CONT_START, o);
          if (r.chance(.5)) plain(out, S_DOUT, obj());
          if (r.chance(.6)) plain(out, S_CONT, o);
          plain(out, S_FINISH, o);
          break;
        case 3:
        {
          bool m = r.chance(.5);
          out.push_back(mkop(m ? M_PUSH : K_PUSH, o));
          if (r.chance(.8)) out.push_back(mkops(m ? M_ASSIGN : K_ASSIGN, r.chance(.5) ? fmt() : ruler(r.range(1, 200)), o));
          if (r.chance(.4)) out.push_back(mkops(m ? M_APPEND : K_APPEND, fmt(), o));
          plain(out, S_DOUT, o);
          out.push_back(mkop(m ? M_POP : K_POP, o));
          break;
        }
        case 4: { long q = (long)r.below(nobj); out.push_back(mkop(OS_SET_LOCK, o, q, lockof[q])); plain(out, S_DOUT, o); break; }
        case 5: out.push_back(mkops(M_ASSIGN, fmt(), o)); out.push_back(mkops(K_ASSIGN, ruler(r.range(0, 90)), o)); plain(out, S_DOUT, o); break;
        case 6: out.push_back(mkop(FLUSH_ON, o)); plain(out, S_DOUT, o); out.push_back(mkop(FLUSH_OFF, o)); break;
      }
    }
  }
  void thread_setup(Ops& o, int prog)
  {
    bool init = r.chance(p.init) && (prog > 0 || !strcmp(p.name, "init") ? prog > 0 : false);
    if (init)
    {
      static char const* const n[] = {"", "worker", "a very long thread name", "exactly16chars!!", "fifteen chars..", "x"};
      // copy_from_main (2) reads the state of the first thread, which must not be writing debug output meanwhile (known finding).
      long mode = (long)r.below(4);
      if (mode == 2 && strcmp(p.name, "init") != 0) mode = 1;
      if (r.chance(.08))
      {
        long ch = (long)r.below(2);
        o.push_back(mkop(O_ON, 0)); o.push_back(mkop(C_ON, 0, ch));
        Op e = stmt(S_DOUT, 3);
        e.a[0] = 0; e.a[1] = ch; e.a[2] = 0; e.a[4] = 2; e.a[5] = 0; e.sub.clear();
        o.push_back(e);
        o.push_back(mkop(O_OFF, 0)); o.push_back(mkop(C_OFF, 0, ch));
      }
      Op q = mkops(T_INIT, unnamed && r.chance(.9) ? "" : n[r.below(6)], 0, mode);
      if (r.chance(.3)) o.push_back(mkop(C_ON, 0, 0));
      o.push_back(q);
      o.push_back(mkop(O_STATE, 0));
      for (int i = 0; i < 4; ++i) o.push_back(mkop(C_STATE, 0, r.below(NCHAN)));
      if (r.chance(.5)) return;
    }
    for (int i = 0; i < nobj; ++i) if (r.chance(.9)) o.push_back(mkop(O_ON, i));
    for (int i = 0; i < NCHAN; ++i) if (i != 2 && r.chance(.7)) o.push_back(mkop(C_ON, 0, i));
    if (r.chance(.7)) for (int i = 0; i < nobj; ++i) { if (r.chance(.5)) o.push_back(mkops(M_ASSIGN, std::string("T") + std::to_string(prog) + " ", i)); }
    if (p.w_col && r.chance(.5)) { long q = obj(); o.push_back(mkops(COL_ON, "\033[3" + std::to_string(prog % 8) + "m", q)); o.push_back(mkops(COL_OFF, "\033[0m", q)); }
    if (p.w_fl == 0 && r.chance(.1)) { }
  }
  void fault(rt::Fault f, int nth, long val) { c.p.faults.push_back({f, nth, val}); }
  void go()
  {
    int nt = (int)r.range(p.tmin, p.tmax);
    nobj = p.nobj;
    if (nobj > 1 && r.chance(.04)) nobj = NOBJ;
    for (char const* n : {"nest", "cont", "errno"}) if (!strcmp(p.name, n) && r.chance(.04)) { p_deep = .08; c.n["deep"] = 1; }
    c.threads.resize(1 + nt);
    for (int i = 0; i < NSTREAM; ++i) lockof[i] = i % 4 == 3 ? (int)r.below(NLOCK) : i;
    if (r.chance(.2)) lockof[1] = lockof[0];
    Ops& m = c.threads[0];
    if (p.w_reg) { c.n["registers"] = 1; for (int i = (int)r.below(3); i > 0; --i) { static char const* const l[] = {"PRE", "WARNI", "TENLETTERS", "NOTICED", "ELF", "CUSTOM", "Zebra", "apple"}; std::string q = l[r.below(8)]; used.push_back(q); m.push_back(mkops(R_REG, q, regs++, 0)); } }
    // As many channels as fit; the index of the last one is large.
    if (p.w_reg && r.chance(.01)) for (int i = 0; i < 190 + (int)r.below(6); ++i) { std::string q = (r.chance(.5) ? "CH" : "Q") + std::to_string(i * 7 % 400); m.push_back(mkops(R_REG, q, regs++, r.chance(.1))); }
    bool dflt = strcmp(p.name, "init") == 0;
    if (dflt && r.chance(.3)) { m.push_back(mkop(OS_SET_LOCK, 0, 0, lockof[0])); dflt = false; }
    for (int i = 0; i < nobj; ++i) if (!(dflt && i == 0)) m.push_back(mkop(OS_SET_LOCK, i, i, lockof[i]));
    if (!strcmp(p.name, "init"))
    {
      // Output by the first thread would need a lock first.
      if (dflt) m.push_back(mkops(T_INIT, "main", 0, 3));
      for (int i = 0; i < NCHAN; ++i) if (i != 2 && r.chance(.5)) m.push_back(mkop(C_ON, 0, i));
      if (r.chance(.7)) m.push_back(mkop(O_ON, 0));
      unnamed = dflt && r.chance(.3);        // several threads that get no name
      if (dflt && (unnamed || r.chance(.5))) { m.erase(std::find_if(m.begin(), m.end(), [](Op const& o) { return o.code == T_INIT; })); }
    }
    else thread_setup(m, 0);
    if (nt == 0 && !strcmp(p.name, "fatal")) { }
    bool seq = !strcmp(p.name, "tend") && r.chance(.5);
    bool same = seq && r.chance(.6);
    bool late = !strcmp(p.name, "tend") && r.chance(.12);
    for (int i = 1; i <= nt; ++i)
    {
      Ops& o = c.threads[i];
      if (same && i > 1) { o = c.threads[1]; }
      else if (late && r.chance(.6))
      {
        // A thread that has everything off, and uses the library (again) when its thread_local objects are destroyed.
        auto quiet = [&](Ops& l) {
          if (r.chance(.7)) l.push_back(stmt(S_DOUT, 6));
          if (r.chance(.4)) l.push_back(mkop(IND_INC, obj(), 2));
          if (r.chance(.3)) l.push_back(mkops(M_PUSH, "", obj()));
        };
        auto arm = [&](double chance) {
          for (int k = 0; k < 3; ++k) if (r.chance(chance)) { Op l = mkop(T_LATE, k); quiet(l.sub); if (!l.sub.empty()) o.push_back(l); }
        };
        arm(.5);
        if (r.chance(.8)) quiet(o);
        arm(.15);
      }
      else
      {
        thread_setup(o, i);
        int n = (int)r.range(p.omin, p.omax);
        for (int j = 0; j < n; ++j) one(o, 0, false);
        if (!strcmp(p.name, "tend"))
        {
          // Leave something behind.
          if (r.chance(.5)) o.push_back(mkops(M_PUSH, "", obj()));
          if (r.chance(.3)) o.push_back(mkops(K_PUSH, "", obj()));
          if (r.chance(.5)) { Op s2 = stmt(S_DOUT, 2); s2.a[2] = nonewline_cf; o.push_back(s2); }
          if (r.chance(p.err)) cont_seq(o, 1, false, false);
        }
      }
      m.push_back(mkop(T_SPAWN, i));
      if (seq) { m.push_back(mkop(T_JOIN, i)); if (r.chance(.5)) one(m, 0, false); }
    }
    if (strcmp(p.name, "init") != 0 || nt == 0)
    {
      int n = (int)r.range(p.omin, p.omax);
      for (int j = 0; j < n; ++j) one(m, 0, false);
    }
    for (int i = 1; i <= nt; ++i) m.push_back(mkop(T_JOIN, i));
    if (r.chance(.3)) for (int j = 0; j < 2; ++j) one(m, 0, false);
    if (r.chance(.04) && strcmp(p.name, "init") != 0 && strcmp(p.name, "fatal") != 0)
    {
      c.threads.emplace_back();
      tail(c.threads.back());
      c.n["tail"] = (long)c.threads.size() - 1;
      c.n["repeat"] = r.chance(.3) ? 160 : 8;
    }
    // schedule
    auto& q = c.p;
    q.seed = r.next() >> 1;
    static int const st[] = {1, 1, 2, 3, 3, 4, 4, 0};
    q.strategy = nt ? st[r.below(8)] : 0;
    static double const ps[] = {.02, .1, .3, .6};
    q.p = q.strategy == 2 ? (r.chance(.5) ? .01 : .05) : ps[r.below(4)];
    q.depth = 1 + (int)r.below(6);
    q.horizon = 2000ull << r.below(6);
    q.reuse = r.chance(.35);
    q.slack = r.chance(.4);
    q.clock_jump = strchr(p.faults, 'j') ? r.chance(.3) : 0;
    if (nt && r.chance(.15)) { q.stall_tid = (int)r.below(nt + 1); q.stall_from = r.below(20000); q.stall_to = q.stall_from + r.below(60000); }
    // faults
    for (char const* f = p.faults; *f; ++f)
      switch (*f)
      {
        case 't': if (r.chance(.4)) for (int i = (int)r.below(4); i >= 0; --i) fault(rt::F_SINK_STALL, (int)r.below(60), r.range(0, 300)); break;
        case 'w': if (r.chance(.15)) fault(rt::F_SINK_FAIL, (int)r.below(40), 0); break;
        case 'e': if (r.chance(.4)) for (int i = (int)r.below(4); i >= 0; --i) fault(rt::F_SINK_ERRNO, (int)r.below(30), 0); break;
        case 'x': if (r.chance(.6)) fault(rt::F_CRASH, (int)r.below(60), 0); break;
        case 'i': if (r.chance(.5)) fault(rt::F_STDIN_EOF, (int)r.below(4), r.below(2)); break;
        case 'c': if (r.chance(.5)) for (int i = (int)r.below(6); i >= 0; --i) fault(rt::F_EINTR_SLEEP, (int)r.below(20), r.range(0, 99)); break;
        case 'l': if (r.chance(.2)) fault(rt::F_SINK_THROW, (int)r.below(40), 0); break;
        case 'r': break;
        default: break;
      }
  }
};

struct DoutEngine : Engine
{
  // The same actions again and again: what libcwd needs for them must not grow.
  void repeat(Case const& c, DHooks* h, TM& t)
  {
    World* w = W;
    size_t tail = (size_t)c.num("tail");
    if (!tail || tail >= c.threads.size() || w->tid_of[tail] != -1 || w->terminated) return;
    for (int o = 0; o < NOBJ; ++o) if (!t.to[o].cont.empty() || !t.to[o].stack.empty()) return;
    int n = (int)c.num("repeat");
    std::vector<size_t> blocks, bytes;
    for (int i = 0; i < n; ++i)
    {
      { rt::OutRt o; sut.run(h, c.threads[tail]); }
      blocks.push_back(rt::live_blocks()); bytes.push_back(rt::live_bytes());
    }
    rt::probe(PR_REPEAT);
    rt::check_growth(blocks, bytes);
  }
  void generate(Rng& r, Case& c) override
  {
    for (auto& p : profs) if (c.profile == p.name) { Gen g(r, c, p); g.go(); return; }
    fprintf(stderr, "unknown profile %s\n", c.profile.c_str());
    exit(3);
  }
  void run(Case const& c) override
  {
    World* w = W = new World(c);
    static char const* const lb[] = {"NOTICE", "SYSTEM", "WARNING", "DEBUG", "ALPHA", "BETA", "NOTIFY", "FOO"};
    for (int i = 0; i < NCHAN; ++i) { w->labels[i] = lb[i]; w->pub.insert(lb[i]); }
    w->labels[50] = "ELFUTILS"; w->pub.insert("ELFUTILS");
    w->tid_of.assign(c.threads.size(), -1);
    for (int i = 0; i < NS; ++i)
    {
      w->sink[i].id = i;
      if (i < NSTREAM) w->os.emplace_back(new std::ostream(&w->sink[i]));
      else w->os.emplace_back(nullptr);
    }
    std::cerr.rdbuf(&w->sink[CERR]);
    std::cerr.clear();
    for (auto& m : w->om) m.cand.push_back({CERR, -1, 0, 0});
    TM& t = w->thread(0);
    for (int i = 0; i < rt::MAXT; ++i) { w->thread(i); for (int ch : {2}) w->thread(i).chan[ch] = i == 0 ? -1 : 0; }
    t.used = true;
    w->next_tid = 1;
    DHooks* h = new DHooks(*w);
    world::set_stdin(c.str("stdin", std::string(200, '\n')), false);
    rt::begin(c.p);
    sut.init(h);
    for (int i = 0; i < NLOCK; ++i)
    {
      { rt::OutRt o; w->lock_addr[i] = sut.lock(i); }
      rt::watch_lock(w->lock_addr[i], true);
    }
    rt::set_lock_hook(lock_hook);
    rt::set_terminate_handler(on_terminate);
    rt::set_end_handler(on_end);
    t.seq0 = rt::alloc_seq();
    { rt::OutRt o; sut.run(h, c.threads[0]); }
    if (rt::locks_held(0)) w->fail("lock-kept", "main ends while holding" + rt::locks_held_str(0));
    for (size_t i = 1; i < c.threads.size(); ++i)
      if (w->tid_of[i] >= 0 && !w->thread(w->tid_of[i]).joined) { rt::join(w->tid_of[i]); w->thread(w->tid_of[i]).joined = true; h->after_join(w->thread(w->tid_of[i])); }
    // Some were only released later (by whoever came next).
    std::set<uint64_t> live;
    for (auto& b : rt::live_since(t.seq0)) live.insert(b.seq);
    for (auto& kv : w->left)
    {
      std::set<int> by;
      for (auto& x : kv.second) if (live.count(x.second)) by.insert(x.first);
      if (by.size() >= 5) violation("thread-leak", std::to_string(by.size()) + " threads that have ended each left a block of " + std::to_string(kv.first.second) + " bytes allocated at " + rt::symbolize(kv.first.first));
    }
    repeat(c, h, t);
    // What a thread leaves behind that ends in the middle of a message is lost.
    rt::check_leaks(t.seq0, [](rt::LiveBlock const& b) { return b.tid >= 0 && W->thread(b.tid).open_end; });
    rt::finish_ok();
  }
};
DoutEngine dout_engine;
struct RegDout { RegDout() { register_engine("dout", &dout_engine); } } reg_dout;

} // namespace

char const* const probe_names[96] = {"unfinished", "continued", "no_newline", "nested", "nested_3_deep", "off_expression_evaluated", "destination_replaced", "flushed",
  "concurrent_fatal", "cerr_output", "interrupts_itself", "thread_ends_with_open_message", "lossy_stream", "crash_point", "program_error_reported", "interactive_wait",
  "long_message", "label_width_grew", "channels_iterated", "default_lock_learned", "empty_message", "thread_ends_with_open_line", "terminated",
  "answer_from_debug_information", "answer_from_symbol_table", "answer_unknown", "inlined_function", "either_answer_allowed", "before_main", "inside_constructor_or_destructor_of_a_library",
  "object_unloaded", "lookup_in_faulty_object", "lookup_left_out", "object_opened_again", "separate_debug_information", "lookup_inside_a_message",
  "location_operation", "location_initialised_again", "assignment_between_sharing_locations", "location_written",
  "default_file_read", "override_file_read", "syntax_error", "unknown_keyword", "fatal_configuration_error", "read_error", "elfutils_label", "read_twice", "home_directory_file", "wildcard", "location_outlives_its_object",
  "attached", "child_ended_first", "child_killed", "child_status_unavailable", "attached_after_five_seconds", "attached_just_before_the_end", "fork_failed", "configured_command_too_long",
  "initialised_before_its_own_constructors", "statement_in_a_global_object", "destruction_of_global_objects", "loading_printed", "thread_beside_global_objects",
  "initialised_from_the_configuration", "initialised_a_second_time", "channel_on_as_configured", "channel_registered_after_initialisation", "channel_on_as_in_the_first_thread", "lookup_in_which_libdw_failed",
  "nested_33_deep", "nested_too_deep", "actions_repeated", "keyword_of_the_program"};
