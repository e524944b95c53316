// C20: files are included once, relative to the including file, wherever they lie
#include "common.h"
#include <sys/stat.h>
#include "util/filesystem.h"

static unsigned nPick;
static unsigned choose(unsigned n)
{
  if (n < 2) return 0;
  unsigned bits = n <= 2 ? 1 : n <= 4 ? 2 : n <= 8 ? 3 : n <= 16 ? 4 : n <= 32 ? 5 : 6;
  return pick(("choice" + std::to_string(nPick++)).c_str(), bits, n);
}
// ------------------------------------------------------------- the oracle
// a path names a file: its directories from the root or from where it starts
struct Norm
{
  bool abs = false;
  unsigned up = 0;
  std::vector<str> c;
  bool file = false;  // ends in a name
  void step(const str& s)
  {
    file = false;
    if (s.empty() || s == ".") return;
    if (s == "..")
    {
      if (c.size()) c.pop_back();
      else if (!abs) up++;
      return;
    }
    c.push_back(s);
    file = true;
  }
};
static Norm walk(const str& p, Norm n = Norm())
{
  size_t i = 0;
  if (p.size() && p[0] == '/') n = Norm(), n.abs = true;
  while (i <= p.size())
  {
    str s;
    while (i < p.size() && p[i] != '/') s += p[i++];
    i++;
    n.step(s);
  }
  return n;
}
static str plain(const Norm& n)
{
  str r = n.abs ? "/" : "";
  for (unsigned i = 0; i < n.up; i++) r += "../";
  for (size_t i = 0; i < n.c.size(); i++) r += (i ? "/" : "") + n.c[i];
  return r;
}
static bool same(const Norm& a, const Norm& b) { return a.abs == b.abs && a.up == b.up && a.c == b.c; }
static str canonical(const str& p)
{
  Filepath f(p);
  f.makeCanonical();
  return f.getRawPath();
}
// all spellings
static void cSpelling()
{
  unsigned n = 1 + pick("length", 4, sx_tier() ? 10 : 8);
  str p = symBytes("path", n);
  for (unsigned char c : p) sx_assume((c == '.') | (c == '/') | ((c > ' ') & (c < 127)));
  Norm w = walk(p);
  sx_assume(w.file);
  sx_note("path", p.c_str());
  str k = canonical(p), q = canonical(plain(w));
  sx_note("canonical", k.c_str());
  sx_check(k == q, "two spellings of a file");
  sx_check(same(walk(k), w), "a path is taken for another file");
  sx_reach(w.abs ? "absolute" : w.up ? "above" : "below");
}
// the directory of a file, and a path that is relative to it
static void cRelative()
{
  unsigned n = pick("length", 3, sx_tier() ? 7 : 5), m = 1 + pick("length 2", 3, sx_tier() ? 6 : 4);
  str p = symBytes("directory", n), q = symBytes("path", m);
  for (unsigned char c : p + q) sx_assume((c == '.') | (c == '/') | (c == 'a'));
  sx_assume(walk(q).file);
  str f = n ? p + "/f" : "f";
  sx_note("file", f.c_str());
  sx_note("path", q.c_str());
  Norm d = n ? walk(f) : Norm();
  if (n) d.c.pop_back();
  Norm w = walk(q, d);
  // a file that climbs above its relative directory cannot know the names there
  Filepath file(f), in(q), path;
  file.makeCanonical();
  if (in.isAbsolute()) path = in;
  else
  {
    path = file.parentPath();
    path.append(in);
  }
  path.makeCanonical();
  sx_note("read", path.getRawPath().c_str());
  sx_check(same(walk(path.getRawPath()), w), "a path is not relative to the directory of its file");
  sx_check(path.getRawPath() == canonical(plain(w)), "two spellings of a file");
  sx_reach("relative");
}
// ------------------------------------------------------- whole runs
static str root, rootDir;
// the files below the root
static const char* FILES[] = {"a.eo", "b.eo", "s/a.eo", "s/b.eo", "s/t/a.eo", "t/a.eo", "t/b.eo"};
static const char* DIRS[] = {"", "s", "s/t", "t"};
struct Tree
{
  std::map<str, std::vector<str>> inc;  // what a file includes
  std::map<str, bool> done;
  str out;
  bool ok = true, known = true;
  str top;  // the directory of the tree as the main file sees it
  Norm base;
  str id(const Norm& n)
  {
    // relative to the root of the tree
    if (n.abs != base.abs || n.up != base.up || n.c.size() < base.c.size()) return "?";
    str r;
    for (size_t i = 0; i < n.c.size(); i++)
    {
      if (i < base.c.size())
      {
        if (n.c[i] != base.c[i]) return "?";
        continue;
      }
      r += (r.empty() ? "" : "/") + n.c[i];
    }
    return r;
  }
  // every directory on the way exists
  bool passable(const str& p, Norm n)
  {
    size_t i = 0;
    if (p.size() && p[0] == '/') return true;
    while (i <= p.size())
    {
      str s;
      while (i < p.size() && p[i] != '/') s += p[i++];
      i++;
      if (i > p.size()) break;
      n.step(s);
      str d = id(n);
      if (base.abs && n.c.size() < base.c.size()) continue;
      bool f = false;
      for (const char* x : DIRS) f |= d == x;
      if (!f) return false;
    }
    return true;
  }
  void include(const str& p, Norm dir)
  {
    if (!ok) return;
    if (!passable(p, dir)) { known = false; return; }
    Norm w = walk(p, dir);
    str f = id(w);
    bool exists = f == "m.eo";
    for (const char* x : FILES) exists |= f == x;
    if (!exists) { ok = false; return; }
    if (done[f]) return;
    done[f] = true;
    w.c.pop_back();
    if (f != "m.eo") out += "in " + f + "\n";
    unsigned k = 0;
    for (const str& q : inc[f])
    {
      include(q, w);
      if (!ok) return;
      out += "after " + std::to_string(k++) + " of " + f + "\n";
    }
    if (f != "m.eo") out += "end " + f + "\n";
  }
};
static str content(Tree& t, const str& f)
{
  str r;
  if (f != "m.eo") r += "(echo \"in " + f + "\")\n";
  unsigned k = 0;
  for (const str& q : t.inc[f]) r += "(include \"" + q + "\")\n(echo \"after " + std::to_string(k++) + " of " + f + "\")\n";
  if (f != "m.eo") r += "(echo \"end " + f + "\")\n";
  return r;
}
static void makeDirs()
{
  char cwd[4000];
  if (!getcwd(cwd, sizeof cwd)) sx_assume(0);
  str s = scratch(std::to_string(getpid()) + "-tree");
  if (s[0] != '/') s = str(cwd) + "/" + s;
  root = s;
  rootDir = std::to_string(getpid()) + "-tree";
  mkdir(root.c_str(), 0755);
  for (const char* d : DIRS) mkdir((root + "/" + d).c_str(), 0755);
  if (chdir(root.c_str())) sx_assume(0);
}
static void put(Tree& t)
{
  for (const char* f : FILES)
  {
    str c = content(t, f), p = root + "/" + f;
    sx_file(p.c_str(), c.data(), c.size());
  }
  str c = content(t, "m.eo"), p = root + "/m.eo";
  sx_file(p.c_str(), c.data(), c.size());
}
// a path to a file through some directories
static str spelling(unsigned n)
{
  static const char* comp[] = {".", "..", "", "s", "t"};
  unsigned k = choose(n + 1);
  str r;
  for (unsigned i = 0; i < k; i++)
  {
    str c = comp[choose(5)];
    // not the root
    sx_assume(i || c != "");
    r += c + "/";
  }
  return r + (choose(2) ? "b.eo" : "a.eo");
}
static const char* SPELL[] = {"a.eo", "./a.eo", "s/../a.eo", "s//b.eo", "s/t/../b.eo", "t/./a.eo", "../a.eo", "../t/b.eo", "s/t/a.eo", "m.eo", "../m.eo", "s", "../s/t/.", "nofile.eo"};
static void outcome(Tree& t, const Out& o)
{
  sx_note("output", (o.out + o.err).c_str());
  sx_check(!o.crashed(), "the run neither accepted nor rejected with a diagnosis");
  sx_note("expected", (t.out + (t.ok ? "correct" : "")).c_str());
  if (t.ok)
  {
    sx_check(o.accepted() && o.out == t.out + "correct\n", "files are read in another order, or not once");
    sx_reach("read");
  }
  else
  {
    sx_check(o.diagnosed() && o.out == t.out, "a path to no file is accepted");
    sx_reach("no file");
  }
}
static void run(Tree& t, const str& main)
{
  put(t);
  t.base = walk(main);
  t.base.c.pop_back();
  t.done["m.eo"] = false;
  t.include(walk(main).c.back(), t.base);
  sx_assume(t.known);
  outcome(t, runMain({main}));
}
// the main file includes two
static void cTwo()
{
  makeDirs();
  Tree t;
  str a = spelling(2), b = sx_tier() ? spelling(2) : SPELL[choose(14)];
  t.inc["m.eo"] = {a, b};
  sx_note("includes", (a + " " + b).c_str());
  static const char* M[] = {"m.eo", "./m.eo", "s/../m.eo", ".//m.eo"};
  run(t, M[sx_tier() ? choose(4) : 0]);
}
// ... one includes others, then there is another one
static void cNested()
{
  makeDirs();
  Tree t;
  static const char* first[] = {"s/a.eo", "s/t/a.eo", "./a.eo"};
  unsigned f = choose(3);
  str a = spelling(sx_tier() ? 3 : 2), b = SPELL[choose(sx_tier() ? 14 : 8)];
  t.inc["m.eo"] = {first[f], b};
  t.inc[f == 0 ? "s/a.eo" : f == 1 ? "s/t/a.eo" : "a.eo"] = {a};
  t.inc["s/b.eo"] = {"a.eo", "../m.eo"};
  t.inc["t/b.eo"] = {"../s/b.eo", "a.eo"};
  sx_note("includes", (str(first[f]) + " (" + a + ") " + b).c_str());
  run(t, "m.eo");
  sx_reach("nested");
}
// the main file is given by an absolute path, or from elsewhere
static void cAbsolute()
{
  makeDirs();
  Tree t;
  unsigned k = choose(5);
  str main = k == 0 ? root + "/m.eo" : k == 1 ? root + "/s/..//m.eo" : k == 2 ? "//../" + root + "/./m.eo" : k == 3 ? "../m.eo" : "../t/../m.eo";
  if (k >= 3 && chdir((root + "/s").c_str())) sx_assume(0);
  std::vector<str> ps = {"a.eo", "../" + rootDir + "/a.eo", root + "/s/../a.eo", "s/a.eo", "/.." + root + "//s/a.eo", "./s/./a.eo", "../../" + root.substr(1) + "/s/a.eo"};
  str a = ps[choose(k >= 3 ? 1 : 6)], b = k >= 3 ? SPELL[choose(14)] : ps[choose(6)], c = k >= 3 ? spelling(1) : ps[choose(6)];
  t.inc["m.eo"] = {a, b, c};
  t.inc["s/a.eo"] = {"../a.eo"};
  sx_note("main", main.c_str());
  sx_note("includes", (a + " " + b + " " + c).c_str());
  run(t, main);
  sx_reach("elsewhere");
}
// the command line and standard input
static void cCommandLine()
{
  makeDirs();
  Tree t;
  str a = SPELL[choose(14)], b = spelling(1), c = SPELL[choose(8)];
  unsigned k = choose(3);
  t.inc["s/b.eo"] = {"a.eo", "../a.eo"};
  sx_note("paths", (a + " " + b + " " + c).c_str());
  t.base = Norm();
  if (k == 0)
  {
    put(t);
    // a signature after another, then the input
    t.include(a, t.base);
    t.include(b, t.base);
    str in = "(include \"" + c + "\")\n(echo \"last\")\n";
    t.include(c, t.base);
    if (t.ok) t.out += "last\n";
    sx_assume(t.known);
    outcome(t, runMain({"--include=" + a, "--include=" + b}, &in));
  }
  else
  {
    t.inc["m.eo"] = {c};
    put(t);
    t.include(a, t.base);
    // the file that is named on the command line may have been read before
    t.include(k == 1 ? "m.eo" : b, t.base);
    sx_assume(t.known);
    outcome(t, runMain({"--include=" + a, k == 1 ? "m.eo" : b}));
  }
  sx_reach("command line");
}
// references
static void cReference()
{
  makeDirs();
  Tree t;
  put(t);
  auto put1 = [&](const str& f, const str& c) {
    str p = root + "/" + f;
    sx_file(p.c_str(), c.data(), c.size());
  };
  put1("g.eo", "(declare-const P (-> Bool Bool))");
  put1("r.smt2", "(assert (P true))");
  put1("s/r.smt2", "(assert (P false))");
  put1("s/t/r.smt2", "(assert (P (P true)))");
  static const char* ref[] = {"r.smt2", "s/r.smt2", "s/../r.smt2", ".//s/t/../r.smt2", "../s/t/r.smt2", "../r.smt2", "t/r.smt2", "t"};
  static const char* form[] = {"(P true)", "(P false)", "(P (P true))"};
  unsigned k = choose(4), r = choose(8), f = choose(3);
  str cmd = "(reference \"" + str(ref[r]) + "\")\n(assume @a " + form[f] + ")\n";
  Norm dir;
  Out o;
  if (k == 0)
  {
    put1("m.eo", cmd);
    o = runMain({"--include=g.eo", "m.eo"});
  }
  else if (k == 1)
  {
    put1("s/p.eo", cmd);
    dir = walk("s");
    o = runMain({"--include=./g.eo", "s/p.eo"});
  }
  else if (k == 2)
  {
    put1("s/p.eo", cmd);
    put1("m.eo", "(include \"t/../s/p.eo\")");
    dir = walk("s");
    o = runMain({"--include=s/../g.eo", "m.eo"});
  }
  else
  {
    put1("m.eo", str("(assume @a ") + form[f] + ")\n");
    o = runMain({"--include=g.eo", "--reference=" + str(ref[r]), "m.eo"});
  }
  sx_note("command", cmd.c_str());
  sx_note("output", (o.out + o.err).c_str());
  Tree u;
  sx_assume(u.passable(ref[r], dir));
  str file = u.id(walk(ref[r], dir));
  bool ok = file == (f == 0 ? "r.smt2" : f == 1 ? "s/r.smt2" : "s/t/r.smt2");
  sx_check(!o.crashed(), "the run neither accepted nor rejected with a diagnosis");
  sx_check(o.accepted() == ok, "another reference file is used");
  sx_reach(ok ? "reference" : "other reference");
}
static void setup() {}
void (*sx_setup)() = setup;
CASES({"spelling", cSpelling}, {"relative", cRelative}, {"two", cTwo}, {"nested", cNested}, {"absolute", cAbsolute}, {"commandline", cCommandLine}, {"reference", cReference});
