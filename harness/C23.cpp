// C23: streaming the input gives the same outcome as reading it from a file
#include "common.h"

static unsigned nPick;
static unsigned choose(unsigned n)
{
  if (n < 2) return 0;
  unsigned bits = 1;
  while ((1u << bits) < n) bits++;
  return pick(("choice" + std::to_string(nPick++)).c_str(), bits, n);
}
static const char* SIG =
    "(declare-const Int Type) (declare-consts <numeral> Int) (declare-consts <string> Int) (declare-const P (-> Int Bool)) (declare-const => (-> Bool Bool Bool)) (declare-const or (-> Bool Bool Bool) :right-assoc-nil false)\n"
    "(declare-rule id ((F Bool)) :premises (F) :conclusion F) (declare-rule trust ((F Bool)) :args (F) :conclusion F :sorry)\n"
    "(declare-rule scope ((F Bool) (G Bool)) :assumption F :premises (G) :conclusion (=> F G))\n";
// a stream that delivers its bytes in pieces, and may fail in the end
struct Pieces : std::streambuf
{
  str t;
  size_t chunk, at = 0;
  bool fails;
  Pieces(const str& t, size_t chunk, bool fails) : t(t), chunk(chunk), fails(fails) {}
  int underflow() override
  {
    if (at >= t.size())
    {
      if (fails) throw std::runtime_error("read");
      return EOF;
    }
    size_t n = std::min(chunk, t.size() - at);
    setg(&t[at], &t[at], &t[at] + n);
    at += n;
    return (unsigned char)*gptr();
  }
};
static Out stream(std::vector<str> args, Pieces* b)
{
  args.insert(args.begin(), "ethos");
  std::vector<char*> av;
  for (str& a : args) av.push_back((char*)a.c_str());
  av.push_back(nullptr);
  // standard input is not a terminal
  static bool nulled = false;
  if (!nulled)
  {
    nulled = true;
    int fd = open("/dev/null", O_RDONLY);
    dup2(fd, 0);
    close(fd);
  }
  std::streambuf* si = std::cin.rdbuf(b);
  std::cin.clear();
  Out r = guarded([&]() { ethos_main((int)args.size(), av.data()); });
  std::cin.rdbuf(si);
  return r;
}
static bool hasVerdict(const Out& o) { return o.out.find("correct\n") != str::npos || o.out.find("incomplete\n") != str::npos; }
static str replaceAll(str s, const str& a, const str& b)
{
  for (size_t i = 0; (i = s.find(a, i)) != str::npos; i += b.size()) s.replace(i, a.size(), b);
  return s;
}
static std::vector<str> options()
{
  std::vector<str> a = {"--include=" + putFile("sig.eo", SIG)};
  static const char* o[] = {"", "--normalize-num", "--no-parse-let", "--stats-compact"};
  str x = o[sx_tier() ? choose(3) : 0];
  if (x.size()) a.push_back(x);
  return a;
}
// read from a file and from a stream
static void same(const str& t)
{
  sx_note("input", t.c_str());
  std::vector<str> args = options();
  // the same options precede the name of the file
  str path = putFile("p.smt3", t);
  std::vector<str> fargs = args;
  fargs.push_back(path);
  Out f = runMain(fargs);
  static const size_t chunks[] = {1, 3, 1000000};
  Out s = stream(args, new Pieces(t, chunks[choose(sx_tier() ? 3 : 2)], false));
  sx_note("file", (f.out + f.err).c_str());
  sx_note("stream", (s.out + s.err).c_str());
  sx_check(f.accepted() == s.accepted(), "the exit status");
  sx_check(f.accepted() || (f.kind == s.kind && f.code == s.code), "the exit status");
  sx_check(replaceAll(f.out, path, "stream") == s.out, "the output");
  // an open assumption is reported by different messages
  auto open = [](const str& e) { return e.find("preserve assumption scope") != str::npos; };
  sx_check(open(f.err) ? open(s.err) : replaceAll(f.err, path, "stream") == s.err, "the diagnosis");
  sx_check(hasVerdict(s) == s.accepted(), "the verdict");
  sx_reach(s.accepted() ? "verdict" : "error");
}
static const char* CMDS[] = {
    "(assume @a% true)", "(step @s% true :rule id :premises (@a0))", "(step @t% (P %) :rule trust :args ((P 1)))", "(assume-push @p% (P 1))", "(step-pop @q% :rule scope :premises (@p0))", "(push)", "(pop)", "(define d% () (P %))", "(exit)", "(echo \"%\")", "(declare-const c% Int)", "(reset)", "(assume @b (Q 1))", ")", "; (echo \"c\")", "(declare-const |a\nb%| Int)", "(echo \"a\nb%\")", "(include \"INC%\")", "(set-option :a b)", "(", "(reference \"INC%\")", "|", "#", "(step @s% :rule no)", "(declare-fun f% () Int) (assert true)", "\"", "(assume @a% (let ((x true)) x))", "(assume @a% (P 007))"};
static void cCommands()
{
  unsigned n = sizeof(CMDS) / sizeof(CMDS[0]), k = sx_tier() ? 3 : 2;
  putFile("INC0", "(echo \"included\")\n");
  str t;
  static const char* seps[] = {"\n", " ", "\r\n", ";x\n"};
  for (unsigned i = 0; i < k; i++)
  {
    str c = replaceAll(CMDS[choose(n)], "%", i ? "1" : "0");
    t += replaceAll(c, "INC", scratch(std::to_string(getpid()) + "-INC"));
    t += i + 1 < k ? seps[choose(2)] : choose(2) ? "" : "\n";
  }
  same(t);
  sx_reach("commands");
}
// any bytes, in the context of some command
static void cBytes()
{
  static const char* frame[] = {"%", "(assume @a true)%", "(echo \"%\")", "(echo |%|)", "(declare-const a% Int)", "(assume @a (P 1%))\n(echo \"a\")", ";%\n(echo \"a\")", "(assume %a true) (echo \"a\")", "(declare-const a Int :%)", "(assume @a (P #%1))", "(exit)%"};
  str t = frame[choose(11)];
  size_t at = t.find('%');
  str b = symBytes("bytes", 1 + choose(sx_tier() ? 3 : 2));
  same(t.substr(0, at) + b + t.substr(at + 1));
  sx_reach("bytes");
}
// commands at the border of the buffer that files are read with
static void cLong()
{
  static const char* text[] = {"(assume @a0 true)", "(echo \"x\"\"y\")", "(declare-const |a b| Int)", "(assume @a (P 123456))", "; c\n(echo \"d\")", "(assume @a false) ))", "(assume @a true)\r\n(step @s true :rule id :premises (@a))"};
  str c = text[choose(7)];
  unsigned k = choose(sx_tier() ? 2 : 1), before = choose(c.size() + 2);
  size_t size = (k + 1) * 32768;
  str pad;
  switch (choose(sx_tier() ? 3 : 2))
  {
    case 0: pad = str(size - before, ' '); break;
    case 1: pad = ";" + str(size - before - 2, ' ') + "\n"; break;
    default: pad = "(echo \"" + str(size - before - 9, 'z') + "\")";
  }
  // the last byte is any
  str last = symBytes("last", 1);
  unsigned char l = last[0];
  sx_assume(sx_tier() ? (l < 48) | (l > 122) : (l == '\n') | (l == ')') | (l == 255) | (l == 0) | (l == '"'));
  same(pad + c + last);
  sx_reach("long");
}
// the input cannot be read to its end
static void cFault()
{
  static const char* text[] = {"(assume @a0 true)", "(echo \"x\")\n(step @s true :rule trust :args (true))\n", "; (", "(declare-const |a b| Int)", "", "(assume @a 12)", "(assume @a (P 12)) (pop"};
  str t = text[choose(7)];
  t = t.substr(0, choose(t.size() + 1));
  str b = symBytes("byte", choose(2));
  t += b;
  std::vector<str> args = options();
  sx_note("input", t.c_str());
  Out s = stream(args, new Pieces(t, choose(2) ? 1000 : 2, true));
  sx_note("stream", (s.out + s.err).c_str());
  sx_check(s.diagnosed() && !s.crashed(), "an input that cannot be read to its end is accepted");
  sx_check(!hasVerdict(s), "a verdict on an input that cannot be read to its end");
  sx_reach("fault");
}
static void setup()
{
  struct Null : std::streambuf { int overflow(int c) override { return c; } };
  std::cerr.rdbuf(new Null);
}
void (*sx_setup)() = setup;
CASES({"commands", cCommands}, {"bytes", cBytes}, {"long", cLong}, {"fault", cFault});
