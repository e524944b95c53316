// Path exploration: solver queries, work list, parallel children.
#include "rt.h"
#include "sx.h"
#include "z3dyn.h"
#include <unordered_map>
#include <algorithm>
#include <cerrno>
#include <csetjmp>
#include <chrono>
#include <csignal>
#include <deque>
#include <exception>
#include <fcntl.h>
#include <map>
#include <memory>
#include <poll.h>
#include <set>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

Expr* internVar(uint32_t w, uint64_t idx, uint64_t val);
void (*sx_end_cb)(int kind, int code) = nullptr;

struct FnEnt { const char* name; uint64_t hit; };
extern "C" FnEnt __start_sx_fn[], __stop_sx_fn[];
static std::set<std::string> gFns;

static double now()
{
  using namespace std::chrono;
  return duration<double>(steady_clock::now().time_since_epoch()).count();
}

struct Task
{
  std::vector<uint64_t> in;               // value per variable
  uint32_t bound = 0;                     // first flippable event
  std::string trail;                      // expected directions before bound
  std::map<uint32_t, std::vector<uint64_t>> hist;  // concretisation history
};
struct Ev
{
  Expr* cond;
  bool taken;
  int site;       // concretisation site or -1
  uint64_t cval;
  bool noflip;
};
struct Chk { Expr* cond; uint32_t pos; const char* msg; };
struct VarInfo { std::string name; uint32_t w; Expr* e; };

static Task cur;
static bool inRun;
static std::vector<Ev> evs;
static std::vector<Chk> chks;
static std::vector<VarInfo> vars;
static std::vector<std::string> reached;
static std::vector<std::pair<std::string, std::string>> notes;
static uint32_t nSites;
static int outFd = -1;
static bool finishing;
static const char* failMsg;
static uint32_t nConcreteChecks;
static double solverBudget = 60;     // per path
static unsigned queryTimeoutMs = 20000;
static int gTier = 0;
static uint32_t maxEvents = 20000;

// decided conditions
static std::unordered_map<Expr*, bool>* decided;

[[noreturn]] void engineError(const char* m)
{
  fprintf(stderr, "ENGINE ERROR: %s\n", m);
  fflush(stderr);
  if (outFd >= 0)
  {
    std::string s = std::string("E ") + m + "\n";
    (void)!write(outFd, s.data(), s.size());
  }
  _exit(99);
}

static void learn(Expr* c, bool v)
{
  (*decided)[c] = v;
  if (c->op == O_NOT && c->w == 1) { learn(c->a, !v); return; }
  if (c->w == 1) c->known = true;
  if (v && c->op == O_AND && c->w == 1) { learn(c->a, true); learn(c->b, true); }
  if (!v && c->op == O_OR && c->w == 1) { learn(c->a, false); learn(c->b, false); }
  if (v && c->op == O_EQ && c->b->op == O_CONST)
  {
    std::vector<Expr*> st{c->a};
    while (!st.empty())
    {
      Expr* e = st.back();
      st.pop_back();
      if (e->known) continue;
      e->known = true;
      switch (e->op)
      {
        case O_ZEXT: case O_SEXT: case O_NOT: st.push_back(e->a); break;
        case O_CONCAT: st.push_back(e->a); st.push_back(e->b); break;
        case O_ADD: case O_XOR: case O_SUB:
          if (e->b->op == O_CONST) st.push_back(e->a);
          break;
        default: break;
      }
    }
  }
}

static void putTask(std::string& o, const Task& t);
static std::string show(Expr* e, int depth = 6)
{
  static const char* nm[] = {"C", "v", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl",
                             "lshr", "ashr", "=", "<u", "<=u", "<s", "<=s", "not", "zext", "sext", "extract",
                             "concat", "ite", "mpz"};
  if (!e) return "";
  if (e->op == O_CONST) return std::to_string(e->v);
  if (e->op == O_VAR) return "v" + std::to_string(e->aux);
  if (!depth) return "..";
  std::string r = std::string("(") + nm[e->op] + ":" + std::to_string(e->w);
  for (Expr* k : {e->a, e->b, e->c})
    if (k) r += " " + show(k, depth - 1);
  return r + ")";
}
static void record(Expr* c, bool taken, int site = -1, uint64_t cval = 0)
{
  uint32_t i = evs.size();
  if (i < cur.trail.size())
  {
    bool want = cur.trail[i] == '1';
    if (want != taken)
    {
      if (getenv("SX_DIV"))
      {
        std::string t;
        putTask(t, cur);
        fprintf(stderr, "divergence at %u of %zu want %d site %d op %d w %u: %s", i, cur.trail.size(), want, site,
                c->op, c->a ? c->a->w : 0, t.c_str());
      }
      engineError("divergence from predicted path");
    }
  }
  evs.push_back({c, taken, site, cval, false});
  if (const char* d = getenv("SX_LOG"))
  {
    static FILE* f;
    if (!f)
    {
      std::string t, n = std::string(d) + "/" + std::to_string(getpid());
      f = fopen(n.c_str(), "w");
      putTask(t, cur);
      fputs(t.c_str(), f);
    }
    fprintf(f, "%u %d site %d %s\n", i, taken, site, show(c).c_str());
    fflush(f);
  }
  if (getenv("SX_TRACE"))
    fprintf(stderr, "[br %u] taken=%d site=%d op=%d w=%u\n", i, taken, site, c->op, c->a ? c->a->w : 0);
  learn(c, taken);
  if (evs.size() > maxEvents) finish(-3, 0);
}

bool branch(Expr* c)
{
  if (!c || c->op == O_CONST || c->known || finishing || !inRun) return c ? c->v & 1 : false;
  bool v = c->v & 1;
  if (c->op == O_NOT) return !branch(c->a);
  record(c, v);
  return v;
}
void concretizeFull(Expr* e)
{
  if (!e || e->op == O_CONST || e->known || finishing || !inRun) return;
  stConcretized++;
  // fix offsets rather than addresses
  if (e->w <= 64 && e->op == O_ADD && e->b->op == O_CONST)
  {
    concretizeFull(e->a);
    e->known = true;
    return;
  }
  if (e->w > 64)
  {
    concretizeFull(extract(e, 64, e->w - 64));
    concretizeFull(extract(e, 0, 64));
    e->known = true;
    return;
  }
  uint32_t s = nSites++;
  auto it = cur.hist.find(s);
  if (it != cur.hist.end())
  {
    for (uint64_t h : it->second)
    {
      Expr* c = eq(e, mkC(e->w, h));
      bool v = e->v == h;
      if (c->op == O_CONST) continue;
      if (c->op == O_NOT) record(c->a, !v, -2, h); else record(c, v, -2, h);
      if (v) return;
    }
  }
  Expr* c = eq(e, mkC(e->w, e->v));
  if (c->op == O_CONST || c->known) { e->known = true; return; }
  if (c->op == O_NOT) record(c->a, false, s, e->v); else record(c, true, s, e->v);
  e->known = true;
}
uint64_t concretizeE(Expr* e)
{
  concretizeFull(e);
  return e->v;
}
void assume(Expr* c)
{
  if (!c || c->op == O_CONST || c->known)
  {
    if (c && !(c->v & 1)) finish(-1, 0);
    return;
  }
  if (!branch(c)) finish(-1, 0);
}
void check(Expr* c, const char* msg)
{
  if (!c || c->op == O_CONST || c->known)
  {
    nConcreteChecks++;
    if (c && !(c->v & 1) && !failMsg) { failMsg = strdup(msg); finish(-2, 0); }
    return;
  }
  chks.push_back({c, (uint32_t)evs.size(), strdup(msg)});
  if (!(c->v & 1))
  {
    if (!failMsg) failMsg = strdup(msg);
    finish(-2, 0);
  }
}

// ------------------------------------------------------------------ solver
static Z3_context ctx;
static Z3_solver slv;
static uint64_t nq, nsat, nunsat, nunk;
static double tsolve;
static bool z3err;

static Z3_ast asBV(Expr* e);
static Z3_ast asBool(Expr* e);
static Z3_sort bvs(uint32_t w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_ast num(uint32_t w, uint64_t v) { return Z3_mk_unsigned_int64(ctx, v, bvs(w)); }

static Z3_ast mkMpz(Expr* e)
{
  // signed limb count of the bit-vector e->a
  Expr* a = e->a;
  uint32_t w = a->w;
  Z3_ast x = asBV(a);
  // absolute value in w+1 bits
  Z3_ast xe = Z3_mk_sign_ext(ctx, 1, x);
  Z3_ast neg = Z3_mk_bvslt(ctx, x, Z3_mk_int(ctx, 0, bvs(w)));
  Z3_ast ab = Z3_mk_ite(ctx, neg, Z3_mk_bvneg(ctx, xe), xe);
  uint32_t W = w + 1;
  Z3_ast n = num(32, 0);
  for (uint32_t lo = 0, k = 1; lo < W; lo += 64, k++)
  {
    // some bit at or above lo set -> at least k limbs
    Z3_ast hi = Z3_mk_extract(ctx, W - 1, lo, ab);
    Z3_ast nz = Z3_mk_not(ctx, Z3_mk_eq(ctx, hi, Z3_mk_int(ctx, 0, bvs(W - lo))));
    n = Z3_mk_ite(ctx, nz, num(32, k), n);
  }
  return Z3_mk_ite(ctx, neg, Z3_mk_bvneg(ctx, n), n);
}

static Z3_ast asBool(Expr* e)
{
  if (e->zbool) return (Z3_ast)e->zbool;
  Z3_ast r;
  switch (e->op)
  {
    case O_CONST: r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case O_EQ:
      if (e->a->w == 1)
        r = Z3_mk_iff(ctx, asBool(e->a), asBool(e->b));
      else
        r = Z3_mk_eq(ctx, asBV(e->a), asBV(e->b));
      break;
    case O_ULT: r = Z3_mk_bvult(ctx, asBV(e->a), asBV(e->b)); break;
    case O_ULE: r = Z3_mk_bvule(ctx, asBV(e->a), asBV(e->b)); break;
    case O_SLT: r = Z3_mk_bvslt(ctx, asBV(e->a), asBV(e->b)); break;
    case O_SLE: r = Z3_mk_bvsle(ctx, asBV(e->a), asBV(e->b)); break;
    case O_NOT: r = Z3_mk_not(ctx, asBool(e->a)); break;
    case O_AND: { Z3_ast x[2] = {asBool(e->a), asBool(e->b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case O_OR: { Z3_ast x[2] = {asBool(e->a), asBool(e->b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case O_XOR: r = Z3_mk_xor(ctx, asBool(e->a), asBool(e->b)); break;
    case O_ITE: r = Z3_mk_ite(ctx, asBool(e->a), asBool(e->b), asBool(e->c)); break;
    default: r = Z3_mk_eq(ctx, asBV(e), num(1, 1)); break;
  }
  e->zbool = r;
  return r;
}
static Z3_ast asBV(Expr* e)
{
  if (e->zbv) return (Z3_ast)e->zbv;
  Z3_ast r;
  uint32_t w = e->w;
  switch (e->op)
  {
    case O_CONST:
      if (w <= 64)
        r = num(w, e->v);
      else
      {
        char* s = mpz_get_str(nullptr, 10, e->wv);
        r = Z3_mk_numeral(ctx, s, bvs(w));
      }
      break;
    case O_VAR:
    {
      char nm[32];
      snprintf(nm, sizeof nm, "v%lu", (unsigned long)e->aux);
      r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), bvs(w));
      break;
    }
    case O_ADD: r = Z3_mk_bvadd(ctx, asBV(e->a), asBV(e->b)); break;
    case O_SUB: r = Z3_mk_bvsub(ctx, asBV(e->a), asBV(e->b)); break;
    case O_MUL: r = Z3_mk_bvmul(ctx, asBV(e->a), asBV(e->b)); break;
    case O_UDIV: r = Z3_mk_bvudiv(ctx, asBV(e->a), asBV(e->b)); break;
    case O_SDIV: r = Z3_mk_bvsdiv(ctx, asBV(e->a), asBV(e->b)); break;
    case O_UREM: r = Z3_mk_bvurem(ctx, asBV(e->a), asBV(e->b)); break;
    case O_SREM: r = Z3_mk_bvsrem(ctx, asBV(e->a), asBV(e->b)); break;
    case O_SHL: r = Z3_mk_bvshl(ctx, asBV(e->a), asBV(e->b)); break;
    case O_LSHR: r = Z3_mk_bvlshr(ctx, asBV(e->a), asBV(e->b)); break;
    case O_ASHR: r = Z3_mk_bvashr(ctx, asBV(e->a), asBV(e->b)); break;
    case O_ZEXT: r = Z3_mk_zero_ext(ctx, w - e->a->w, asBV(e->a)); break;
    case O_SEXT: r = Z3_mk_sign_ext(ctx, w - e->a->w, asBV(e->a)); break;
    case O_EXTRACT: r = Z3_mk_extract(ctx, e->aux + w - 1, e->aux, asBV(e->a)); break;
    case O_CONCAT: r = Z3_mk_concat(ctx, asBV(e->a), asBV(e->b)); break;
    case O_MPZ: r = mkMpz(e); break;
    default:
      if (w == 1)
      {
        r = Z3_mk_ite(ctx, asBool(e), num(1, 1), num(1, 0));
        break;
      }
      switch (e->op)
      {
        case O_AND: r = Z3_mk_bvand(ctx, asBV(e->a), asBV(e->b)); break;
        case O_OR: r = Z3_mk_bvor(ctx, asBV(e->a), asBV(e->b)); break;
        case O_XOR: r = Z3_mk_bvxor(ctx, asBV(e->a), asBV(e->b)); break;
        case O_NOT: r = Z3_mk_bvnot(ctx, asBV(e->a)); break;
        case O_ITE: r = Z3_mk_ite(ctx, asBool(e->a), asBV(e->b), asBV(e->c)); break;
        default: engineError("cannot translate expression");
      }
  }
  e->zbv = r;
  return r;
}
static std::vector<std::pair<Expr*, bool>> asserted;
// The conditions of the query hold under the values m.
static bool validModel(const std::vector<uint64_t>& m, Expr* extra, bool want)
{
  std::unordered_map<Expr*, Expr*> memo;
  auto bad = [&](Expr* e, bool w) { return (evalUnder(e, m, memo)->v & 1) != (uint64_t)w; };
  for (auto& a : asserted)
    if (bad(a.first, a.second))
    {
      if (getenv("SX_DIV")) fprintf(stderr, "model violates %d %s\n", a.second, show(a.first, 9).c_str());
      return false;
    }
  return !extra || !bad(extra, want);
}
static Z3_params zps;
static uint64_t badModels;
static void readModel(Z3_solver sv, std::vector<uint64_t>* model)
{
  Z3_model m = Z3_solver_get_model(ctx, sv);
  Z3_model_inc_ref(ctx, m);
  model->clear();
  for (VarInfo& v : vars)
  {
    uint64_t val = v.e->v;
    if (v.e->zbv)
    {
      Z3_func_decl fd = Z3_get_app_decl(ctx, Z3_to_app(ctx, (Z3_ast)v.e->zbv));
      Z3_ast iv = Z3_model_get_const_interp(ctx, m, fd);
      if (iv)
      {
        uint64_t o;
        if (Z3_get_numeral_uint64(ctx, iv, &o)) val = o;
      }
    }
    model->push_back(val);
  }
  Z3_model_dec_ref(ctx, m);
}
// 1: satisfiable, with a model that has been evaluated; 0: unsatisfiable; -1: unknown
static int solve(Expr* x, bool want, std::vector<uint64_t>* model)
{
  double t0 = now();
  Z3_ast extra = want ? asBool(x) : Z3_mk_not(ctx, asBool(x));
  Z3_solver_push(ctx, slv);
  Z3_solver_assert(ctx, slv, extra);
  Z3_lbool r = Z3_solver_check(ctx, slv);
  nq++;
  if (r == Z3_L_TRUE)
  {
    readModel(slv, model);
    if (!validModel(*model, x, want))
    {
      badModels++;
      Z3_solver s2 = Z3_mk_simple_solver(ctx);
      Z3_solver_inc_ref(ctx, s2);
      Z3_solver_set_params(ctx, s2, zps);
      for (auto& a : asserted)
        Z3_solver_assert(ctx, s2, a.second ? asBool(a.first) : Z3_mk_not(ctx, asBool(a.first)));
      Z3_solver_assert(ctx, s2, extra);
      r = Z3_solver_check(ctx, s2);
      if (r == Z3_L_TRUE)
      {
        readModel(s2, model);
        if (!validModel(*model, x, want)) r = Z3_L_UNDEF;
      }
      Z3_solver_dec_ref(ctx, s2);
    }
  }
  if (r == Z3_L_TRUE) nsat++;
  else if (r == Z3_L_FALSE) nunsat++;
  else nunk++;
  Z3_solver_pop(ctx, slv, 1);
  tsolve += now() - t0;
  if (getenv("SX_SLOW") && now() - t0 > atof(getenv("SX_SLOW")))
    fprintf(stderr, "slow %.2f r=%d n=%zu %d %s\n", now() - t0, r, asserted.size(), want, show(x, 9).c_str());
  return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}

static void onZ3Err(Z3_context c, Z3_error_code e)
{
  fprintf(stderr, "z3: %s\n", Z3_get_error_msg(c, e));
  z3err = true;
}

static void putTask(std::string& o, const Task& t)
{
  o += "T ";
  o += std::to_string(t.bound) + " " + (t.trail.empty() ? "-" : t.trail) + " ";
  o += std::to_string(t.in.size());
  for (uint64_t v : t.in) o += " " + std::to_string(v);
  o += " " + std::to_string(t.hist.size());
  for (auto& kv : t.hist)
  {
    o += " " + std::to_string(kv.first) + " " + std::to_string(kv.second.size());
    for (uint64_t v : kv.second) o += " " + std::to_string(v);
  }
  o += "\n";
}
static std::string hexs(const std::string& s)
{
  static const char* h = "0123456789abcdef";
  std::string r;
  for (unsigned char c : s) { r += h[c >> 4]; r += h[c & 15]; }
  return r;
}
static void putViolation(std::string& o, const char* msg, const std::vector<uint64_t>& in)
{
  o += "V " + hexs(msg) + " " + std::to_string(in.size());
  for (uint64_t v : in) o += " " + std::to_string(v);
  o += "\n";
}
static void writeAll(int fd, const std::string& s)
{
  size_t p = 0;
  while (p < s.size())
  {
    ssize_t k = write(fd, s.data() + p, s.size() - p);
    if (k < 0)
    {
      if (errno == EINTR) continue;
      _exit(98);
    }
    p += k;
  }
}

static jmp_buf* guardJ;
static int guardKind, guardCode;

[[noreturn]] void finish(int kind, int code)
{
  // kind >= 0: the code under test ended (SxEnd); -1: assumption failed;
  // -2: assertion failed on the current input
  if (finishing) _exit(97);
  if (kind >= 1 && kind != SX_TIMEOUT && guardJ)
  {
    guardKind = kind;
    guardCode = code;
    longjmp(*guardJ, 1);
  }
  if (kind == SX_TIMEOUT && code == 0)
  {
    guardJ = nullptr;
    failMsg = "TIMEOUT code under test does not terminate";
  }
  else if (kind >= 1 && sx_end_cb)
  {
    void (*cb)(int, int) = sx_end_cb;
    sx_end_cb = nullptr;
    __sx_callee = nullptr;
    cb(kind, code);  // may call check/assume, which finish
  }
  else if (kind >= 1)
  {
    static char buf[100];
    snprintf(buf, sizeof buf, "code under test ended the process: kind %d code %d", kind, code);
    failMsg = buf;
  }
  finishing = true;
  struct itimerval itv = {{0, 0}, {0, 0}};
  setitimer(ITIMER_REAL, &itv, nullptr);
  signal(SIGSEGV, SIG_DFL);
  signal(SIGABRT, SIG_DFL);
  std::string out;
  std::vector<uint64_t> curIn;
  for (VarInfo& v : vars) curIn.push_back(v.e->v);
  if (failMsg) putViolation(out, failMsg, curIn);
  double t0 = now();
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, onZ3Err);
  // (the incremental QF_BV solver of this release returned models that do not
  // satisfy the query)
  slv = Z3_mk_simple_solver(ctx);
  Z3_solver_inc_ref(ctx, slv);
  Z3_params ps = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, ps);
  Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "timeout"), queryTimeoutMs);
  Z3_solver_set_params(ctx, slv, ps);
  zps = ps;
  for (VarInfo& v : vars) v.e->known = false;
  size_t ci = 0;
  uint64_t unkFlip = 0, unkChk = 0, nchk = 0;
  std::string trail;
  bool budgetOut = false;
  size_t nev = evs.size();
  for (size_t i = 0; i <= nev; i++)
  {
    // checks placed before event i
    while (ci < chks.size() && chks[ci].pos == i)
    {
      Chk& k = chks[ci++];
      if (!(k.cond->v & 1)) continue;  // reported above
      if (k.pos < cur.bound) continue;  // decided on the parent path
      nchk++;
      std::vector<uint64_t> m;
      int r = solve(k.cond, false, &m);
      if (r == 1) putViolation(out, k.msg, m);
      if (r < 0) unkChk++;
    }
    if (i == nev) break;
    Ev& e = evs[i];
    Z3_ast c = asBool(e.cond);
    if (i >= cur.bound && e.site != -2)
    {
      if (now() - t0 > solverBudget) budgetOut = true;
      int r = -1;
      std::vector<uint64_t> m;
      if (!budgetOut) r = solve(e.cond, !e.taken, &m);
      if (r == 1)
      {
        Task t;
        t.in = m;
        t.bound = i + 1;
        t.trail = trail + (e.taken ? '0' : '1');
        uint32_t lim = 0xffffffff;
        if (e.site >= 0)
        {
          lim = e.site;
          auto it = cur.hist.find(e.site);
          if (it != cur.hist.end()) t.hist[e.site] = it->second;
          t.hist[e.site].push_back(e.cval);
        }
        else
        {
          // keep histories of sites that occurred before this event
          uint32_t mx = 0;
          for (size_t j = 0; j < i; j++)
            if (evs[j].site >= 0 && (uint32_t)evs[j].site + 1 > mx) mx = evs[j].site + 1;
          // sites resolved through a history entry have no own event; keep
          // every history whose site number is below the next unseen site
          lim = mx;
        }
        for (auto& kv : cur.hist)
          if (kv.first < lim) t.hist[kv.first] = kv.second;
        putTask(out, t);
      }
      if (r < 0) unkFlip++;
    }
    Z3_solver_assert(ctx, slv, e.taken ? c : Z3_mk_not(ctx, c));
    asserted.push_back({e.cond, e.taken});
    trail += e.taken ? '1' : '0';
  }
  if (z3err) engineError("z3 error");
  out += "S " + std::to_string(kind) + " " + std::to_string(nq) + " " + std::to_string(nsat) + " "
         + std::to_string(nunsat) + " " + std::to_string(nunk) + " " + std::to_string(unkFlip) + " "
         + std::to_string(unkChk) + " " + std::to_string(nchk) + " " + std::to_string(nConcreteChecks)
         + " " + std::to_string((uint64_t)(tsolve * 1e6)) + " " + std::to_string(evs.size()) + " "
         + std::to_string(stConcretized) + " " + std::to_string(stExt) + " "
         + std::to_string(vars.size()) + "\n";
  {
    std::string f;
    size_t k = 0;
    for (FnEnt* e = __start_sx_fn; e < __stop_sx_fn; e++, k++)
      if (e->hit == 1) f += " " + std::to_string(k);
    if (!f.empty()) out += "F" + f + "\n";
  }
  for (auto& r : reached) out += "R " + hexs(r) + "\n";
  for (auto& n : notes) out += "N " + hexs(n.first) + " " + hexs(n.second) + " \n";
  {
    out += "I " + std::to_string(curIn.size());
    for (uint64_t v : curIn) out += " " + std::to_string(v);
    out += "\n";
  }
  out += "D\n";
  writeAll(outFd, out);
  _exit(0);
}

// ----------------------------------------------------------------- sx API
Expr* newVar(const char* name, uint32_t bits)
{
  uint32_t idx = vars.size();
  uint64_t val = idx < cur.in.size() ? cur.in[idx] : 0;
  Expr* e = internVar(bits, idx, val);
  vars.push_back({name, bits, e});
  return e;
}
extern "C" {
uint64_t __sxw_sx_sym(const char* name, unsigned bits)
{
  Expr* e = newVar(name, bits);
  __sx_ret[0] = zext(e, 64);
  __sx_rtok = (void*)__sxw_sx_sym;
  return e->v;
}
void __sxw_sx_sym_mem(const char* name, void* p, size_t n)
{
  for (size_t i = 0; i < n; i++)
  {
    uint32_t idx = vars.size();
    uint64_t val = idx < cur.in.size() ? cur.in[idx] : 0;
    Expr* e = internVar(8, idx, val);
    vars.push_back({std::string(name) + "[" + std::to_string(i) + "]", 8, e});
    ((uint8_t*)p)[i] = e->v;
    shStore((char*)p + i, 1, e);
  }
  __sx_rtok = (void*)__sxw_sx_sym_mem;
}
static Expr* nz(Expr* s, int c)
{
  if (!s) return mkC(1, c != 0);
  return bnot(eq(s, mkC(s->w, 0)));
}
void __sxw_sx_assume(int c)
{
  assume(nz(WARG(__sxw_sx_assume, 0), c));
  __sx_rtok = (void*)__sxw_sx_assume;
}
void __sxw_sx_check(int c, const char* msg)
{
  check(nz(WARG(__sxw_sx_check, 0), c), msg);
  __sx_rtok = (void*)__sxw_sx_check;
}
void __sxw_sx_reach(const char* l)
{
  if (std::find(reached.begin(), reached.end(), l) == reached.end()) reached.push_back(l);
  __sx_rtok = (void*)__sxw_sx_reach;
}
void __sxw_sx_note(const char* k, const char* v)
{
  notes.push_back({k, v});
  __sx_rtok = (void*)__sxw_sx_note;
}
uint64_t __sxw_sx_conc(uint64_t v)
{
  if (Expr* s = WARG(__sxw_sx_conc, 0)) concretizeFull(s);
  __sx_ret[0] = nullptr;
  __sx_rtok = (void*)__sxw_sx_conc;
  return v;
}
int __sxw_sx_guard(void (*f)(void*), void* a, int* code)
{
  jmp_buf j;
  jmp_buf* save = guardJ;
  volatile int k = SX_RETURN;
  guardJ = &j;
  guardCode = 0;
  __sx_callee = nullptr;
  if (setjmp(j) == 0)
  {
    try { f(a); }
    catch (...) { k = SX_TERMINATE; }
  }
  else
    k = guardKind;
  guardJ = save;
  *code = guardCode;
  shClear(code, sizeof(int));
  __sx_ret[0] = nullptr;
  __sx_rtok = (void*)__sxw_sx_guard;
  return k;
}
void __sxw_sx_done() { finish(0, 0); }
int __sxw_sx_symbolic() { return 1; }
int __sxw_sx_tier() { return gTier; }
}

// ------------------------------------------------------------------ driver
static void onSig(int s)
{
  if (finishing) _exit(96);
  if (s == SIGALRM) finish(SX_TIMEOUT, 0);
  if (getenv("SX_TRACE")) fprintf(stderr, "signal %d\n", s);
  finish(SX_SEGV, s);
}
static void onTerm() { finish(SX_TERMINATE, 0); }

static void installHandlers(double tmo)
{
  sigset_t none;
  sigemptyset(&none);
  sigprocmask(SIG_SETMASK, &none, nullptr);
  static char* alt = (char*)mmap(nullptr, 512u << 20, PROT_READ | PROT_WRITE,
                                 MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  stack_t ss;
  ss.ss_sp = alt;
  ss.ss_size = 512u << 20;
  ss.ss_flags = 0;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = onSig;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
  std::set_terminate(onTerm);
  struct itimerval itv;
  memset(&itv, 0, sizeof itv);
  itv.it_value.tv_sec = (long)tmo;
  itv.it_value.tv_usec = (long)((tmo - (long)tmo) * 1e6);
  setitimer(ITIMER_REAL, &itv, nullptr);
}

struct CaseStats
{
  uint64_t paths = 0, infeasible = 0, q = 0, sat = 0, unsat = 0, unk = 0, unkFlip = 0, unkChk = 0,
           chk = 0, cchk = 0, us = 0, evs = 0, conc = 0, ext = 0, maxev = 0, maxvars = 0, engineErr = 0,
           dropped = 0;
  std::map<int, uint64_t> ends;
  std::map<std::string, uint64_t> reach;
  std::map<std::string, uint64_t> notes;
  std::vector<std::vector<uint64_t>> samples;
  std::vector<std::pair<std::string, std::vector<uint64_t>>> viol;
  std::map<std::string, uint64_t> violCount;
  std::vector<std::string> errs;
  double wall = 0;
  bool complete = false;
  uint64_t pending = 0;
};

static std::string jstr(const std::string& s)
{
  std::string r = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
static std::string unhex(const std::string& h)
{
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16);
  return r;
}

struct Child { pid_t pid; int fd; std::string buf; double t0; };

static void runChild(int caseIdx, const Task& t, int fd, double runTmo)
{
  outFd = fd;
  cur = t;
  inRun = true;
  decided = new std::unordered_map<Expr*, bool>();
  installHandlers(runTmo);
  __sx_callee = nullptr;
  try
  {
    sx_cases[caseIdx].run();
  }
  catch (...)
  {
    finish(SX_TERMINATE, 1);
  }
  finish(0, 0);
}

static void parseResult(const std::string& b, CaseStats& st, std::deque<Task>& q, unsigned maxViol)
{
  size_t p = 0;
  bool done = false;
  while (p < b.size())
  {
    size_t e = b.find('\n', p);
    if (e == std::string::npos) break;
    std::string l = b.substr(p, e - p);
    p = e + 1;
    const char* s = l.c_str();
    if (l[0] == 'T')
    {
      Task t;
      char* x;
      t.bound = strtoul(s + 2, &x, 10);
      x++;
      char* y = strchr(x, ' ');
      t.trail.assign(x, y - x);
      if (t.trail == "-") t.trail.clear();
      x = y;
      size_t n = strtoull(x, &x, 10);
      t.in.resize(n);
      for (auto& v : t.in) v = strtoull(x, &x, 10);
      size_t h = strtoull(x, &x, 10);
      for (size_t i = 0; i < h; i++)
      {
        uint32_t k = strtoull(x, &x, 10);
        size_t m = strtoull(x, &x, 10);
        auto& hv = t.hist[k];
        for (size_t j = 0; j < m; j++) hv.push_back(strtoull(x, &x, 10));
      }
      q.push_back(std::move(t));
    }
    else if (l[0] == 'V')
    {
      char* x = (char*)s + 2;
      char* y = strchr(x, ' ');
      std::string msg = unhex(std::string(x, y - x));
      size_t n = strtoull(y, &x, 10);
      std::vector<uint64_t> in(n);
      for (auto& v : in) v = strtoull(x, &x, 10);
      if (st.violCount[msg]++ < 6) st.viol.push_back({msg, in});
    }
    else if (l[0] == 'I')
    {
      char* x = (char*)s + 2;
      size_t n = strtoull(x, &x, 10);
      std::vector<uint64_t> in(n);
      for (auto& v : in) v = strtoull(x, &x, 10);
      if (st.samples.size() < 5 || (st.paths % 97 == 0 && st.samples.size() < 12)) st.samples.push_back(in);
    }
    else if (l[0] == 'S')
    {
      char* x = (char*)s + 2;
      int kind = strtol(x, &x, 10);
      auto g = [&]() { return strtoull(x, &x, 10); };
      if (kind == -1) st.infeasible++; else st.paths++;
      if (kind == -3) st.dropped++;
      st.ends[kind]++;
      st.q += g(); st.sat += g(); st.unsat += g(); st.unk += g(); st.unkFlip += g(); st.unkChk += g();
      st.chk += g(); st.cchk += g(); st.us += g();
      uint64_t ev = g();
      st.evs += ev;
      st.maxev = std::max(st.maxev, ev);
      st.conc += g(); st.ext += g();
      st.maxvars = std::max<uint64_t>(st.maxvars, g());
    }
    else if (l[0] == 'R') st.reach[unhex(l.substr(2))]++;
    else if (l[0] == 'N')
    {
      size_t sp = l.find(' ', 2);
      st.notes[unhex(l.substr(2, sp - 2)) + ": " + unhex(l.substr(sp + 1, l.size() - sp - 2))]++;
    }
    else if (l[0] == 'F')
    {
      char* x = (char*)s + 1;
      while (*x == ' ')
      {
        size_t k = strtoull(x, &x, 10);
        __start_sx_fn[k].hit = 2;  // later children need not report it
        gFns.insert(__start_sx_fn[k].name);
      }
    }
    else if (l[0] == 'E') { st.errs.push_back(l.substr(2)); }
    else if (l[0] == 'D') done = true;
  }
  if (!done)
  {
    st.engineErr++;
    if (st.errs.empty()) st.errs.push_back("child ended without result");
  }
}

static CaseStats explore(int ci, int jobs, double budget, double runTmo, uint64_t maxPaths, bool firstOnly)
{
  CaseStats st;
  std::deque<Task> q;
  q.push_back(Task());
  std::vector<Child> ch;
  double t0 = now();
  bool stop = false;
  while (!q.empty() || !ch.empty())
  {
    if (now() - t0 > budget || st.paths + st.infeasible >= maxPaths) stop = true;
    if (firstOnly && !st.viol.empty()) stop = true;
    if (st.engineErr > 20) stop = true;
    while (!stop && (int)ch.size() < jobs && !q.empty())
    {
      Task t = std::move(q.back());
      q.pop_back();
      int pfd[2];
      if (pipe(pfd)) { perror("pipe"); exit(2); }
      fflush(stdout);
      pid_t pid = fork();
      if (pid < 0) { perror("fork"); exit(2); }
      if (pid == 0)
      {
        close(pfd[0]);
        for (Child& c : ch) close(c.fd);
        runChild(ci, t, pfd[1], runTmo);
      }
      close(pfd[1]);
      ch.push_back({pid, pfd[0], "", now()});
    }
    if (ch.empty()) break;
    std::vector<pollfd> pf;
    for (Child& c : ch) pf.push_back({c.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 200);
    for (size_t i = ch.size(); i-- > 0;)
    {
      if (pf[i].revents & (POLLIN | POLLHUP))
      {
        char buf[65536];
        ssize_t k = read(ch[i].fd, buf, sizeof buf);
        if (k > 0) { ch[i].buf.append(buf, k); continue; }
        close(ch[i].fd);
        int ws;
        waitpid(ch[i].pid, &ws, 0);
        parseResult(ch[i].buf, st, q, 20);
        ch.erase(ch.begin() + i);
      }
      else if (stop && now() - t0 > budget + 30)
      {
        kill(ch[i].pid, SIGKILL);
      }
    }
  }
  st.pending = q.size();
  st.complete = q.empty() && !stop && st.unkFlip == 0 && st.engineErr == 0;
  if (q.empty() && st.unkFlip == 0 && st.engineErr == 0) st.complete = true;
  if (st.dropped || st.violCount.size()) st.complete = false;
  st.wall = now() - t0;
  return st;
}

int main(int argc, char** argv)
{
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE))
  {
    personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  struct rlimit rl = {512u << 20, 512u << 20};
  setrlimit(RLIMIT_STACK, &rl);
  int jobs = 8;
  double budget = 60, total = 1e9, runTmo = 10;
  uint64_t maxPaths = 1ull << 40;
  std::string only, outp;
  bool firstOnly = false, list = false;
  std::vector<uint64_t> one;
  bool haveOne = false;
  for (int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto val = [&]() { return std::string(argv[++i]); };
    if (a == "--jobs") jobs = atoi(val().c_str());
    else if (a == "--budget") budget = atof(val().c_str());
    else if (a == "--total") total = atof(val().c_str());
    else if (a == "--run-timeout") runTmo = atof(val().c_str());
    else if (a == "--max-paths") maxPaths = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--query-timeout") queryTimeoutMs = atoi(val().c_str());
    else if (a == "--case") only = val();
    else if (a == "--out") outp = val();
    else if (a == "--first") firstOnly = true;
    else if (a == "--tier") gTier = atoi(val().c_str());
    else if (a == "--list") list = true;
    else if (a == "--one")
    {
      haveOne = true;
      std::string s = val();
      char* x = (char*)s.c_str();
      while (*x) { one.push_back(strtoull(x, &x, 10)); while (*x == ',') x++; }
    }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (list)
  {
    for (int i = 0; i < sx_ncases; i++) printf("%s\n", sx_cases[i].name);
    return 0;
  }
  if (!loadZ3()) return 2;
  if (sx_setup) sx_setup();
  if (haveOne)
  {
    for (int i = 0; i < sx_ncases; i++)
    {
      if (only == sx_cases[i].name)
      {
        Task t;
        t.in = one;
        runChild(i, t, 1, 1000);
      }
    }
    return 2;
  }
  std::string js = "{\"cases\":[";
  double start = now();
  bool first = true;
  int rc = 0;
  for (int i = 0; i < sx_ncases; i++)
  {
    if (!only.empty() && std::string(sx_cases[i].name).find(only) == std::string::npos) continue;
    double left = total - (now() - start);
    double b = std::min(budget, left);
    if (b < 1) b = 1;
    CaseStats st = explore(i, jobs, b, runTmo, maxPaths, firstOnly);
    fprintf(stderr,
            "%-28s paths=%lu infeasible=%lu q=%lu sat=%lu unsat=%lu unk=%lu checks=%lu+%lu solver=%.1fs conc=%lu ext=%lu maxev=%lu err=%lu pend=%lu %s wall=%.1fs\n",
            sx_cases[i].name, st.paths, st.infeasible, st.q, st.sat, st.unsat, st.unk, st.chk, st.cchk,
            st.us / 1e6, st.conc, st.ext, st.maxev, st.engineErr, st.pending,
            st.complete ? "complete" : "INCOMPLETE", st.wall);
    for (auto& v : st.violCount) fprintf(stderr, "   VIOL x%lu: %s\n", v.second, v.first.c_str());
    for (auto& e : st.errs) { fprintf(stderr, "   ERR %s\n", e.c_str()); break; }
    if (getenv("SX_NOTES"))
      for (auto& e : st.notes) fprintf(stderr, "   NOTE x%lu %s\n", e.second, e.first.c_str());
    if (!first) js += ",";
    first = false;
    js += "\n{\"case\":" + jstr(sx_cases[i].name) + ",\"paths\":" + std::to_string(st.paths)
          + ",\"infeasible\":" + std::to_string(st.infeasible) + ",\"queries\":" + std::to_string(st.q)
          + ",\"sat\":" + std::to_string(st.sat) + ",\"unsat\":" + std::to_string(st.unsat)
          + ",\"unknown\":" + std::to_string(st.unk) + ",\"unknown_checks\":" + std::to_string(st.unkChk)
          + ",\"solver_checks\":" + std::to_string(st.chk) + ",\"path_checks\":" + std::to_string(st.cchk)
          + ",\"solver_s\":" + std::to_string(st.us / 1e6) + ",\"branches\":" + std::to_string(st.evs)
          + ",\"concretized\":" + std::to_string(st.conc) + ",\"external_concretized\":" + std::to_string(st.ext)
          + ",\"max_branches\":" + std::to_string(st.maxev) + ",\"max_vars\":" + std::to_string(st.maxvars)
          + ",\"engine_errors\":" + std::to_string(st.engineErr) + ",\"pending\":" + std::to_string(st.pending)
          + ",\"complete\":" + (st.complete ? "true" : "false") + ",\"wall\":" + std::to_string(st.wall)
          + ",\"errors\":[";
    for (size_t k = 0; k < st.errs.size() && k < 3; k++) js += (k ? "," : "") + jstr(st.errs[k]);
    js += "],\"reach\":{";
    bool f = true;
    for (auto& r : st.reach) { js += (f ? "" : ",") + jstr(r.first) + ":" + std::to_string(r.second); f = false; }
    js += "},\"ends\":{";
    f = true;
    for (auto& r : st.ends) { js += (f ? "" : ",") + jstr(std::to_string(r.first)) + ":" + std::to_string(r.second); f = false; }
    js += "},\"notes\":{";
    f = true;
    int nn = 0;
    for (auto& r : st.notes) { if (nn++ > 40) break; js += (f ? "" : ",") + jstr(r.first) + ":" + std::to_string(r.second); f = false; }
    js += "},\"samples\":[";
    for (size_t k = 0; k < st.samples.size(); k++)
    {
      js += k ? ",[" : "[";
      for (size_t m = 0; m < st.samples[k].size(); m++) js += (m ? "," : "") + std::to_string(st.samples[k][m]);
      js += "]";
    }
    js += "],\"violations\":[";
    for (size_t k = 0; k < st.viol.size(); k++)
    {
      js += (k ? "," : "") + std::string("{\"msg\":") + jstr(st.viol[k].first) + ",\"count\":"
            + std::to_string(st.violCount[st.viol[k].first]) + ",\"inputs\":[";
      for (size_t m = 0; m < st.viol[k].second.size(); m++)
        js += (m ? "," : "") + std::to_string(st.viol[k].second[m]);
      js += "]}";
    }
    js += "]}";
    if (!st.viol.empty()) rc = 1;
    else if (st.engineErr && rc == 0) rc = 3;
  }
  js += "],\"functions\":[";
  {
    bool f = true;
    for (auto& n : gFns) { js += (f ? "" : ",") + jstr(n); f = false; }
  }
  js += "]}\n";
  if (!outp.empty())
  {
    FILE* f = fopen(outp.c_str(), "w");
    fputs(js.c_str(), f);
    fclose(f);
  }
  return rc;
}
