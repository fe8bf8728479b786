// gse - a path-exhaustive symbolic executor for LLVM IR, deciding with Z3.
//
// The IR is that of the real sources plus a harness.  Every value drawn with
// vp_nd()/vp_choice() is a bit-vector variable of the SMT problem; execution forks
// at every branch, address, length or scheduling decision whose outcome the solver
// finds to be undetermined, and each obligation (VP_ASSERT, memory safety,
// allocation discipline, deadlock freedom, termination within the step bound) is
// decided by Z3 for all values satisfying the path condition.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
using namespace llvm;
typedef uint64_t u64;
typedef std::chrono::steady_clock Clock;
static Clock::time_point g_start;
static double now() { return std::chrono::duration<double>(Clock::now() - g_start).count(); }

static z3::context* Z;
static std::vector<z3::expr>* pool;
static std::unordered_map<Z3_ast, int> poolIdx;
static int intern(const z3::expr& e) {
    auto it = poolIdx.find((Z3_ast)e);
    if (it != poolIdx.end()) return it->second;
    int id = (int)pool->size();
    pool->push_back(e);
    poolIdx[(Z3_ast)e] = id;
    return id;
}
struct Val {
    uint16_t w = 0;      // width in bits; 0 = void; 0xffff = aggregate
    bool sym = false;
    u64 c = 0;
    int e = -1;          // expr id when sym, aggregate id when w==0xffff
};
static std::vector<std::vector<Val>> aggs;
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline Val C(unsigned w, u64 v) { Val r; r.w = w; r.c = v & mask(w); return r; }
static inline int64_t sx(u64 v, unsigned w) { if (w >= 64) return (int64_t)v; u64 m = 1ull << (w - 1); return (int64_t)((v ^ m) - m); }
static Val S(unsigned w, const z3::expr& e0, bool simp = false) {
    z3::expr e = simp ? e0.simplify() : e0;
    if (w == 1) {
        if (e.is_true()) return C(1, 1);
        if (e.is_false()) return C(1, 0);
    } else if (e.is_numeral()) {
        uint64_t u; if (e.is_numeral_u64(u)) return C(w, u);
    }
    Val r; r.w = w; r.sym = true; r.e = intern(e); return r;
}
static z3::expr X(const Val& v) {
    if (v.sym) return (*pool)[v.e];
    if (v.w == 1) return Z->bool_val(v.c & 1);
    return Z->bv_val((uint64_t)v.c, v.w);
}
static z3::expr asBV(const Val& v) { // i1 -> bv1
    if (v.w != 1) return X(v);
    return z3::ite(X(v), Z->bv_val(1, 1), Z->bv_val(0, 1));
}

// ---------------------------------------------------------------- memory
struct Byte { int e; uint8_t c; uint8_t idx; };   // e==-1 concrete, e==-2 uninitialised, else byte idx of expr e
enum Kind { K_HEAP, K_STACK, K_GLOBAL, K_CONST };
struct Object {
    u64 base, size; Kind kind; bool alive = true; int id;
    std::vector<Byte> b; std::string name;
};
typedef std::shared_ptr<Object> ObjP;

struct Node { std::shared_ptr<Node> parent; z3::expr e; int depth; Node(std::shared_ptr<Node> p, const z3::expr& x) : parent(p), e(x), depth(p ? p->depth + 1 : 1) {} };
typedef std::shared_ptr<Node> NodeP;

struct FnInfo { std::unordered_map<const Value*, int> num; int n = 0; bool repo = false; };
struct Frame {
    Function* f; FnInfo* fi; BasicBlock* bb; BasicBlock* prev; BasicBlock::iterator it;
    std::vector<Val> loc; std::vector<int> allocas; const CallBase* call;
};
enum TStat { T_RUN, T_BLOCK, T_DONE };
struct Thread { std::vector<Frame> st; TStat stat = T_RUN; u64 key = 0; bool atomic = false; };
// happens-before race detection: accesses of the real code per object, ordered by vector clocks
enum { MAXT = 8 };
struct VC { uint16_t c[MAXT]; VC() { memset(c, 0, sizeof c); } void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Acc { uint32_t off, len; uint16_t clk; uint8_t tid; bool wr; const Instruction* I; };
typedef std::shared_ptr<std::vector<Acc>> AccP;
struct State {
    std::vector<ObjP> objs;
    std::vector<u64> bases;
    u64 nextAddr = 0;
    NodeP pc;
    std::shared_ptr<z3::model> model;
    std::vector<Thread> th; int cur = 0;
    std::vector<int> inputs; // expr ids or ~const for schedule choices
    std::vector<u64> inputsConst; // parallel: value when input already concrete
    int nsym = 0, nun = 0;
    int preempts = 0;
    u64 instrs = 0; unsigned forks = 0;
    bool skipPoint = false, hold = false;
    std::vector<VC> vc; std::map<u64, VC> sync; std::unordered_map<u64, AccP> acc;
    std::vector<std::string> notes;
};
typedef std::unique_ptr<State> StateP;

// ---------------------------------------------------------------- globals
static Module* M; static const DataLayout* DL;
static std::vector<StateP> work;
static std::unordered_map<const Function*, FnInfo> fnInfo;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::map<u64, Function*> faddr;
static std::set<std::string> coveredFns, reachedWit, allWit, assertsSeen;
struct Viol { std::string kind, msg, loc, stack; std::vector<u64> in; bool hang = false; };
static std::vector<Viol> viols;
static std::vector<std::vector<u64>> samples;
static u64 nPaths, nForks, nQueries, nSat, nUnsat, nUnknown, nInstr, nAsserts, nAssertSym, nStopped, nMemChecks, nPathsDone, nRaceChecks;
static double tSolver;
static std::string incomplete;
static u64 optMaxInstr = 3000000, optMaxPaths = 5000000; static double optTime = 600; static int optPreempt = 2; static unsigned optConcLimit = 4096; static int optSamples = 6; static bool optMemPoints = false; static int optMaxViol = 1; static std::string optOwn;
static z3::solver* SOL; static std::vector<NodeP> asserted;

static std::string locOf(const Instruction* I) {
    if (const DILocation* d = I->getDebugLoc().get()) return d->getFilename().str() + ":" + std::to_string(d->getLine());
    return I->getFunction()->getName().str();
}
static std::string stackOf(State& s) {
    std::string r;
    auto& st = s.th[s.cur].st;
    for (int i = (int)st.size() - 1; i >= 0 && i > (int)st.size() - 12; i--) {
        if (!r.empty()) r += " < ";
        r += st[i].f->getName().str();
        if (st[i].it != st[i].bb->end()) r += "@" + locOf(&*st[i].it);
    }
    return r;
}
// ---------------------------------------------------------------- solver
static void syncSolver(State& s) {
    std::vector<NodeP> chain;
    for (NodeP n = s.pc; n; n = n->parent) chain.push_back(n);
    size_t n = chain.size(), common = 0;
    while (common < n && common < asserted.size() && asserted[common] == chain[n - 1 - common]) common++;
    if (asserted.size() > common) { SOL->pop((unsigned)(asserted.size() - common)); asserted.resize(common); }
    for (size_t i = common; i < n; i++) { SOL->push(); SOL->add(chain[n - 1 - i]->e); asserted.push_back(chain[n - 1 - i]); }
}
// 1 sat, 0 unsat
static int check(State& s, const z3::expr& cond, std::shared_ptr<z3::model>* out) {
    double t0 = now();
    syncSolver(s);
    SOL->push(); SOL->add(cond);
    nQueries++;
    z3::check_result r = SOL->check();
    if (r == z3::sat && out) *out = std::make_shared<z3::model>(SOL->get_model());
    SOL->pop();
    tSolver += now() - t0;
    if (r == z3::sat) { nSat++; return 1; }
    if (r == z3::unsat) { nUnsat++; return 0; }
    nUnknown++; incomplete = "solver returned unknown"; return 0;
}
static void addC(State& s, const z3::expr& e) { s.pc = std::make_shared<Node>(s.pc, e); }
static bool evalB(State& s, const z3::expr& e) { return s.model->eval(e, true).is_true(); }
static u64 evalV(State& s, const Val& v) {
    if (!v.sym) return v.c;
    z3::expr r = s.model->eval(X(v), true);
    if (v.w == 1) return r.is_true();
    uint64_t u = 0; r.is_numeral_u64(u); return u;
}
static StateP clone(State& s) { nForks++; s.forks++; return StateP(new State(s)); }

struct PathEnd {};
static std::vector<u64> inputsOf(State& s, z3::model& m) {
    std::vector<u64> r;
    for (size_t i = 0; i < s.inputs.size(); i++) {
        if (s.inputs[i] < 0) { r.push_back(s.inputsConst[i]); continue; }
        z3::expr v = m.eval((*pool)[s.inputs[i]], true);
        uint64_t u = 0; v.is_numeral_u64(u); r.push_back(u);
    }
    return r;
}
static void report(State& s, const std::string& kind, const std::string& msg, std::shared_ptr<z3::model> m, const Instruction* I) {
    std::string loc = I ? locOf(I) : "";
    for (auto& v : viols) if (v.kind == kind && v.msg == msg && v.loc == loc) return;
    Viol v; v.kind = kind; v.msg = msg; v.loc = loc; v.stack = stackOf(s);
    v.in = inputsOf(s, *m); v.hang = kind == "nontermination" || kind == "deadlock";
    for (auto& n : s.notes) v.stack += " | " + n;
    viols.push_back(v);
    fprintf(stderr, "gse: %s: %s at %s\n", kind.c_str(), msg.c_str(), loc.c_str());
}
[[noreturn]] static void endPath() { throw PathEnd(); }
static void fatal(State& s, const std::string& msg, const Instruction* I) {
    incomplete = "unsupported: " + msg + (I ? " at " + locOf(I) : "") + " [" + stackOf(s) + "]";
    fprintf(stderr, "gse: %s\n", incomplete.c_str());
    endPath();
}
// decide a symbolic condition: current state continues with the returned outcome; the
// other outcome, when feasible, is queued (re-executing the current instruction).
static bool decide(State& s, const Val& cv) {
    if (!cv.sym) return cv.c & 1;
    z3::expr c = X(cv);
    bool b = evalB(s, c);
    std::shared_ptr<z3::model> m;
    z3::expr other = b ? !c : c;
    if (check(s, other, &m)) {
        StateP o = clone(s);
        addC(*o, other); o->model = m;
        work.push_back(std::move(o));
        addC(s, b ? c : !c);
    }
    return b;
}
static u64 concretize(State& s, const Val& v) {
    if (!v.sym) return v.c;
    u64 x = evalV(s, v);
    z3::expr eq = v.w == 1 ? (x ? X(v) : !X(v)) : (X(v) == Z->bv_val((uint64_t)x, v.w));
    std::shared_ptr<z3::model> m;
    if (check(s, !eq, &m)) {
        StateP o = clone(s);
        addC(*o, !eq); o->model = m;
        if (o->forks > optConcLimit * 64) { incomplete = "too many forks on one path"; endPath(); }
        work.push_back(std::move(o));
        addC(s, eq);
    }
    return x;
}
static void assume(State& s, const Val& cv) {
    if (!cv.sym) { if (!(cv.c & 1)) { nStopped++; endPath(); } return; }
    z3::expr c = X(cv);
    if (!evalB(s, c)) {
        std::shared_ptr<z3::model> m;
        if (!check(s, c, &m)) { nStopped++; endPath(); }
        s.model = m;
    }
    addC(s, c);
}
// ---------------------------------------------------------------- memory ops
static Object& wobj(State& s, int i) { // writable
    if (s.objs[i].use_count() > 1) s.objs[i] = std::make_shared<Object>(*s.objs[i]);
    return *s.objs[i];
}
static int addObj(State& s, u64 size, Kind k, const std::string& name, bool zero) {
    ObjP o = std::make_shared<Object>();
    u64 a = (s.nextAddr + 63) & ~63ull;
    if (k == K_HEAP) a += 0; 
    o->base = a; o->size = size; o->kind = k; o->id = (int)s.objs.size(); o->name = name;
    Byte z = { zero ? -1 : -2, 0, 0 };
    o->b.assign(size, z);
    s.nextAddr = a + size + 4096 + 64; // guard gap between objects
    s.objs.push_back(o); s.bases.push_back(a);
    return o->id;
}
static int findObj(State& s, u64 a) {
    auto it = std::upper_bound(s.bases.begin(), s.bases.end(), a);
    if (it == s.bases.begin()) return -1;
    int i = (int)(it - s.bases.begin()) - 1;
    Object& o = *s.objs[i];
    if (a <= o.base + o.size) return i;
    return -1;
}
static std::string descr(State& s, u64 a, u64 n) {
    // nearest object below or containing
    auto it = std::upper_bound(s.bases.begin(), s.bases.end(), a);
    char buf[256];
    if (a < 4096) { snprintf(buf, sizeof buf, "null pointer access"); return buf; }
    if (it == s.bases.begin()) { snprintf(buf, sizeof buf, "wild pointer"); return buf; }
    Object& o = *s.objs[(int)(it - s.bases.begin()) - 1];
    snprintf(buf, sizeof buf, "%llu bytes at offset %lld of a %s%llu-byte %s object", (unsigned long long)n, (long long)(a - o.base), o.alive ? "" : "freed ", (unsigned long long)o.size,
        o.kind == K_HEAP ? "heap" : o.kind == K_STACK ? "stack" : "global");
    return buf;
}
static void memErr(State& s, const char* what, u64 a, u64 n, const Instruction* I) {
    report(s, "memory", std::string(what) + ": " + descr(s, a, n), s.model, I);
    endPath();
}
static bool inb(Object& o, u64 a, u64 n) { return o.alive && a >= o.base && a + n <= o.base + o.size && a + n >= a; }
// resolve a pointer to (object, concrete offset); forks for symbolic pointers
static int resolve(State& s, const Val& p, u64 n, u64& off, const char* what, const Instruction* I) {
    nMemChecks++;
    if (!p.sym) {
        int i = findObj(s, p.c);
        if (i < 0 || !inb(*s.objs[i], p.c, n)) memErr(s, what, p.c, n, I);
        off = p.c - s.objs[i]->base;
        return i;
    }
    u64 a = evalV(s, p);
    int i = findObj(s, a);
    if (i < 0 || !inb(*s.objs[i], a, n)) {
        // the model of this path is a counterexample: out of bounds
        memErr(s, what, a, n, I);
    }
    a = concretize(s, p);
    off = a - s.objs[i]->base;
    return i;
}
// an access of the real code to [off, off+n) of object oi: does another thread's access race with it?
static void race(State& s, int oi, u64 off, u64 n, bool wr, const Instruction* I) {
    if (s.th.size() < 2 || !n || s.th[s.cur].atomic) return;
    Object& o = *s.objs[oi];
    if (o.kind == K_CONST) return;
    nRaceChecks++;
    AccP& p = s.acc[o.base];
    if (!p) p = std::make_shared<std::vector<Acc>>();
    else if (p.use_count() > 1) p = std::make_shared<std::vector<Acc>>(*p);
    std::vector<Acc>& v = *p;
    const VC& me = s.vc[s.cur];
    size_t k = 0;
    for (size_t i = 0; i < v.size(); i++) {
        Acc& a = v[i];
        bool over = a.off < off + n && off < a.off + a.len, before = a.tid == s.cur || a.clk <= me.c[a.tid];
        if (over && (wr || a.wr) && !before) {
            std::string w1 = a.I ? a.I->getFunction()->getName().str() : "the harness", w2 = I ? I->getFunction()->getName().str() : "the harness";
            s.notes.push_back("earlier access at " + (a.I ? locOf(a.I) : std::string("?")));
            report(s, "race", std::string("data race: ") + (wr ? "write in " : "read in ") + w2 + " against " + (a.wr ? "write in " : "read in ") + w1 + " of another thread", s.model, I);
            endPath();
        }
        bool covered = a.off >= off && a.off + a.len <= off + n && before && (wr || (!a.wr && a.tid == s.cur));
        if (!covered) { if (k != i) v[k] = a; k++; }
    }
    v.resize(k);
    v.push_back(Acc{ (uint32_t)off, (uint32_t)n, me.c[s.cur], (uint8_t)s.cur, wr, I });
}
static void acquireKey(State& s, u64 key) { auto it = s.sync.find(key); if (it != s.sync.end()) s.vc[s.cur].join(it->second); }
static void releaseKey(State& s, u64 key) { s.sync[key].join(s.vc[s.cur]); s.vc[s.cur].c[s.cur]++; }
static Val freshUninit(State& s, Object& o, u64 off) {
    std::string nm = "un_" + std::to_string(o.id) + "_" + std::to_string(off) + "_" + std::to_string(s.nun++);
    return S(8, Z->bv_const(nm.c_str(), 8));
}
static Val byteVal(State& s, int oi, u64 off) {
    Byte b = s.objs[oi]->b[off];
    if (b.e == -1) return C(8, b.c);
    if (b.e == -2) {
        Val v = freshUninit(s, *s.objs[oi], off);
        Object& o = wobj(s, oi);
        o.b[off].e = v.e; o.b[off].idx = 0;
        return v;
    }
    z3::expr e = (*pool)[b.e];
    unsigned w = e.get_sort().bv_size();
    if (w == 8) { Val r; r.w = 8; r.sym = true; r.e = b.e; return r; }
    return S(8, e.extract(8 * b.idx + 7, 8 * b.idx), true);
}
static Val loadRaw(State& s, int oi, u64 off, unsigned n) { // n bytes <= 8
    const std::vector<Byte>& b = s.objs[oi]->b;
    bool allc = true;
    for (unsigned i = 0; i < n; i++) if (b[off + i].e != -1) { allc = false; break; }
    if (allc) { u64 v = 0; for (unsigned i = 0; i < n; i++) v |= (u64)b[off + i].c << (8 * i); return C(8 * n, v); }
    int e0 = b[off].e;
    if (e0 >= 0) {
        bool same = true;
        for (unsigned i = 0; i < n; i++) if (b[off + i].e != e0 || b[off + i].idx != i) { same = false; break; }
        if (same && (*pool)[e0].get_sort().bv_size() == 8 * n) { Val r; r.w = 8 * n; r.sym = true; r.e = e0; return r; }
    }
    Val r = byteVal(s, oi, off);
    z3::expr acc = X(r);
    for (unsigned i = 1; i < n; i++) { Val bv = byteVal(s, oi, off + i); acc = z3::concat(X(bv), acc); }
    return S(8 * n, acc, true);
}
static void storeRaw(State& s, int oi, u64 off, const Val& v) { // width multiple of 8
    Object& o = wobj(s, oi);
    unsigned n = v.w / 8;
    for (unsigned i = 0; i < n; i++) {
        Byte& b = o.b[off + i];
        if (!v.sym) { b.e = -1; b.c = (uint8_t)(v.c >> (8 * i)); b.idx = 0; }
        else { b.e = v.e; b.idx = (uint8_t)i; }
    }
}
// ---------------------------------------------------------------- values
static unsigned widthOf(Type* t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    return 0xffff;
}
static Val mkAgg(std::vector<Val> v) { Val r; r.w = 0xffff; r.e = (int)aggs.size(); aggs.push_back(std::move(v)); return r; }
static Val undefOf(State& s, Type* t) {
    if (t->isStructTy() || t->isArrayTy()) {
        std::vector<Val> v; unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) v.push_back(undefOf(s, t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()));
        return mkAgg(v);
    }
    unsigned w = widthOf(t);
    return C(w, 0);
}
static Val constVal(State& s, const Constant* c);
static u64 gepConst(State& s, const GEPOperator* g) {
    u64 base = constVal(s, cast<Constant>(g->getPointerOperand())).c;
    APInt off(64, 0);
    if (!g->accumulateConstantOffset(*DL, off)) fatal(s, "constant gep", nullptr);
    return base + (u64)off.getSExtValue();
}
static Val constVal(State& s, const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() > 64) fatal(s, "wide constant", nullptr);
        return C(ci->getBitWidth(), ci->getZExtValue());
    }
    if (isa<ConstantPointerNull>(c)) return C(64, 0);
    if (auto* f = dyn_cast<ConstantFP>(c)) { unsigned w = widthOf(f->getType()); return C(w, f->getValueAPF().bitcastToAPInt().getZExtValue()); }
    if (auto* g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) fatal(s, "unknown global " + g->getName().str(), nullptr); return C(64, it->second); }
    if (isa<UndefValue>(c)) return undefOf(s, c->getType());
    if (isa<ConstantAggregateZero>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataSequential>(c)) {
        std::vector<Val> v; Type* t = c->getType();
        unsigned n = t->isStructTy() ? t->getStructNumElements() : (unsigned)t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) v.push_back(constVal(s, c->getAggregateElement(i)));
        return mkAgg(v);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (auto* g = dyn_cast<GEPOperator>(ce)) return C(64, gepConst(s, g));
        switch (ce->getOpcode()) {
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: {
                Val v = constVal(s, ce->getOperand(0)); return C(widthOf(ce->getType()), v.c); }
            case Instruction::Add: return C(widthOf(ce->getType()), constVal(s, ce->getOperand(0)).c + constVal(s, ce->getOperand(1)).c);
            case Instruction::Sub: return C(widthOf(ce->getType()), constVal(s, ce->getOperand(0)).c - constVal(s, ce->getOperand(1)).c);
            default: break;
        }
    }
    std::string str; raw_string_ostream os(str); c->print(os);
    fatal(s, "constant " + str, nullptr); return C(1, 0);
}
static Val get(State& s, Frame& f, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constVal(s, c);
    return f.loc[f.fi->num.at(v)];
}
static void setv(Frame& f, const Value* v, const Val& x) { f.loc[f.fi->num.at(v)] = x; }

static void storeVal(State& s, Type* t, const Val& v, int oi, u64 off) {
    if (t->isStructTy()) {
        auto* sl = DL->getStructLayout(cast<StructType>(t));
        for (unsigned i = 0; i < t->getStructNumElements(); i++) storeVal(s, t->getStructElementType(i), aggs[v.e][i], oi, off + sl->getElementOffset(i));
        return;
    }
    if (t->isArrayTy()) {
        u64 es = DL->getTypeAllocSize(t->getArrayElementType());
        for (unsigned i = 0; i < t->getArrayNumElements(); i++) storeVal(s, t->getArrayElementType(), aggs[v.e][i], oi, off + i * es);
        return;
    }
    if (v.w % 8 == 0) { storeRaw(s, oi, off, v); return; }
    unsigned w = (unsigned)DL->getTypeStoreSize(t) * 8;
    if (!v.sym) storeRaw(s, oi, off, C(w, v.c));
    else storeRaw(s, oi, off, S(w, z3::zext(asBV(v), w - v.w), true));
}
static Val loadVal(State& s, Type* t, int oi, u64 off) {
    if (t->isStructTy()) {
        auto* sl = DL->getStructLayout(cast<StructType>(t)); std::vector<Val> v;
        for (unsigned i = 0; i < t->getStructNumElements(); i++) v.push_back(loadVal(s, t->getStructElementType(i), oi, off + sl->getElementOffset(i)));
        return mkAgg(v);
    }
    if (t->isArrayTy()) {
        u64 es = DL->getTypeAllocSize(t->getArrayElementType()); std::vector<Val> v;
        for (unsigned i = 0; i < t->getArrayNumElements(); i++) v.push_back(loadVal(s, t->getArrayElementType(), oi, off + i * es));
        return mkAgg(v);
    }
    unsigned w = widthOf(t), n = (unsigned)DL->getTypeStoreSize(t);
    if (n > 8) fatal(s, "load of wide type", nullptr);
    Val r = loadRaw(s, oi, off, n);
    if (w == 8 * n) return r;
    if (!r.sym) return C(w, r.c);
    if (w == 1) return S(1, X(r).extract(0, 0) == Z->bv_val(1, 1), true);
    return S(w, X(r).extract(w - 1, 0), true);
}
// ---------------------------------------------------------------- arithmetic
static Val binop(State& s, unsigned op, const Val& a, const Val& b, const Instruction* I) {
    unsigned w = a.w;
    if (!a.sym && !b.sym) {
        u64 x = a.c, y = b.c;
        switch (op) {
            case Instruction::Add: return C(w, x + y);
            case Instruction::Sub: return C(w, x - y);
            case Instruction::Mul: return C(w, x * y);
            case Instruction::And: return C(w, x & y);
            case Instruction::Or: return C(w, x | y);
            case Instruction::Xor: return C(w, x ^ y);
            case Instruction::Shl: return C(w, y >= w ? 0 : x << y);
            case Instruction::LShr: return C(w, y >= w ? 0 : x >> y);
            case Instruction::AShr: return C(w, (u64)(sx(x, w) >> (y >= w ? w - 1 : y)));
            case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
                if (!y) { report(s, "arith", "division by zero", s.model, I); endPath(); }
                if (op == Instruction::UDiv) return C(w, x / y);
                if (op == Instruction::URem) return C(w, x % y);
                if (op == Instruction::SDiv) return C(w, sx(y, w) == -1 ? 0 - x : (u64)(sx(x, w) / sx(y, w)));
                return C(w, sx(y, w) == -1 ? 0 : (u64)(sx(x, w) % sx(y, w)));
        }
        fatal(s, "binop", I);
    }
    if (w == 1) {
        z3::expr x = X(a), y = X(b);
        switch (op) {
            case Instruction::And: return S(1, x && y, true);
            case Instruction::Or: return S(1, x || y, true);
            case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return S(1, x != y, true);
        }
        fatal(s, "i1 binop", I);
    }
    // identities
    if (!b.sym) {
        if (b.c == 0 && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr)) return a;
        if (b.c == 0 && (op == Instruction::And || op == Instruction::Mul)) return C(w, 0);
        if (b.c == 1 && (op == Instruction::Mul || op == Instruction::UDiv || op == Instruction::SDiv)) return a;
        if (b.c == mask(w) && op == Instruction::And) return a;
    }
    if (!a.sym) {
        if (a.c == 0 && (op == Instruction::Add || op == Instruction::Or || op == Instruction::Xor)) return b;
        if (a.c == 0 && (op == Instruction::And || op == Instruction::Mul)) return C(w, 0);
    }
    z3::expr x = X(a), y = X(b);
    switch (op) {
        case Instruction::Add: return S(w, x + y, true);
        case Instruction::Sub: return S(w, x - y, true);
        case Instruction::Mul: return S(w, x * y);
        case Instruction::And: return S(w, x & y, true);
        case Instruction::Or: return S(w, x | y, true);
        case Instruction::Xor: return S(w, x ^ y);
        case Instruction::Shl: return S(w, z3::shl(x, y), true);
        case Instruction::LShr: return S(w, z3::lshr(x, y), true);
        case Instruction::AShr: return S(w, z3::ashr(x, y), true);
        default: break;
    }
    // division: the divisor may be zero
    Val nz = S(1, y != Z->bv_val(0, w), true);
    if (!decide(s, nz)) { report(s, "arith", "division by zero", s.model, I); endPath(); }
    switch (op) {
        case Instruction::UDiv: return S(w, z3::udiv(x, y));
        case Instruction::URem: return S(w, z3::urem(x, y));
        case Instruction::SDiv: return S(w, x / y);
        case Instruction::SRem: return S(w, z3::srem(x, y));
    }
    fatal(s, "binop", I); return a;
}
static Val icmp(State& s, CmpInst::Predicate p, const Val& a, const Val& b) {
    unsigned w = a.w;
    if (!a.sym && !b.sym) {
        u64 x = a.c, y = b.c; int64_t sx_ = sx(x, w), sy_ = sx(y, w);
        switch (p) {
            case CmpInst::ICMP_EQ: return C(1, x == y); case CmpInst::ICMP_NE: return C(1, x != y);
            case CmpInst::ICMP_UGT: return C(1, x > y); case CmpInst::ICMP_UGE: return C(1, x >= y);
            case CmpInst::ICMP_ULT: return C(1, x < y); case CmpInst::ICMP_ULE: return C(1, x <= y);
            case CmpInst::ICMP_SGT: return C(1, sx_ > sy_); case CmpInst::ICMP_SGE: return C(1, sx_ >= sy_);
            case CmpInst::ICMP_SLT: return C(1, sx_ < sy_); case CmpInst::ICMP_SLE: return C(1, sx_ <= sy_);
            default: break;
        }
    }
    if (w == 1) {
        if (p == CmpInst::ICMP_EQ) return S(1, X(a) == X(b), true);
        if (p == CmpInst::ICMP_NE) return S(1, X(a) != X(b), true);
    }
    z3::expr x = asBV(a), y = asBV(b);
    switch (p) {
        case CmpInst::ICMP_EQ: return S(1, x == y, true); case CmpInst::ICMP_NE: return S(1, x != y, true);
        case CmpInst::ICMP_UGT: return S(1, z3::ugt(x, y), true); case CmpInst::ICMP_UGE: return S(1, z3::uge(x, y), true);
        case CmpInst::ICMP_ULT: return S(1, z3::ult(x, y), true); case CmpInst::ICMP_ULE: return S(1, z3::ule(x, y), true);
        case CmpInst::ICMP_SGT: return S(1, x > y, true); case CmpInst::ICMP_SGE: return S(1, x >= y, true);
        case CmpInst::ICMP_SLT: return S(1, x < y, true); case CmpInst::ICMP_SLE: return S(1, x <= y, true);
        default: break;
    }
    fatal(s, "icmp", nullptr); return a;
}
static Val castv(State& s, unsigned op, const Val& a, unsigned w, const Instruction* I) {
    switch (op) {
        case Instruction::BitCast: { Val r = a; return r; }
        case Instruction::PtrToInt: case Instruction::IntToPtr:
            if (w == a.w) return a;
            if (w < a.w) { if (!a.sym) return C(w, a.c); return S(w, X(a).extract(w - 1, 0), true); }
            if (!a.sym) return C(w, a.c); return S(w, z3::zext(asBV(a), w - a.w), true);
        case Instruction::Trunc:
            if (!a.sym) return C(w, a.c);
            if (w == 1) return S(1, X(a).extract(0, 0) == Z->bv_val(1, 1), true);
            return S(w, X(a).extract(w - 1, 0), true);
        case Instruction::ZExt:
            if (!a.sym) return C(w, a.c);
            if (a.w == 1) return S(w, z3::ite(X(a), Z->bv_val(1, w), Z->bv_val(0, w)));
            return S(w, z3::zext(X(a), w - a.w), true);
        case Instruction::SExt:
            if (!a.sym) return C(w, (u64)sx(a.c, a.w));
            if (a.w == 1) return S(w, z3::ite(X(a), Z->bv_val((int64_t)-1, w), Z->bv_val(0, w)));
            return S(w, z3::sext(X(a), w - a.w), true);
    }
    fatal(s, "cast", I); return a;
}
// ---------------------------------------------------------------- floating point (values are kept as IEEE bit patterns)
static double asF(u64 c, unsigned w) { if (w == 32) { float f; uint32_t u = (uint32_t)c; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static u64 fromF(double d, unsigned w) { if (w == 32) { float f = (float)d; uint32_t u; memcpy(&u, &f, 4); return u; } u64 u; memcpy(&u, &d, 8); return u; }
static z3::expr toFP(const Val& v) { z3::sort fs = v.w == 32 ? Z->fpa_sort<32>() : Z->fpa_sort<64>(); return asBV(v).mk_from_ieee_bv(fs); }
// the machine keeps sign and payload of a NaN operand and makes it quiet; a produced NaN is the default one
static z3::expr fromFP(const z3::expr& f, unsigned w, const z3::expr& nan) {
    return z3::ite(f.mk_is_nan(), nan, f.mk_to_ieee_bv());
}
static z3::expr quiet(const Val& v) { return asBV(v) | Z->bv_val((uint64_t)1 << (v.w == 32 ? 22 : 51), v.w); }
static Val fcast(State& s, unsigned op, const Val& a, unsigned w, const Instruction* I) {
    if (!a.sym) switch (op) {
        case Instruction::FPExt: case Instruction::FPTrunc: {
            volatile double d = asF(a.c, a.w); return C(w, fromF(d, w)); }
        case Instruction::SIToFP: return C(w, w == 32 ? fromF((double)(float)sx(a.c, a.w), 32) : fromF((double)sx(a.c, a.w), 64));
        case Instruction::UIToFP: return C(w, w == 32 ? fromF((double)(float)(a.c & mask(a.w)), 32) : fromF((double)(a.c & mask(a.w)), 64));
        case Instruction::FPToSI: return C(w, (u64)(int64_t)asF(a.c, a.w));
        case Instruction::FPToUI: { double d = asF(a.c, a.w); return C(w, d < 0 ? (u64)(int64_t)d : (u64)d); }
    }
    else {
        Z->set_rounding_mode(z3::RNE);
        z3::sort fs = w == 32 ? Z->fpa_sort<32>() : Z->fpa_sort<64>();
        switch (op) {
            case Instruction::FPExt: {
                z3::expr q = quiet(a), sg = q.extract(31, 31), pl = q.extract(22, 0);
                z3::expr n = z3::concat(z3::concat(sg, Z->bv_val(0x7ff, 11)), z3::concat(pl, Z->bv_val(0, 29)));
                return S(w, fromFP(z3::fpa_to_fpa(toFP(a), fs), w, n));
            }
            case Instruction::FPTrunc: {
                z3::expr q = quiet(a), sg = q.extract(63, 63), pl = q.extract(51, 29);
                z3::expr n = z3::concat(z3::concat(sg, Z->bv_val(0xff, 8)), pl);
                return S(w, fromFP(z3::fpa_to_fpa(toFP(a), fs), w, n));
            }
            case Instruction::SIToFP: return S(w, z3::sbv_to_fpa(asBV(a), fs).mk_to_ieee_bv());
            case Instruction::UIToFP: return S(w, z3::ubv_to_fpa(asBV(a), fs).mk_to_ieee_bv());
            case Instruction::FPToSI: Z->set_rounding_mode(z3::RTZ); { z3::expr r = z3::fpa_to_sbv(toFP(a), w); Z->set_rounding_mode(z3::RNE); return S(w, r); }
            case Instruction::FPToUI: Z->set_rounding_mode(z3::RTZ); { z3::expr r = z3::fpa_to_ubv(toFP(a), w); Z->set_rounding_mode(z3::RNE); return S(w, r); }
        }
    }
    fatal(s, "float cast", I); return a;
}
static Val fop(State& s, unsigned op, const Val& a, const Val& b, const Instruction* I) {
    unsigned w = a.w;
    if (!a.sym && !b.sym) {
        if (w == 32) {
            volatile float x = (float)asF(a.c, 32), y = (float)asF(b.c, 32), r = 0;
            switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: fatal(s, "float op", I); }
            float q = r; uint32_t u; memcpy(&u, &q, 4); return C(32, u);
        }
        volatile double x = asF(a.c, 64), y = asF(b.c, 64), r = 0;
        switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: fatal(s, "float op", I); }
        return C(64, fromF(r, 64));
    }
    Z->set_rounding_mode(z3::RNE);
    z3::expr x = toFP(a), y = toFP(b), r = x;
    switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: fatal(s, "float op", I); }
    z3::expr dflt = w == 32 ? Z->bv_val((uint64_t)0xffc00000u, 32) : Z->bv_val((uint64_t)0xfff8000000000000ull, 64);
    z3::expr n = z3::ite(x.mk_is_nan(), quiet(a), z3::ite(y.mk_is_nan(), quiet(b), dflt));
    return S(w, fromFP(r, w, n));
}
static Val fcmp(State& s, CmpInst::Predicate p, const Val& a, const Val& b, const Instruction* I) {
    if (!a.sym && !b.sym) {
        double x = asF(a.c, a.w), y = asF(b.c, b.w); bool un = x != x || y != y, lt = x < y, gt = x > y, eq = x == y;
        return C(1, ((p & 1) && eq) || ((p & 2) && gt) || ((p & 4) && lt) || ((p & 8) && un));
    }
    z3::expr x = toFP(a), y = toFP(b), r = Z->bool_val(false); // predicates are bit sets: equal 1, greater 2, less 4, unordered 8
    if (p & 1) r = r || z3::fp_eq(x, y);
    if (p & 2) r = r || x > y;
    if (p & 4) r = r || x < y;
    if (p & 8) r = r || x.mk_is_nan() || y.mk_is_nan();
    return S(1, r, true);
}
// ---------------------------------------------------------------- threads
static Val newInput(State& s, unsigned w) {
    std::string nm = "in_" + std::to_string(s.nsym++) + "_" + std::to_string(w);
    Val v = S(w, Z->bv_const(nm.c_str(), w));
    s.inputs.push_back(v.e); s.inputsConst.push_back(0);
    return v;
}
// choose one of n alternatives; forks over all of them; recorded as an input
static unsigned choose(State& s, unsigned n) {
    for (unsigned i = 1; i < n; i++) {
        StateP o = clone(s);
        o->inputs.push_back(-1); o->inputsConst.push_back(i);
        o->notes.clear();
        // the alternative is applied by the caller through pendingChoice
        o->skipPoint = true;
        work.push_back(std::move(o));
    }
    s.inputs.push_back(-1); s.inputsConst.push_back(0);
    return 0;
}
static std::vector<int> runnable(State& s, bool exceptCur) {
    std::vector<int> r;
    for (int i = 0; i < (int)s.th.size(); i++) if (s.th[i].stat == T_RUN && !(exceptCur && i == s.cur)) r.push_back(i);
    return r;
}
static void switchTo(State& s, const std::vector<int>& opts) { // opts non-empty; fork one state per option
    for (size_t i = 1; i < opts.size(); i++) {
        StateP o = clone(s);
        o->inputs.push_back(-1); o->inputsConst.push_back((u64)opts[i]);
        o->cur = opts[i];
        work.push_back(std::move(o));
    }
    if (opts.size() > 1) { s.inputs.push_back(-1); s.inputsConst.push_back((u64)opts[0]); }
    s.cur = opts[0];
}
static void deadlock(State& s, const Instruction* I) {
    std::string d;
    for (size_t i = 0; i < s.th.size(); i++) if (s.th[i].stat == T_BLOCK) {
        int c = s.cur; s.cur = (int)i; d += " thread" + std::to_string(i) + ": " + stackOf(s); s.cur = c;
    }
    s.notes.push_back(d);
    report(s, "deadlock", "every thread is blocked", s.model, I);
    endPath();
}
// ---------------------------------------------------------------- calls
static std::string cstr(State& s, const Val& p) {
    std::string r; u64 a = p.c;
    int i = findObj(s, a); if (i < 0) return "?";
    Object& o = *s.objs[i];
    for (u64 k = a - o.base; k < o.size && o.b[k].e == -1 && o.b[k].c; k++) r += (char)o.b[k].c;
    return r;
}
static FnInfo& infoOf(Function* f) {
    auto it = fnInfo.find(f);
    if (it != fnInfo.end()) return it->second;
    FnInfo& fi = fnInfo[f];
    for (auto& a : f->args()) fi.num[&a] = fi.n++;
    for (auto& bb : *f) for (auto& in : bb) if (!in.getType()->isVoidTy()) fi.num[&in] = fi.n++;
    if (DISubprogram* sp = f->getSubprogram()) {
        std::string fn = sp->getFilename().str();
        if (fn.empty() || fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
        if (optOwn.empty() || fn.compare(0, optOwn.size(), optOwn)) { fi.repo = true; coveredFns.insert(f->getName().str() + " (" + fn.substr(fn.rfind('/') + 1) + ")"); }
    }
    return fi;
}
static void pushFrame(State& s, Thread& t, Function* f, const std::vector<Val>& args, const CallBase* call) {
    FnInfo& fi = infoOf(f);
    if (t.st.size() > 400) { report(s, "nontermination", "unbounded recursion", s.model, call); endPath(); }
    Frame fr; fr.f = f; fr.fi = &fi; fr.bb = &f->getEntryBlock(); fr.prev = nullptr; fr.it = fr.bb->begin(); fr.call = call;
    fr.loc.resize(fi.n);
    unsigned i = 0;
    for (auto& a : f->args()) { if (i < args.size()) fr.loc[fi.num[&a]] = args[i]; i++; }
    t.st.push_back(std::move(fr));
}
static void copyBytes(State& s, const Val& d, const Val& sr, u64 n, const Instruction* I) {
    if (!n) return;
    u64 so, dof;
    int si = resolve(s, sr, n, so, "out-of-bounds read (copy)", I);
    int di = resolve(s, d, n, dof, "out-of-bounds write (copy)", I);
    if (s.objs[di]->kind == K_CONST) memErr(s, "write to constant", s.objs[di]->base, n, I);
    std::vector<Byte> tmp;
    // materialise uninitialised bytes so that copies agree with the original
    for (u64 i = 0; i < n; i++) if (s.objs[si]->b[so + i].e == -2 ) { /* stays uninitialised in the copy as well */ }
    if (s.th[s.cur].st.back().fi->repo) { race(s, si, so, n, false, I); race(s, di, dof, n, true, I); }
    tmp.assign(s.objs[si]->b.begin() + so, s.objs[si]->b.begin() + so + n);
    Object& o = wobj(s, di);
    std::copy(tmp.begin(), tmp.end(), o.b.begin() + dof);
}
// returns true when handled; sets result
static bool builtin(State& s, Frame& fr, const CallBase* I, Function* f, const std::vector<Val>& a, Val& r, bool& advance) {
    StringRef n = f->getName();
    if (f->isIntrinsic()) {
        switch (f->getIntrinsicID()) {
            case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
            case Intrinsic::assume: case Intrinsic::stackrestore: case Intrinsic::var_annotation: case Intrinsic::donothing: case Intrinsic::vastart: case Intrinsic::vaend: return true;
            case Intrinsic::experimental_noalias_scope_decl: return true;
            case Intrinsic::stacksave: r = C(64, 0); return true;
            case Intrinsic::expect: r = a[0]; return true;
            case Intrinsic::memcpy: case Intrinsic::memmove: { u64 k = concretize(s, a[2]); copyBytes(s, a[0], a[1], k, I); return true; }
            case Intrinsic::memset: {
                u64 k = concretize(s, a[2]); if (!k) return true;
                u64 off; int oi = resolve(s, a[0], k, off, "out-of-bounds write (fill)", I);
                if (fr.fi->repo) race(s, oi, off, k, true, I);
                Object& o = wobj(s, oi);
                Byte b; if (a[1].sym) { b.e = a[1].e; b.idx = 0; b.c = 0; } else { b.e = -1; b.c = (uint8_t)a[1].c; b.idx = 0; }
                for (u64 i = 0; i < k; i++) o.b[off + i] = b;
                return true;
            }
            case Intrinsic::umin: r = a[0]; { Val c = icmp(s, CmpInst::ICMP_ULT, a[0], a[1]); r = c.sym ? S(a[0].w, z3::ite(X(c), X(a[0]), X(a[1]))) : (c.c ? a[0] : a[1]); } return true;
            case Intrinsic::umax: { Val c = icmp(s, CmpInst::ICMP_UGT, a[0], a[1]); r = c.sym ? S(a[0].w, z3::ite(X(c), X(a[0]), X(a[1]))) : (c.c ? a[0] : a[1]); } return true;
            case Intrinsic::smin: { Val c = icmp(s, CmpInst::ICMP_SLT, a[0], a[1]); r = c.sym ? S(a[0].w, z3::ite(X(c), X(a[0]), X(a[1]))) : (c.c ? a[0] : a[1]); } return true;
            case Intrinsic::smax: { Val c = icmp(s, CmpInst::ICMP_SGT, a[0], a[1]); r = c.sym ? S(a[0].w, z3::ite(X(c), X(a[0]), X(a[1]))) : (c.c ? a[0] : a[1]); } return true;
            case Intrinsic::trap: report(s, "assert", "trap reached", s.model, I); endPath();
            case Intrinsic::bswap: {
                unsigned w = a[0].w; if (!a[0].sym) { u64 v = 0; for (unsigned i = 0; i < w / 8; i++) v |= ((a[0].c >> (8 * i)) & 0xff) << (w - 8 - 8 * i); r = C(w, v); return true; }
                z3::expr e = X(a[0]); z3::expr acc = e.extract(7, 0); for (unsigned i = 1; i < w / 8; i++) acc = z3::concat(acc, e.extract(8 * i + 7, 8 * i)); r = S(w, acc, true); return true; }
            default: fatal(s, "intrinsic " + n.str(), I);
        }
    }
    if (n == "vp_nd_bits") {
        unsigned w = (unsigned)a[0].c; Val v = newInput(s, w);
        r = w == 64 ? v : S(64, z3::zext(X(v), 64 - w)); return true;
    }
    if (n == "vp_sym_assume") { Val c = icmp(s, CmpInst::ICMP_NE, a[0], C(a[0].w, 0)); assume(s, c); return true; }
    if (n == "vp_sym_stop") { nStopped++; endPath(); }
    if (n == "vp_sym_fork") { r = C(32, decide(s, icmp(s, CmpInst::ICMP_NE, a[0], C(a[0].w, 0)))); return true; }
    if (n == "vp_sym_concrete") { r = C(64, concretize(s, a[0])); return true; }
    if (n == "vp_sym_assert") {
        std::string msg = cstr(s, a[1]);
        assertsSeen.insert(msg); nAsserts++;
        Val c = icmp(s, CmpInst::ICMP_NE, a[0], C(a[0].w, 0));
        if (!c.sym) { if (!c.c) { report(s, "assert", msg, s.model, I); endPath(); } return true; }
        nAssertSym++;
        std::shared_ptr<z3::model> m;
        if (check(s, !X(c), &m)) {
            report(s, "assert", msg, m, I);
            assume(s, c);
        }
        return true;
    }
    if (n == "vp_sym_witness") {
        std::string msg = cstr(s, a[1]);
        if (reachedWit.count(msg)) return true;
        Val c = icmp(s, CmpInst::ICMP_NE, a[0], C(a[0].w, 0));
        if (!c.sym) { if (c.c) reachedWit.insert(msg); return true; }
        if (check(s, X(c), nullptr)) reachedWit.insert(msg);
        return true;
    }
    if (n == "vp_sym_ok") { // is [p, p+n) inside one live object?
        Val p = a[0]; u64 k; 
        u64 ad = concretize(s, p);
        Val sz = a[1];
        int oi = findObj(s, ad);
        if (oi < 0 || !s.objs[oi]->alive) {
            Val z = icmp(s, CmpInst::ICMP_EQ, sz, C(64, 0));
            r = castv(s, Instruction::ZExt, z, 32, I); (void)k; return true; }
        u64 room = s.objs[oi]->base + s.objs[oi]->size - ad;
        Val ok = icmp(s, CmpInst::ICMP_ULE, sz, C(64, room));
        r = castv(s, Instruction::ZExt, ok, 32, I); return true;
    }
    if (n == "vp_sym_malloc") {
        u64 k = concretize(s, a[0]);
        if (k > (1u << 26)) { incomplete = "allocation larger than 64 MiB"; endPath(); }
        int oi = addObj(s, k, K_HEAP, "heap", false);
        r = C(64, s.objs[oi]->base); return true;
    }
    if (n == "vp_sym_free") {
        u64 ad = concretize(s, a[0]);
        if (!ad) return true;
        int oi = findObj(s, ad);
        if (oi < 0 || s.objs[oi]->base != ad || s.objs[oi]->kind != K_HEAP) { report(s, "memory", "free of a pointer that was not allocated", s.model, I); endPath(); }
        if (!s.objs[oi]->alive) { report(s, "memory", "double free", s.model, I); endPath(); }
        race(s, oi, 0, s.objs[oi]->size, true, s.th[s.cur].st.size() > 1 ? &*s.th[s.cur].st[s.th[s.cur].st.size() - 2].it : I);
        wobj(s, oi).alive = false; return true;
    }
    if (n == "vp_sym_size") { u64 ad = concretize(s, a[0]); int oi = findObj(s, ad); r = C(64, oi < 0 ? 0 : s.objs[oi]->size); return true; }
    if (n == "vp_sym_note") { s.notes.push_back(cstr(s, a[0])); if (s.notes.size() > 60) s.notes.erase(s.notes.begin()); return true; }
    if (n == "vp_acquire") { acquireKey(s, a[0].c); return true; }
    if (n == "vp_release") { releaseKey(s, a[0].c); return true; }
    if (n == "vp_atomic") { s.th[s.cur].atomic = a[0].c != 0; return true; }
    if (n == "vp_touch") { // (p, n, write): the world or a handler uses memory of the real code
        u64 k = concretize(s, a[1]); if (!k) return true;
        u64 off; int oi = resolve(s, a[0], k, off, a[2].c ? "out-of-bounds write" : "out-of-bounds read", I);
        race(s, oi, off, k, a[2].c != 0, I); return true;
    }
    if (n == "vp_self") { r = C(32, (u64)s.cur); return true; }
    if (n == "vp_thread_count") { r = C(32, s.th.size()); return true; }
    if (n == "vp_thread_spawn") {
        auto it = faddr.find(a[0].c); if (it == faddr.end()) fatal(s, "spawn of unknown function", I);
        Thread t; int id = (int)s.th.size();
        s.th.push_back(t);
        if (id >= MAXT) fatal(s, "too many threads", I);
        s.vc.resize(id + 1);
        s.vc[id].join(s.vc[s.cur]); s.vc[id].c[id] = 1; s.vc[s.cur].c[s.cur]++;
        pushFrame(s, s.th[id], it->second, { a[1] }, nullptr);
        r = C(32, (u64)id); return true;
    }
    if (n == "vp_hold") { s.hold = a[0].c != 0; return true; }
    if (n == "vp_sched") {
        if (s.preempts >= optPreempt || s.hold) return true;
        std::vector<int> o = runnable(s, true);
        if (o.empty()) return true;
        o.insert(o.begin(), s.cur);
        int me = s.cur;
        // all states continue after this call
        advance = false; fr.it++;
        for (size_t i = 1; i < o.size(); i++) {
            StateP st = clone(s);
            st->inputs.push_back(-1); st->inputsConst.push_back((u64)o[i]);
            st->cur = o[i]; st->preempts++;
            work.push_back(std::move(st));
        }
        s.inputs.push_back(-1); s.inputsConst.push_back((u64)me);
        return true;
    }
    if (n == "vp_block") {
        advance = false; fr.it++;
        s.th[s.cur].stat = T_BLOCK; s.th[s.cur].key = a[0].c;
        std::vector<int> o = runnable(s, false);
        if (o.empty()) { fr.it--; deadlock(s, I); }
        switchTo(s, o);
        return true;
    }
    if (n == "vp_wake") { // (key, all) -> number woken
        std::vector<int> w;
        for (int i = 0; i < (int)s.th.size(); i++) if (s.th[i].stat == T_BLOCK && s.th[i].key == a[0].c) w.push_back(i);
        u64 k = 0;
        if (w.empty()) { r = C(32, 0); return true; }
        if (a[1].c) { for (int i : w) { s.th[i].stat = T_RUN; k++; } r = C(32, k); return true; }
        if (w.size() == 1) { s.th[w[0]].stat = T_RUN; r = C(32, 1); return true; }
        // choose which waiter wakes
        advance = false;
        r = C(32, 1);
        for (size_t i = 0; i < w.size(); i++) {
            if (i + 1 < w.size()) {
                StateP st = clone(s);
                Frame& f2 = st->th[st->cur].st.back();
                st->inputs.push_back(-1); st->inputsConst.push_back((u64)w[i]);
                st->th[w[i]].stat = T_RUN;
                setv(f2, I, r); f2.it++;
                work.push_back(std::move(st));
            } else {
                s.inputs.push_back(-1); s.inputsConst.push_back((u64)w[i]);
                s.th[w[i]].stat = T_RUN;
                fr.it++;
            }
        }
        return true;
    }
    if (n == "__assert_fail") { report(s, "assert", "assert(" + cstr(s, a[0]) + ")", s.model, I); endPath(); }
    if (n == "abort" || n == "exit" || n == "_exit") { report(s, "assert", n.str() + "() called", s.model, I); endPath(); }
    if (n == "memcpy" || n == "memmove") { u64 k = concretize(s, a[2]); copyBytes(s, a[0], a[1], k, I); r = a[0]; return true; }
    if (n == "memset") {
        u64 k = concretize(s, a[2]); r = a[0]; if (!k) return true;
        u64 off; int oi = resolve(s, a[0], k, off, "out-of-bounds write (fill)", I);
        if (fr.fi->repo) race(s, oi, off, k, true, I);
        Object& o = wobj(s, oi);
        Val bv = castv(s, Instruction::Trunc, a[1], 8, I);
        Byte b; if (bv.sym) { b.e = bv.e; b.idx = 0; b.c = 0; } else { b.e = -1; b.c = (uint8_t)bv.c; b.idx = 0; }
        for (u64 i = 0; i < k; i++) o.b[off + i] = b;
        return true;
    }
    return false;
}
// ---------------------------------------------------------------- stepping
static void jump(State& s, Frame& f, BasicBlock* to) {
    f.prev = f.bb; f.bb = to; f.it = to->begin();
    // phis are evaluated simultaneously
    std::vector<std::pair<const PHINode*, Val>> v;
    while (auto* p = dyn_cast<PHINode>(&*f.it)) { v.push_back({ p, get(s, f, p->getIncomingValueForBlock(f.prev)) }); f.it++; }
    for (auto& x : v) setv(f, x.first, x.second);
}
// symbolic-index read of a table of concrete values
static bool tableRead(State& s, const Val& p, unsigned n, Type* t, Val& out) {
    u64 a = evalV(s, p); int oi = findObj(s, a);
    if (oi < 0 || !inb(*s.objs[oi], a, n)) return false;
    Object& o = *s.objs[oi];
    if (o.kind != K_CONST && o.kind != K_GLOBAL) return false;
    if (o.size < 64 || n == 0 || n > 8 || o.size / n > 2048) return false;
    for (auto& b : o.b) if (b.e != -1) return false;
    z3::expr pe = X(p);
    z3::expr off = pe - Z->bv_val((uint64_t)o.base, 64);
    z3::expr bad = z3::ugt(off, Z->bv_val((uint64_t)(o.size - n), 64)) || (z3::urem(off, Z->bv_val((uint64_t)n, 64)) != Z->bv_val(0, 64));
    if (check(s, bad, nullptr)) return false;
    unsigned cnt = (unsigned)(o.size / n), ib = 1; while ((1u << ib) < cnt) ib++;
    z3::expr idx = z3::udiv(off, Z->bv_val((uint64_t)n, 64)).extract(ib - 1, 0).simplify();
    // balanced multiplexer on the index bits
    std::vector<z3::expr> cur;
    for (unsigned i = 0; i < (1u << ib); i++) { u64 v = 0; if (i < cnt) for (unsigned k = 0; k < n; k++) v |= (u64)o.b[i * n + k].c << (8 * k); cur.push_back(Z->bv_val((uint64_t)v, 8 * n)); }
    for (unsigned bit = 0; bit < ib; bit++) {
        std::vector<z3::expr> nx; z3::expr c = idx.extract(bit, bit) == Z->bv_val(1, 1);
        for (size_t i = 0; i < cur.size(); i += 2) nx.push_back(z3::ite(c, cur[i + 1], cur[i]));
        cur = nx;
    }
    out = S(8 * n, cur[0]);
    return widthOf(t) == 8 * n;
}
static bool memPoint(State& s, Frame& f, const Val& p) {
    // optional preemption point at shared-memory accesses
    if (!optMemPoints || s.th.size() < 2 || s.preempts >= optPreempt) return false;
    if (s.skipPoint) { s.skipPoint = false; return false; }
    if (!f.fi->repo || p.sym) return false;
    int oi = findObj(s, p.c); if (oi < 0 || s.objs[oi]->kind == K_STACK || s.objs[oi]->kind == K_CONST) return false;
    std::vector<int> o = runnable(s, true);
    if (o.empty()) return false;
    for (int t : o) {
        StateP st = clone(s);
        st->inputs.push_back(-1); st->inputsConst.push_back((u64)t);
        st->cur = t; st->preempts++;
        work.push_back(std::move(st));
    }
    s.inputs.push_back(-1); s.inputsConst.push_back((u64)s.cur);
    return false;
}
static void step(State& s) {
    Thread& T = s.th[s.cur];
    Frame& f = T.st.back();
    Instruction* I = &*f.it;
    s.instrs++; nInstr++;
    switch (I->getOpcode()) {
        case Instruction::Alloca: {
            auto* a = cast<AllocaInst>(I);
            u64 n = DL->getTypeAllocSize(a->getAllocatedType());
            if (a->isArrayAllocation()) n *= concretize(s, get(s, f, a->getArraySize()));
            int oi = addObj(s, n, K_STACK, a->getName().str(), false);
            f.allocas.push_back(oi);
            setv(f, I, C(64, s.objs[oi]->base)); f.it++; return;
        }
        case Instruction::Load: {
            auto* l = cast<LoadInst>(I); Val p = get(s, f, l->getPointerOperand());
            memPoint(s, f, p);
            u64 n = DL->getTypeStoreSize(l->getType()), off;
            Val r;
            if (p.sym && tableRead(s, p, (unsigned)n, l->getType(), r)) { setv(f, I, r); f.it++; return; }
            int oi = resolve(s, p, n, off, "out-of-bounds read", I);
            if (f.fi->repo) { if (l->isAtomic()) { acquireKey(s, p.c); releaseKey(s, p.c); } else race(s, oi, off, n, false, I); }
            r = loadVal(s, l->getType(), oi, off);
            setv(f, I, r); f.it++; return;
        }
        case Instruction::Store: {
            auto* st = cast<StoreInst>(I); Val p = get(s, f, st->getPointerOperand());
            memPoint(s, f, p);
            u64 n = DL->getTypeStoreSize(st->getValueOperand()->getType()), off;
            int oi = resolve(s, p, n, off, "out-of-bounds write", I);
            if (s.objs[oi]->kind == K_CONST) memErr(s, "write to constant", p.c, n, I);
            if (f.fi->repo) { if (st->isAtomic()) { acquireKey(s, p.c); releaseKey(s, p.c); } else race(s, oi, off, n, true, I); }
            storeVal(s, st->getValueOperand()->getType(), get(s, f, st->getValueOperand()), oi, off);
            f.it++; return;
        }
        case Instruction::GetElementPtr: {
            auto* g = cast<GetElementPtrInst>(I);
            Val p = get(s, f, g->getPointerOperand());
            u64 coff = 0; bool anySym = p.sym; z3::expr se = p.sym ? X(p) : Z->bv_val((uint64_t)0, 64);
            if (!p.sym) coff = p.c;
            for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                Value* op = gi.getOperand();
                if (StructType* stt = gi.getStructTypeOrNull()) { coff += DL->getStructLayout(stt)->getElementOffset((unsigned)cast<ConstantInt>(op)->getZExtValue()); continue; }
                u64 es = DL->getTypeAllocSize(gi.getIndexedType());
                Val iv = get(s, f, op);
                if (!iv.sym) { coff += (u64)sx(iv.c, iv.w) * es; continue; }
                z3::expr ie = iv.w < 64 ? z3::sext(asBV(iv), 64 - iv.w) : X(iv);
                ie = es == 1 ? ie : ie * Z->bv_val((uint64_t)es, 64);
                se = anySym ? se + ie : ie; anySym = true;
            }
            if (!anySym) setv(f, I, C(64, coff));
            else setv(f, I, S(64, coff ? se + Z->bv_val((uint64_t)coff, 64) : se, true));
            f.it++; return;
        }
        case Instruction::ICmp: { auto* c = cast<ICmpInst>(I); setv(f, I, icmp(s, c->getPredicate(), get(s, f, I->getOperand(0)), get(s, f, I->getOperand(1)))); f.it++; return; }
        case Instruction::FCmp: { auto* c = cast<FCmpInst>(I); setv(f, I, fcmp(s, c->getPredicate(), get(s, f, I->getOperand(0)), get(s, f, I->getOperand(1)), I)); f.it++; return; }
        case Instruction::FNeg: { Val a = get(s, f, I->getOperand(0)); setv(f, I, binop(s, Instruction::Xor, a, C(a.w, (u64)1 << (a.w - 1)), I)); f.it++; return; }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: setv(f, I, fop(s, I->getOpcode(), get(s, f, I->getOperand(0)), get(s, f, I->getOperand(1)), I)); f.it++; return;
        case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI:
            setv(f, I, fcast(s, I->getOpcode(), get(s, f, I->getOperand(0)), widthOf(I->getType()), I)); f.it++; return;
        case Instruction::Select: {
            Val c = get(s, f, I->getOperand(0)), a = get(s, f, I->getOperand(1)), b = get(s, f, I->getOperand(2));
            if (!c.sym) setv(f, I, c.c ? a : b);
            else if (a.w == 0xffff) { setv(f, I, decide(s, c) ? a : b); }
            else setv(f, I, S(a.w, z3::ite(X(c), X(a), X(b)), true));
            f.it++; return;
        }
        case Instruction::PHI: fatal(s, "phi", I);
        case Instruction::Br: {
            auto* b = cast<BranchInst>(I);
            if (b->isUnconditional()) { jump(s, f, b->getSuccessor(0)); return; }
            Val c = get(s, f, b->getCondition());
            bool t;
            if (!c.sym) t = c.c & 1;
            else {
                z3::expr ce = X(c); t = evalB(s, ce);
                std::shared_ptr<z3::model> m; z3::expr other = t ? !ce : ce;
                if (check(s, other, &m)) {
                    StateP o = clone(s); addC(*o, other); o->model = m;
                    jump(*o, o->th[o->cur].st.back(), b->getSuccessor(t ? 1 : 0));
                    work.push_back(std::move(o));
                    addC(s, t ? ce : !ce);
                }
            }
            jump(s, f, b->getSuccessor(t ? 0 : 1)); return;
        }
        case Instruction::Switch: {
            auto* sw = cast<SwitchInst>(I); Val c = get(s, f, sw->getCondition());
            if (!c.sym) { auto h = sw->findCaseValue(ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), c.c)); jump(s, f, h->getCaseSuccessor()); return; }
            u64 v = evalV(s, c);
            auto h = sw->findCaseValue(ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), v));
            if (h != sw->case_default()) {
                bool t = decide(s, S(1, X(c) == Z->bv_val((uint64_t)v, c.w), true)); (void)t;
                jump(s, f, h->getCaseSuccessor()); return;
            }
            z3::expr d = Z->bool_val(true);
            for (auto& cs : sw->cases()) d = d && X(c) != Z->bv_val((uint64_t)cs.getCaseValue()->getZExtValue(), c.w);
            decide(s, S(1, d, true));
            jump(s, f, sw->getDefaultDest()); return;
        }
        case Instruction::Call: {
            auto* c = cast<CallBase>(I);
            std::vector<Val> args;
            for (auto& u : c->args()) {
                if (u->getType()->isMetadataTy()) { args.push_back(C(64, 0)); continue; }
                args.push_back(get(s, f, u.get()));
            }
            Function* callee = c->getCalledFunction();
            if (!callee) {
                Val fp = get(s, f, c->getCalledOperand());
                u64 a = concretize(s, fp);
                auto it = faddr.find(a);
                if (it == faddr.end()) { report(s, "memory", "call through an invalid function pointer", s.model, I); endPath(); }
                callee = it->second;
            }
            // byval arguments: copy
            for (unsigned i = 0; i < c->arg_size(); i++) if (c->isByValArgument(i)) {
                u64 n = DL->getTypeAllocSize(c->getParamByValType(i));
                int oi = addObj(s, n, K_STACK, "byval", false); f.allocas.push_back(oi);
                copyBytes(s, C(64, s.objs[oi]->base), args[i], n, I);
                args[i] = C(64, s.objs[oi]->base);
            }
            if (callee->isDeclaration()) {
                Val r; r.w = 0; bool adv = true;
                Frame& fr = s.th[s.cur].st.back();
                int me = s.cur; size_t depth = s.th[s.cur].st.size();
                if (!builtin(s, fr, c, callee, args, r, adv)) fatal(s, "external function " + callee->getName().str(), I);
                if (adv) {
                    Frame& f2 = s.th[me].st[depth - 1];
                    if (r.w && !I->getType()->isVoidTy()) setv(f2, I, r);
                    f2.it++;
                } else if (r.w && !I->getType()->isVoidTy()) setv(s.th[me].st[depth - 1], I, r);
                return;
            }
            pushFrame(s, T, callee, args, c);
            return;
        }
        case Instruction::Ret: {
            Val rv; rv.w = 0;
            if (I->getNumOperands()) rv = get(s, f, I->getOperand(0));
            for (int oi : f.allocas) { Object& o = wobj(s, oi); o.alive = false; std::vector<Byte>().swap(o.b); }
            while (!s.objs.empty() && s.objs.back()->kind == K_STACK && !s.objs.back()->alive) { s.objs.pop_back(); s.bases.pop_back(); }
            const CallBase* call = f.call;
            T.st.pop_back();
            if (T.st.empty()) {
                T.stat = T_DONE;
                if (s.cur == 0) { nPathsDone++; endPath(); }
                std::vector<int> o = runnable(s, false);
                if (o.empty()) deadlock(s, I);
                switchTo(s, o);
                return;
            }
            Frame& c = T.st.back();
            if (call && !call->getType()->isVoidTy()) {
                if (rv.w == 0) rv = C(widthOf(call->getType()), 0);
                setv(c, call, rv);
            }
            c.it++;
            return;
        }
        case Instruction::ExtractValue: {
            auto* e = cast<ExtractValueInst>(I); Val a = get(s, f, e->getAggregateOperand());
            for (unsigned i : e->indices()) { Val t = aggs[a.e][i]; a = t; }
            setv(f, I, a); f.it++; return;
        }
        case Instruction::InsertValue: {
            auto* e = cast<InsertValueInst>(I); Val a = get(s, f, e->getAggregateOperand()), v = get(s, f, e->getInsertedValueOperand());
            if (e->getNumIndices() != 1) fatal(s, "nested insertvalue", I);
            std::vector<Val> n = aggs[a.e]; n[e->getIndices()[0]] = v;
            setv(f, I, mkAgg(n)); f.it++; return;
        }
        case Instruction::Freeze: setv(f, I, get(s, f, I->getOperand(0))); f.it++; return;
        case Instruction::Fence: f.it++; return;
        case Instruction::Unreachable: report(s, "assert", "unreachable code reached", s.model, I); endPath();
        case Instruction::AtomicRMW: {
            auto* a = cast<AtomicRMWInst>(I); Val p = get(s, f, a->getPointerOperand()), v = get(s, f, a->getValOperand());
            u64 n = DL->getTypeStoreSize(a->getType()), off; int oi = resolve(s, p, n, off, "out-of-bounds atomic", I);
            acquireKey(s, s.objs[oi]->base + off); releaseKey(s, s.objs[oi]->base + off);
            Val o = loadVal(s, a->getType(), oi, off), nv;
            switch (a->getOperation()) {
                case AtomicRMWInst::Xchg: nv = v; break;
                case AtomicRMWInst::Add: nv = binop(s, Instruction::Add, o, v, I); break;
                case AtomicRMWInst::Sub: nv = binop(s, Instruction::Sub, o, v, I); break;
                case AtomicRMWInst::And: nv = binop(s, Instruction::And, o, v, I); break;
                case AtomicRMWInst::Or: nv = binop(s, Instruction::Or, o, v, I); break;
                default: fatal(s, "atomicrmw", I);
            }
            storeVal(s, a->getType(), nv, oi, off); setv(f, I, o); f.it++; return;
        }
        case Instruction::AtomicCmpXchg: {
            auto* a = cast<AtomicCmpXchgInst>(I); Val p = get(s, f, a->getPointerOperand());
            Type* t = a->getCompareOperand()->getType();
            u64 n = DL->getTypeStoreSize(t), off; int oi = resolve(s, p, n, off, "out-of-bounds atomic", I);
            Val o = loadVal(s, t, oi, off);
            bool eq = decide(s, icmp(s, CmpInst::ICMP_EQ, o, get(s, f, a->getCompareOperand())));
            acquireKey(s, s.objs[oi]->base + off); releaseKey(s, s.objs[oi]->base + off);
            if (eq) storeVal(s, t, get(s, f, a->getNewValOperand()), oi, off);
            setv(f, I, mkAgg({ o, C(1, eq) })); f.it++; return;
        }
        default: break;
    }
    if (I->isBinaryOp()) { setv(f, I, binop(s, I->getOpcode(), get(s, f, I->getOperand(0)), get(s, f, I->getOperand(1)), I)); f.it++; return; }
    if (I->isCast()) { setv(f, I, castv(s, I->getOpcode(), get(s, f, I->getOperand(0)), widthOf(I->getType()), I)); f.it++; return; }
    fatal(s, std::string("instruction ") + I->getOpcodeName(), I);
}
// ---------------------------------------------------------------- setup & main
static void initGlobal(State& s, int oi, u64 off, const Constant* c) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; // zeroed
    if (auto* cs = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) initGlobal(s, oi, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if (auto* ca = dyn_cast<ConstantArray>(c)) {
        u64 es = DL->getTypeAllocSize(t->getArrayElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(s, oi, off + i * es, ca->getOperand(i));
        return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        u64 es = DL->getTypeAllocSize(cd->getElementType());
        for (unsigned i = 0; i < cd->getNumElements(); i++) initGlobal(s, oi, off + i * es, cd->getElementAsConstant(i));
        return;
    }
    storeVal(s, t, constVal(s, c), oi, off);
}
static std::string jesc(const std::string& s) {
    std::string r; for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char)ch < 32) r += ' '; else r += ch; } return r;
}
int main(int argc, char** argv) {
    std::string in, out = "-"; std::string entry = "vp_main";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--out") out = nx(); else if (a == "--max-instr") optMaxInstr = std::stoull(nx()); else if (a == "--time") optTime = std::stod(nx());
        else if (a == "--preempt") optPreempt = std::stoi(nx()); else if (a == "--mem-points") optMemPoints = true; else if (a == "--samples") optSamples = std::stoi(nx());
        else if (a == "--max-paths") optMaxPaths = std::stoull(nx()); else if (a == "--max-viol") optMaxViol = std::stoi(nx()); else if (a == "--own") optOwn = nx(); else if (a == "--entry") entry = nx(); else in = a;
    }
    g_start = Clock::now();
    LLVMContext ctx; SMDiagnostic err;
    auto mod = parseIRFile(in, err, ctx);
    if (!mod) { err.print("gse", errs()); return 2; }
    M = mod.get(); DL = &M->getDataLayout();
    z3::context zc; Z = &zc; std::vector<z3::expr> pl; pool = &pl;
    z3::solver sol(zc, "QF_BV"); SOL = &sol;
    {
        z3::solver s2 = z3::solver(zc); SOL = new z3::solver(s2);
    }
    StateP s0(new State());
    s0->nextAddr = 0x100000;
    u64 fa = 0x10000;
    for (auto& f : *M) { gaddr[&f] = fa; faddr[fa] = &f; fa += 16; }
    // witnesses present in the program
    for (auto& f : *M) for (auto& bb : f) for (auto& ins : bb) if (auto* c = dyn_cast<CallBase>(&ins)) if (c->getCalledFunction() && c->getCalledFunction()->getName() == "vp_sym_witness") {
        if (auto* g = dyn_cast<GlobalVariable>(c->getArgOperand(1)->stripPointerCasts())) if (g->hasInitializer()) if (auto* d = dyn_cast<ConstantDataSequential>(g->getInitializer())) if (d->isCString()) allWit.insert(d->getAsCString().str());
    }
    std::vector<std::pair<GlobalVariable*, int>> gs;
    for (auto& g : M->globals()) {
        if (g.getName().starts_with("llvm.")) continue;
        u64 n = DL->getTypeAllocSize(g.getValueType());
        int oi = addObj(*s0, n, g.isConstant() ? K_CONST : K_GLOBAL, g.getName().str(), true);
        gaddr[&g] = s0->objs[oi]->base; gs.push_back({ &g, oi });
    }
    for (auto& a : M->aliases()) gaddr[&a] = gaddr[a.getAliaseeObject()];
    try { for (auto& p : gs) if (p.first->hasInitializer()) initGlobal(*s0, p.second, 0, p.first->getInitializer()); } catch (PathEnd&) { return 2; }
    s0->model = std::make_shared<z3::model>(zc);
    { SOL->check(); s0->model = std::make_shared<z3::model>(SOL->get_model()); }
    Function* mf = M->getFunction(entry);
    if (!mf) { fprintf(stderr, "gse: no %s\n", entry.c_str()); return 2; }
    s0->th.push_back(Thread());
    s0->vc.resize(1); s0->vc[0].c[0] = 1;
    pushFrame(*s0, s0->th[0], mf, {}, nullptr);
    work.push_back(std::move(s0));
    bool timedOut = false;
    u64 lastPrint = 0;
    while (!work.empty()) {
        StateP s = std::move(work.back()); work.pop_back();
        nPaths++;
        try {
            u64 k = 0;
            for (;;) {
                step(*s);
                if (s->instrs > optMaxInstr) { report(*s, "nontermination", "no termination within the step bound", s->model, nullptr); break; }
                if ((++k & 0xfff) == 0 && now() - 0 > optTime) { timedOut = true; break; }
            }
        } catch (PathEnd&) {
        } catch (z3::exception& e) { incomplete = std::string("z3: ") + e.msg(); fprintf(stderr, "gse: %s\n", incomplete.c_str()); }
        if ((int)samples.size() < optSamples && s->th[0].stat == T_DONE && (nPathsDone <= 2 || (nPathsDone & (nPathsDone - 1)) == 0)) samples.push_back(inputsOf(*s, *s->model));
        if (now() > optTime) timedOut = true;
        if (timedOut || !incomplete.empty()) break;
        if ((int)viols.size() >= optMaxViol) break;
        if (nPaths > optMaxPaths) { incomplete = "path limit"; break; }
        if (getenv("GSE_PROGRESS") && nPaths / 1000 != lastPrint) { lastPrint = nPaths / 1000; fprintf(stderr, "paths %llu work %zu queries %llu t=%.1f solver=%.1f\n", (unsigned long long)nPaths, work.size(), (unsigned long long)nQueries, now(), tSolver); }
    }
    std::string status = !viols.empty() ? "violation" : timedOut ? "timeout" : !incomplete.empty() ? "incomplete" : "ok";
    std::string miss;
    if (status == "ok") for (auto& w : allWit) if (!reachedWit.count(w)) { status = "vacuous"; miss += w + "; "; }
    std::ofstream of; std::ostream* os;
    std::string js;
    auto arr = [&](const std::vector<u64>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += std::to_string(v[i]); } return r + "]"; };
    js += "{\"status\":\"" + status + "\",\"detail\":\"" + jesc(incomplete + (miss.empty() ? "" : "unreached witnesses: " + miss)) + "\"";
    js += ",\"paths\":" + std::to_string(nPaths) + ",\"paths_completed\":" + std::to_string(nPathsDone) + ",\"paths_pruned\":" + std::to_string(nStopped);
    js += ",\"forks\":" + std::to_string(nForks) + ",\"queries\":" + std::to_string(nQueries) + ",\"sat\":" + std::to_string(nSat) + ",\"unsat\":" + std::to_string(nUnsat) + ",\"unknown\":" + std::to_string(nUnknown);
    js += ",\"instructions\":" + std::to_string(nInstr) + ",\"assert_evaluations\":" + std::to_string(nAsserts) + ",\"assert_symbolic\":" + std::to_string(nAssertSym) + ",\"memory_checks\":" + std::to_string(nMemChecks) + ",\"race_checks\":" + std::to_string(nRaceChecks);
    char tb[128]; snprintf(tb, sizeof tb, ",\"solver_s\":%.3f,\"wall_s\":%.3f", tSolver, now()); js += tb;
    auto strs = [&](const std::set<std::string>& v) { std::string r = "["; bool first = true; for (auto& x : v) { if (!first) r += ","; first = false; r += "\"" + jesc(x) + "\""; } return r + "]"; };
    js += ",\"functions\":" + strs(coveredFns) + ",\"assertions\":" + strs(assertsSeen) + ",\"witnesses\":" + strs(reachedWit);
    js += ",\"samples\":["; for (size_t i = 0; i < samples.size(); i++) { if (i) js += ","; js += arr(samples[i]); } js += "]";
    js += ",\"violations\":["; for (size_t i = 0; i < viols.size(); i++) { auto& v = viols[i]; if (i) js += ",";
        js += "{\"kind\":\"" + v.kind + "\",\"msg\":\"" + jesc(v.msg) + "\",\"loc\":\"" + jesc(v.loc) + "\",\"stack\":\"" + jesc(v.stack) + "\",\"inputs\":" + arr(v.in) + "}"; } js += "]}\n";
    if (out == "-") fputs(js.c_str(), stdout); else { std::ofstream o(out); o << js; }
    fflush(stdout);
    _Exit(0);
}
