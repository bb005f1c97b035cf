// Forward abstract interpretation of one function in a disjunctive
// linear-inequality domain. Decides which obligation calls are unreachable.
#pragma once
#include "lin.hpp"
#include <chrono>
#include <functional>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>

namespace absint {
using namespace llvm;
using lin::Con;
using lin::i128;
using lin::Lin;

static inline i128 pow2(unsigned w) { return (i128)1 << w; }

struct State {
    std::map<Value *, Lin> env;
    std::vector<Con> cs;
    bool dead = false;
};
typedef std::vector<State> States;

struct Budget {};

class Interp {
public:
    // How many states are kept apart: after a branch, and where a loop begins.
    size_t CAP = 160, LOOPCAP = 64;
    Interp(Function &F_) : F(F_), DL(F_.getParent()->getDataLayout()), DT(F_), LI(DT) {}
    std::set<CallBase *> failed;  // obligations some abstract state reaches
    std::set<CallBase *> reached; // witnesses some abstract state reaches
    bool gaveUp = false;
    size_t queries = 0, steps = 0, maxStates = 0;

    bool explain = false;
    double limit = 1e9;
    std::chrono::steady_clock::time_point started = std::chrono::steady_clock::now();
    void tick() {
        if((++steps & 255) == 0 &&
           std::chrono::duration<double>(std::chrono::steady_clock::now() - started).count() > limit)
            throw Budget();
    }

    void run() {
        try {
            findCells();
            findWatches();
            computeLiveness();
            State s;
            for(auto &w : watches)
                if(w.addr)
                    s.env[w.seen] = Lin(0);
            for(auto &g : guards)
                if(g.addr)
                    s.env[g.seen] = Lin(0);
            for(auto &A : F.args()) {
                define(s, &A, freshFor(&A));
                if(A.getType()->isPointerTy() &&
                   (A.hasNonNullAttr() || A.getDereferenceableBytes() > 0))
                    add(s, ge0(s.env[&A] - 1));
            }
            States in{std::move(s)};
            Exits ex;
            States latch;
            region(nullptr, &F.getEntryBlock(), in, true, ex, latch);
        } catch(Budget &) {
            gaveUp = true;
        } catch(lin::Overflow &) {
            gaveUp = true;
        }
    }

private:
    struct Exit {
        BasicBlock *to;
        State s;
    };
    typedef std::vector<Exit> Exits;
    Function &F;
    // globals whose address is never taken: only the direct accesses touch them
    std::set<GlobalVariable *> cells;
    void findCells() {
        for(auto &GV : F.getParent()->globals()) {
            if(!GV.hasLocalLinkage() || !isNumeric(&GV, GV.getValueType()))
                continue;
            bool ok = true;
            for(User *U : GV.users()) {
                if(auto *LD = dyn_cast<LoadInst>(U))
                    ok = ok && !LD->isVolatile() && LD->getType() == GV.getValueType();
                else if(auto *ST = dyn_cast<StoreInst>(U))
                    ok = ok && !ST->isVolatile() && ST->getValueOperand() != &GV &&
                         ST->getValueOperand()->getType() == GV.getValueType();
                else
                    ok = false;
            }
            if(ok) {
                cells.insert(&GV);
                hasToken = hasToken || GV.getName().contains("vk_token");
            }
        }
    }
    // Watched memory: the content of a few bytes at symbolic addresses (chosen by the contract with
    // vk_watch8/32/64) is followed exactly through loads, stores and block operations.
    struct Watch {
        GlobalVariable *addr, *val, *seen; // seen: accessed
        unsigned bits;
    };
    bool hasToken = false; // loops are followed separately by where the token is
    GlobalVariable *sideCell = nullptr; // vk_side: loops are followed separately for variables below, at and above it
    std::vector<Watch> watches, guards;
    unsigned unrollMax = 0;
    int inferring = 0; // loops whose invariants are being inferred
    std::set<GlobalVariable *> watchCells;
    static bool watchCall(const Instruction *I, unsigned &bits) {
        auto *CB = dyn_cast<CallBase>(I);
        Function *C = CB ? CB->getCalledFunction() : nullptr;
        if(!C)
            return false;
        bits = C->getName() == "vk_watch8" ? 8 : C->getName() == "vk_watch32" ? 32 : C->getName() == "vk_watch64" ? 64 : 0;
        return bits != 0;
    }
    void findWatches() {
        std::map<unsigned, unsigned> want; // slot -> bits
        std::set<unsigned> wantG;
        bool wantSide = false;
        for(auto &B : F)
            for(auto &I : B) {
                unsigned bits;
                if(watchCall(&I, bits))
                    want[slotOf(cast<CallBase>(&I))] = bits;
                if(auto *CB = dyn_cast<CallBase>(&I))
                    if(Function *C = CB->getCalledFunction(); C && C->getName() == "vk_guard")
                        wantG.insert(slotOf(CB));
                if(auto *CB = dyn_cast<CallBase>(&I))
                    if(Function *C = CB->getCalledFunction(); C && C->getName() == "vk_side")
                        wantSide = true;
                if(auto *CB = dyn_cast<CallBase>(&I))
                    if(Function *C = CB->getCalledFunction(); C && C->getName() == "vk_unroll")
                        unrollMax = (unsigned)cast<ConstantInt>(CB->getArgOperand(0))->getZExtValue();
            }
        Module &M = *F.getParent();
        auto newCell = [&](std::string name, unsigned bits) {
            auto *T = Type::getIntNTy(M.getContext(), bits);
            auto *G = new GlobalVariable(M, T, false, GlobalValue::InternalLinkage, ConstantInt::get(T, 0), name);
            cells.insert(G);
            watchCells.insert(G);
            return G;
        };
        if(wantSide)
            sideCell = newCell("vk.side", 64);
        for(unsigned g : wantG) {
            guards.resize(std::max<size_t>(guards.size(), g + 1), Watch{nullptr, nullptr, nullptr, 0});
            guards[g] = Watch{newCell("vk.guard." + std::to_string(g) + ".addr", 64), nullptr,
                              newCell("vk.guard." + std::to_string(g) + ".hit", 1), 8};
        }
        for(auto &w : want) {
            auto cell = [&](const char *what, unsigned bits) {
                return newCell("vk.watch." + std::to_string(w.first) + "." + what, bits);
            };
            watches.resize(std::max<size_t>(watches.size(), w.first + 1), Watch{nullptr, nullptr, nullptr, 0});
            watches[w.first] = Watch{cell("addr", 64), cell("val", w.second), cell("seen", 1), w.second};
        }
    }
    static unsigned slotOf(CallBase *CB) { return (unsigned)cast<ConstantInt>(CB->getArgOperand(0))->getZExtValue(); }
    bool active(const State &s, const Watch &w) const { return w.addr && s.env.count(w.addr); }
    bool anyActive(const State &s) const {
        for(auto &w : watches)
            if(active(s, w))
                return true;
        return false;
    }
    Lin watchVal(State &s, const Watch &w) {
        auto it = s.env.find(w.val);
        if(it != s.env.end())
            return it->second;
        Lin v = Lin::var(newVar(pow2(w.bits) - 1));
        s.env[w.val] = v;
        return v;
    }
    // s, split by whether lo <= x < lo + n
    void splitRange(const State &s, const Lin &x, const Lin &lo, const Lin &n, States &in, States &outs) {
        pushIf(outs, s, {ge0(lo - x - 1)});
        pushIf(outs, s, {ge0(x - lo - n)});
        pushIf(in, s, {ge0(x - lo), ge0(lo + n - x - 1)});
    }
    // The value of the `bits` wide object at address p: from the watches, or unknown.
    void loadAt(State s, const Lin &p, unsigned bits, std::vector<std::pair<State, Lin>> &out, bool mark = true) {
        States cur{std::move(s)};
        for(auto &w : watches) {
            if(w.bits != bits)
                continue;
            States nx;
            for(auto &t : cur) {
                if(!active(t, w)) {
                    nx.push_back(std::move(t));
                    continue;
                }
                Lin a = t.env[w.addr];
                mine(p, a);
                States in;
                splitRange(t, p, a, Lin(1), in, nx);
                for(auto &x : in) {
                    Lin v = watchVal(x, w);
                    for(auto &w2 : watches) // what is known under another name
                        if(&w2 != &w && w2.bits == bits && active(x, w2) && impliesEq(x, a, x.env[w2.addr]))
                            add(x, eq0(watchVal(x, w2) - v));
                    if(x.dead)
                        continue;
                    if(mark)
                        x.env[w.seen] = Lin(1);
                    out.push_back({std::move(x), v});
                }
            }
            cur.swap(nx);
        }
        for(auto &t : cur) {
            Lin v = Lin::var(newVar(pow2(bits) - 1));
            out.push_back({std::move(t), v});
        }
    }
    // n bytes from address p are overwritten; `exact` gives the new content when the watched object is
    // hit in full (nullptr: unknown).
    void storeAt(State s, const Lin &p, const Lin &n, States &out,
                 std::function<bool(State &, const Watch &, const Lin &, Lin &)> exact) {
        States cur{std::move(s)};
        for(auto &w : watches) {
            if(!w.addr)
                continue;
            States nx;
            for(auto &t : cur) {
                if(!active(t, w)) {
                    t.env.erase(w.val);
                    nx.push_back(std::move(t));
                    continue;
                }
                Lin a = t.env[w.addr];
                mine(p, a);
                States in;
                i128 wb = w.bits / 8;
                // untouched: [a, a+wb) and [p, p+n) are disjoint
                splitRange(t, a, p - (wb - 1), n + (wb - 1), in, nx);
                for(auto &x : in) {
                    Lin v;
                    x.env.erase(w.val);
                    if(w.seen)
                        x.env[w.seen] = Lin(1);
                    if(exact && exact(x, w, a, v))
                        x.env[w.val] = v;
                    nx.push_back(std::move(x));
                }
            }
            cur.swap(nx);
        }
        for(auto &t : cur)
            out.push_back(std::move(t));
    }
    static bool keepsMemory(CallBase *CB) {
        if(CB->onlyReadsMemory() || CB->doesNotAccessMemory() || CB->onlyAccessesInaccessibleMemory())
            return true;
        if(isa<IntrinsicInst>(CB))
            return !isa<MemIntrinsic>(CB);
        Function *C = CB->getCalledFunction();
        if(!C)
            return false;
        StringRef n = C->getName();
        return n.starts_with("vk_") || n.starts_with("__cxa_") || n.starts_with("_Znw") || n.starts_with("_Zna") ||
               n.starts_with("_Zdl") || n.starts_with("_Zda") || n == "malloc" || n == "calloc" || n == "aligned_alloc" || n == "free" ||
               n == "abort" || n.contains("bootstrap_throw") || n.contains("internal_failure") || n.contains("PyExceptionC") ||
               n == "strlen" || n == "memcmp" || n == "memchr" || n == "strcmp" || n == "strncmp" || n == "fprintf" || n == "__assert_fail";
    }
    bool mayWriteWatched(Instruction *I) const {
        if(auto *ST = dyn_cast<StoreInst>(I)) {
            auto *GV = dyn_cast<GlobalVariable>(ST->getPointerOperand());
            return !(GV && cells.count(GV));
        }
        if(auto *CB = dyn_cast<CallBase>(I))
            return !keepsMemory(CB);
        return I->mayWriteToMemory();
    }
    // block operations and calls, on the watched content; false: not one of them
    bool execWatched(State &s, Instruction *I, States &out) {
        auto *CB = dyn_cast<CallBase>(I);
        if(!CB)
            return false;
        unsigned bits;
        if(CB->getCalledFunction() && CB->getCalledFunction()->getName() == "vk_side") {
            s.env[sideCell] = get(s, CB->getArgOperand(0));
            out.push_back(std::move(s));
            return true;
        }
        if(watchCall(I, bits)) {
            auto &w = watches[slotOf(CB)];
            s.env[w.addr] = get(s, CB->getArgOperand(1));
            s.env[w.val] = Lin::var(newVar(pow2(w.bits) - 1));
            s.env[w.seen] = Lin(0);
            out.push_back(std::move(s));
            return true;
        }
        if(!anyActive(s))
            return false;
        if(auto *MS = dyn_cast<MemSetInst>(CB)) {
            Lin p = get(s, MS->getDest()), n = get(s, MS->getLength()), v = get(s, MS->getValue());
            storeAt(std::move(s), p, n, out, [&](State &x, const Watch &w, const Lin &, Lin &r) {
                if(w.bits == 8) {
                    r = v;
                    return true;
                }
                if(v.isConst() && v.c == 0) {
                    r = Lin(0);
                    return true;
                }
                return false;
            });
            return true;
        }
        Function *C = CB->getCalledFunction();
        StringRef n = C ? C->getName() : StringRef();
        auto *MT = dyn_cast<MemTransferInst>(CB);
        if(MT || ((n == "memcpy" || n == "memmove") && CB->arg_size() == 3)) {
            Lin d = get(s, CB->getArgOperand(0)), q = get(s, CB->getArgOperand(1)), len = get(s, CB->getArgOperand(2));
            if(!MT)
                s.env[I] = d;
            // the content before the copy
            std::vector<Lin> olds;
            for(auto &w : watches)
                olds.push_back(active(s, w) ? watchVal(s, w) : Lin(0));
            States cur{std::move(s)};
            for(auto &w : watches) {
                States nx;
                for(auto &t : cur) {
                    if(!active(t, w)) {
                        if(w.val)
                            t.env.erase(w.val);
                        nx.push_back(std::move(t));
                        continue;
                    }
                    Lin a = t.env[w.addr];
                    States in;
                    i128 wb = w.bits / 8;
                    splitRange(t, a, d - (wb - 1), len + (wb - 1), in, nx);
                    for(auto &x0 : in) {
                        States todo{std::move(x0)};
                        Lin from = q + a - d;
                        for(size_t j = 0; j < watches.size(); ++j) {
                            auto &w2 = watches[j];
                            if(w2.bits != w.bits)
                                continue;
                            States rest;
                            for(auto &x : todo) {
                                if(!active(x, w2)) {
                                    rest.push_back(std::move(x));
                                    continue;
                                }
                                States hit;
                                splitRange(x, from, x.env[w2.addr], Lin(1), hit, rest);
                                for(auto &h : hit) {
                                    h.env[w.val] = olds[j];
                                    nx.push_back(std::move(h));
                                }
                            }
                            todo.swap(rest);
                        }
                        for(auto &x : todo) {
                            x.env[w.val] = Lin::var(newVar(pow2(w.bits) - 1));
                            nx.push_back(std::move(x));
                        }
                    }
                }
                cur.swap(nx);
            }
            for(auto &t : cur)
                out.push_back(std::move(t));
            return true;
        }
        if(n == "strlen" && CB->arg_size() == 1) {
            Lin p = get(s, CB->getArgOperand(0));
            Lin len = Lin::var(newVar(pow2(62)));
            s.env[I] = len;
            States cur{std::move(s)};
            for(auto &w : watches) {
                if(w.bits != 8)
                    continue;
                States nx;
                for(auto &t : cur) {
                    if(!active(t, w)) {
                        nx.push_back(std::move(t));
                        continue;
                    }
                    Lin a = t.env[w.addr], v = watchVal(t, w);
                    pushIf(nx, t, {ge0(p - a - 1)});
                    pushIf(nx, t, {ge0(a - p - len - 1)});
                    pushIf(nx, t, {ge0(a - p), ge0(p + len - a - 1), ge0(v - 1)});
                    pushIf(nx, t, {eq0(a - p - len), eq0(v)});
                }
                cur.swap(nx);
            }
            for(auto &t : cur)
                out.push_back(std::move(t));
            return true;
        }
        if((n == "memcmp" || n == "bcmp") && CB->arg_size() == 3) {
            Lin p = get(s, CB->getArgOperand(0)), q = get(s, CB->getArgOperand(1)), len = get(s, CB->getArgOperand(2));
            State ne = s;
            ne.env[I] = freshFor(I);
            States nes;
            pushIf(nes, ne, {ge0(ne.env[I] - 1)});
            pushIf(nes, ne, {});
            for(auto &x : nes)
                if(impliesLe(x, Lin(1), x.env[I]))
                    out.push_back(std::move(x));
            s.env[I] = Lin(0);
            States cur{std::move(s)};
            for(auto &w : watches)
                for(auto &w2 : watches) {
                    if(&w == &w2 || w.bits != 8 || w2.bits != 8)
                        continue;
                    States nx;
                    for(auto &t : cur) {
                        if(!active(t, w) || !active(t, w2)) {
                            nx.push_back(std::move(t));
                            continue;
                        }
                        Lin a = t.env[w.addr], b = t.env[w2.addr], v = watchVal(t, w), v2 = watchVal(t, w2);
                        States in, same;
                        splitRange(t, a, p, len, in, nx);
                        for(auto &x : in) {
                            splitRange(x, b, q + a - p, Lin(1), same, nx);
                        }
                        for(auto &x : same)
                            pushIf(nx, x, {eq0(v - v2)});
                    }
                    cur.swap(nx);
                }
            for(auto &t : cur)
                out.push_back(std::move(t));
            return true;
        }
        if(!keepsMemory(CB))
            for(auto &w : watches)
                if(w.val)
                    s.env.erase(w.val);
        return false;
    }
    // a callee with a body may write the cells
    std::map<Function *, std::set<GlobalVariable *>> touchMemo;
    void havocCells(State &s, CallBase *CB) {
        Function *T = CB->getCalledFunction();
        if(T && T->isDeclaration())
            return;
        if(T) {
            auto it = touchMemo.find(T);
            if(it == touchMemo.end())
                it = touchMemo.insert({T, touchesCells(*T)}).first;
            for(auto *GV : it->second)
                s.env.erase(GV);
            return;
        }
        for(auto *GV : cells)
            if(!watchCells.count(GV))
                s.env.erase(GV);
    }
    std::set<GlobalVariable *> touchesCells(Function &T) {
        std::set<GlobalVariable *> written;
        std::set<Function *> seen{&T};
        std::vector<Function *> wl{&T};
        while(!wl.empty()) {
            Function *G = wl.back();
            wl.pop_back();
            for(auto &B : *G)
                for(auto &I : B) {
                    if(auto *ST = dyn_cast<StoreInst>(&I))
                        if(auto *GV = dyn_cast<GlobalVariable>(ST->getPointerOperand()); GV && cells.count(GV))
                            written.insert(GV);
                    if(auto *CB = dyn_cast<CallBase>(&I))
                        if(Function *N = CB->getCalledFunction();
                           N && !N->isDeclaration() && seen.insert(N).second)
                            wl.push_back(N);
                }
        }
        return written;
    }
    const DataLayout &DL;
    DominatorTree DT;
    LoopInfo LI;
    std::vector<i128> varMax; // inclusive
    bool record = true;

    int newVar(i128 maxv) {
        varMax.push_back(maxv);
        return (int)varMax.size() - 1;
    }
    unsigned width(Type *T) const {
        if(T->isPointerTy())
            return 64;
        if(auto *I = dyn_cast<IntegerType>(T))
            return I->getBitWidth();
        return 0;
    }
    Lin freshFor(Value *V) {
        unsigned w = V ? width(V->getType()) : 64;
        if(!w || w > 64)
            w = 64;
        return Lin::var(newVar(pow2(w) - 1));
    }
    void define(State &s, Value *V, const Lin &l) { s.env[V] = l; }

    // ---- queries ---------------------------------------------------------
    static void tighten(Con &c) {
        i128 g = 0;
        for(auto &p : c.l.t)
            g = lin::gcdx(g, p.second);
        if(g > 1) {
            if(c.eq && c.l.c % g != 0) {
                c.l.t.clear();
                c.l.c = 1;
                return;
            }
            for(auto &p : c.l.t)
                p.second /= g;
            i128 q = c.l.c / g;
            if(c.l.c % g != 0 && c.l.c < 0)
                --q; // floor
            c.l.c = q;
        }
    }
    bool feasible(const State &s, const std::vector<Con> &extra) {
        ++queries;
        tick();
        if(queries > 4000000)
            throw Budget();
        std::set<int> vars;
        std::vector<Con> cs;
        for(auto &c : extra) {
            cs.push_back(c);
            if(c.l.t.empty() && (c.eq ? c.l.c != 0 : c.l.c < 0))
                return false;
            for(auto &p : c.l.t)
                vars.insert(p.first);
        }
        std::vector<char> used(s.cs.size(), 0);
        bool ch = true;
        while(ch) {
            ch = false;
            for(size_t i = 0; i < s.cs.size(); ++i) {
                if(used[i])
                    continue;
                bool hit = false;
                for(auto &p : s.cs[i].l.t)
                    if(vars.count(p.first)) {
                        hit = true;
                        break;
                    }
                if(hit) {
                    used[i] = 1;
                    ch = true;
                    cs.push_back(s.cs[i]);
                    for(auto &p : s.cs[i].l.t)
                        vars.insert(p.first);
                }
            }
        }
        for(int v : vars) {
            Con c;
            c.l = Lin(varMax[v]) - Lin::var(v);
            cs.push_back(c);
        }
        try {
            std::vector<Con> ts = cs;
            if(!integral(ts))
                return false;
            cs.swap(ts);
        } catch(lin::Overflow &) {
        }
        return lin::feasibleRaw(cs);
    }
    // Uses equalities to get rid of variables, so that inequalities between integers can be tightened.
    static bool integral(std::vector<Con> &cs) {
        for(size_t i = 0; i < cs.size(); ++i) {
            if(!cs[i].eq)
                continue;
            tighten(cs[i]);
            int v = -1;
            i128 k = 0;
            for(auto &p : cs[i].l.t)
                if(p.second == 1 || p.second == -1) {
                    v = p.first;
                    k = p.second;
                }
            if(v < 0)
                continue;
            const Lin rest = (cs[i].l - Lin::var(v) * k) * -k; // v == rest
            for(size_t j = 0; j < cs.size(); ++j) {
                if(j == i)
                    continue;
                i128 c = 0;
                for(auto &p : cs[j].l.t)
                    if(p.first == v)
                        c = p.second;
                if(c)
                    cs[j].l = (cs[j].l - Lin::var(v) * c) + rest * c;
            }
            cs[i].eq = false;
            cs[i].l = rest; // v >= 0
        }
        for(auto &c : cs) {
            tighten(c);
            if(c.l.t.empty() && (c.eq ? c.l.c != 0 : c.l.c < 0))
                return false;
        }
        return true;
    }
    Con ge0(const Lin &l) {
        Con c;
        c.l = l;
        tighten(c);
        return c;
    }
    Con eq0(const Lin &l) {
        Con c;
        c.l = l;
        c.eq = true;
        tighten(c);
        return c;
    }
    // a <= b in every concretisation
    bool impliesLe(const State &s, const Lin &a, const Lin &b) {
        Lin d = a - b; // violated iff a - b >= 1
        if(d.isConst())
            return d.c <= 0;
        return !feasible(s, {ge0(d - 1)});
    }
    bool impliesEq(const State &s, const Lin &a, const Lin &b) {
        Lin d = a - b;
        if(d.isConst())
            return d.c == 0;
        return impliesLe(s, a, b) && impliesLe(s, b, a);
    }
    bool add(State &s, const Con &c) {
        if(c.l.t.empty()) {
            if(c.eq ? c.l.c != 0 : c.l.c < 0) {
                s.dead = true;
                return false;
            }
            return true;
        }
        for(auto &o : s.cs)
            if(o.eq == c.eq && o.l == c.l)
                return true;
        if(!feasible(s, {c})) {
            s.dead = true;
            return false;
        }
        s.cs.push_back(c);
        return true;
    }

    // ---- values ----------------------------------------------------------
    bool isNumeric(Value *, Type *T) const {
        unsigned w = width(T);
        return w >= 1 && w <= 64;
    }
    bool isNumeric(Value *V) const {
        unsigned w = width(V->getType());
        return w >= 1 && w <= 64;
    }
    std::map<Value *, Lin> constEnv;
    Lin constLin(Constant *C) {
        if(auto *CI = dyn_cast<ConstantInt>(C))
            if(CI->getBitWidth() <= 64)
                return Lin((i128)CI->getZExtValue());
        if(isa<ConstantPointerNull>(C))
            return Lin();
        if(auto *CE = dyn_cast<ConstantExpr>(C))
            if(CE->getOpcode() == Instruction::IntToPtr || CE->getOpcode() == Instruction::PtrToInt)
                return constLin(CE->getOperand(0));
        auto it = constEnv.find(C);
        if(it != constEnv.end())
            return it->second;
        Lin l = freshFor(C);
        if(auto *GV = dyn_cast<GlobalVariable>(C); GV && GV->getValueType()->isSized() && !GV->hasExternalLinkage())
            l = Lin(pow2(45) + (i128)constEnv.size() * pow2(24));
        constEnv[C] = l;
        return l;
    }
    std::map<Value *, i128> allocaAt;
    Lin get(State &s, Value *V) {
        if(auto *C = dyn_cast<Constant>(V))
            return constLin(C);
        auto it = s.env.find(V);
        if(it != s.env.end())
            return it->second;
        if(V->getType()->isIntegerTy(1)) {
            // unresolved condition: opaque here
        }
        Lin l = freshFor(V);
        s.env[V] = l;
        return l;
    }
    // signed reading of an unsigned value: splits when the sign is unknown
    void signedOf(State s, const Lin &v, unsigned w, std::vector<std::pair<State, Lin>> &out) {
        i128 half = pow2(w - 1);
        if(impliesLe(s, v, Lin(half - 1))) {
            out.push_back({std::move(s), v});
            return;
        }
        if(impliesLe(s, Lin(half), v)) {
            out.push_back({std::move(s), v - pow2(w)});
            return;
        }
        State b = s;
        if(add(s, ge0(Lin(half - 1) - v)))
            out.push_back({std::move(s), v});
        if(add(b, ge0(v - half)))
            out.push_back({std::move(b), v - pow2(w)});
    }
    // value modulo 2^w when it lies in (-2^w, 2^(w+1)): splits when it may wrap
    void wrapTo(State s, const Lin &v, unsigned w, std::vector<std::pair<State, Lin>> &out) {
        i128 m = pow2(w);
        bool lo = impliesLe(s, Lin(0), v), hi = impliesLe(s, v, Lin(m - 1));
        if(lo && hi) {
            out.push_back({std::move(s), v});
            return;
        }
        if(!lo) {
            State b = s;
            if(add(b, ge0(Lin(-1) - v)))
                out.push_back({std::move(b), v + m});
        }
        if(!hi) {
            State b = s;
            if(add(b, ge0(v - m)))
                out.push_back({std::move(b), v - m});
        }
        if(add(s, ge0(v)) && add(s, ge0(Lin(m - 1) - v)))
            out.push_back({std::move(s), v});
    }

    // ---- conditions ------------------------------------------------------
    void pushIf(States &out, State s, std::vector<Con> cons) {
        for(auto &c : cons)
            if(!add(s, c))
                return;
        out.push_back(std::move(s));
    }
    States assumeCmp(State s, CmpInst::Predicate P, const Lin &a, const Lin &b) {
        States out;
        switch(P) {
        case CmpInst::ICMP_EQ: pushIf(out, std::move(s), {eq0(a - b)}); break;
        case CmpInst::ICMP_NE:
            if((a - b).isConst()) {
                if((a - b).c != 0)
                    out.push_back(std::move(s));
                break;
            }
            pushIf(out, s, {ge0(a - b - 1)});
            pushIf(out, std::move(s), {ge0(b - a - 1)});
            break;
        case CmpInst::ICMP_UGE: pushIf(out, std::move(s), {ge0(a - b)}); break;
        case CmpInst::ICMP_UGT: pushIf(out, std::move(s), {ge0(a - b - 1)}); break;
        case CmpInst::ICMP_ULE: pushIf(out, std::move(s), {ge0(b - a)}); break;
        case CmpInst::ICMP_ULT: pushIf(out, std::move(s), {ge0(b - a - 1)}); break;
        default: out.push_back(std::move(s));
        }
        return out;
    }
    States assume(State s, Value *V, bool t) {
        States out;
        if(auto *C = dyn_cast<ConstantInt>(V)) {
            if(C->isOne() == t)
                out.push_back(std::move(s));
            return out;
        }
        auto known = s.env.find(V);
        if(known != s.env.end() && known->second.isConst()) {
            if((known->second.c == 1) == t)
                out.push_back(std::move(s));
            return out;
        }
        Value *A, *B;
        if(auto *I = dyn_cast<ICmpInst>(V)) {
            Type *T = I->getOperand(0)->getType();
            unsigned w = width(T);
            if(w >= 1 && w <= 64) {
                auto P = t ? I->getPredicate() : I->getInversePredicate();
                if(w == 1 && I->isEquality()) {
                    // i1 equality: split on the left operand
                    for(int v = 0; v < 2; ++v)
                        for(auto &s1 : assume(s, I->getOperand(0), v))
                            for(auto &s2 :
                                assume(s1, I->getOperand(1), (P == CmpInst::ICMP_EQ) ? v : !v))
                                out.push_back(std::move(s2));
                    setBool(out, V, t);
                    return out;
                }
                Lin a = get(s, I->getOperand(0)), b = get(s, I->getOperand(1));
                mine(a, b);
                if(CmpInst::isSigned(P)) {
                    std::vector<std::pair<State, Lin>> as;
                    signedOf(std::move(s), a, w, as);
                    for(auto &x : as) {
                        std::vector<std::pair<State, Lin>> bs;
                        signedOf(std::move(x.first), b, w, bs);
                        for(auto &y : bs)
                            for(auto &z : assumeCmp(std::move(y.first),
                                                    ICmpInst::getUnsignedPredicate(P),
                                                    x.second,
                                                    y.second))
                                out.push_back(std::move(z));
                    }
                } else {
                    out = assumeCmp(std::move(s), P, a, b);
                }
                setBool(out, V, t);
                return out;
            }
        }
        if(matchLogic(V, true, A, B)) { // A && B
            if(t) {
                for(auto &x : assume(std::move(s), A, true))
                    for(auto &y : assume(std::move(x), B, true))
                        out.push_back(std::move(y));
            } else {
                for(auto &x : assume(s, A, false))
                    out.push_back(std::move(x));
                for(auto &x : assume(std::move(s), A, true))
                    for(auto &y : assume(std::move(x), B, false))
                        out.push_back(std::move(y));
            }
            setBool(out, V, t);
            return out;
        }
        if(matchLogic(V, false, A, B)) { // A || B
            if(!t) {
                for(auto &x : assume(std::move(s), A, false))
                    for(auto &y : assume(std::move(x), B, false))
                        out.push_back(std::move(y));
            } else {
                for(auto &x : assume(s, A, true))
                    out.push_back(std::move(x));
                for(auto &x : assume(std::move(s), A, false))
                    for(auto &y : assume(std::move(x), B, true))
                        out.push_back(std::move(y));
            }
            setBool(out, V, t);
            return out;
        }
        if(auto *BO = dyn_cast<BinaryOperator>(V))
            if(BO->getOpcode() == Instruction::Xor) {
                for(int v = 0; v < 2; ++v)
                    for(auto &x : assume(s, BO->getOperand(0), v))
                        for(auto &y : assume(std::move(x), BO->getOperand(1), t ? !v : v))
                            out.push_back(std::move(y));
                setBool(out, V, t);
                return out;
            }
        if(auto *SI = dyn_cast<SelectInst>(V)) {
            for(int v = 0; v < 2; ++v)
                for(auto &x : assume(s, SI->getCondition(), v))
                    for(auto &y :
                        assume(std::move(x), v ? SI->getTrueValue() : SI->getFalseValue(), t))
                        out.push_back(std::move(y));
            setBool(out, V, t);
            return out;
        }
        if(auto *T = dyn_cast<TruncInst>(V)) {
            // trunc to i1 of a value known to be 0 or 1
            Lin a = get(s, T->getOperand(0));
            if(impliesLe(s, a, Lin(1))) {
                out = assumeCmp(std::move(s), CmpInst::ICMP_EQ, a, Lin(t ? 1 : 0));
                setBool(out, V, t);
                return out;
            }
        }
        if(auto *FI = dyn_cast<FreezeInst>(V)) {
            out = assume(std::move(s), FI->getOperand(0), t);
            setBool(out, V, t);
            return out;
        }
        Lin a = get(s, V);
        out = assumeCmp(std::move(s), CmpInst::ICMP_EQ, a, Lin(t ? 1 : 0));
        return out;
    }
    void setBool(States &ss, Value *V, bool t) {
        for(auto &s : ss)
            s.env[V] = Lin(t ? 1 : 0);
    }
    static bool matchLogic(Value *V, bool isAnd, Value *&A, Value *&B) {
        if(auto *BO = dyn_cast<BinaryOperator>(V)) {
            if(BO->getOpcode() == (isAnd ? Instruction::And : Instruction::Or)) {
                A = BO->getOperand(0);
                B = BO->getOperand(1);
                return true;
            }
            return false;
        }
        if(auto *S = dyn_cast<SelectInst>(V)) {
            if(isAnd) {
                if(auto *C = dyn_cast<ConstantInt>(S->getFalseValue()))
                    if(C->isZero()) {
                        A = S->getCondition();
                        B = S->getTrueValue();
                        return true;
                    }
            } else {
                if(auto *C = dyn_cast<ConstantInt>(S->getTrueValue()))
                    if(C->isOne()) {
                        A = S->getCondition();
                        B = S->getFalseValue();
                        return true;
                    }
            }
        }
        return false;
    }

    // ---- instructions ----------------------------------------------------
    void defAll(States &out, std::vector<std::pair<State, Lin>> &r, Value *V) {
        for(auto &x : r) {
            x.first.env[V] = x.second;
            out.push_back(std::move(x.first));
        }
    }
    static bool constOf(const Lin &l, i128 &k) {
        if(!l.isConst())
            return false;
        k = l.c;
        return true;
    }
    // x = k*q + r, 0 <= r < k
    // Bounds of a variable from the constraints it appears in (a cheap over-approximation).
    void rangeOf(const State &s, int v, i128 &lo, i128 &hi, int depth) {
        lo = 0;
        hi = varMax[v];
        for(auto &c : s.cs) {
            i128 cf = 0;
            for(auto &p : c.l.t)
                if(p.first == v)
                    cf = p.second;
            if((cf != 1 && cf != -1) || (c.l.t.size() > 1 && (depth == 0 || c.l.t.size() > 3)))
                continue;
            i128 rl = c.l.c, rh = c.l.c; // the rest of it
            bool ok = true;
            for(auto &p : c.l.t)
                if(p.first != v) {
                    i128 a, b;
                    rangeOf(s, p.first, a, b, depth - 1);
                    if(b > pow2(64) || p.second > pow2(32) || -p.second > pow2(32)) {
                        ok = false;
                        break;
                    }
                    rl += p.second > 0 ? p.second * a : p.second * b;
                    rh += p.second > 0 ? p.second * b : p.second * a;
                }
            if(!ok)
                continue;
            // cf v + rest >= 0 (== 0)
            if(cf == 1) {
                lo = std::max(lo, -rh);
                if(c.eq)
                    hi = std::min(hi, -rl);
            } else {
                hi = std::min(hi, rh);
                if(c.eq)
                    lo = std::max(lo, rl);
            }
        }
    }
    void divmod(State &s, const Lin &x, i128 k, Lin &q, Lin &r) {
        i128 c;
        if(constOf(x, c) && c >= 0) {
            q = Lin(c / k);
            r = Lin(c % k);
            return;
        }
        auto exact = [&](const Lin &y) {
            for(auto &p : y.t)
                if(p.second % k != 0)
                    return false;
            i128 m = y.c % k;
            if(m < 0)
                m += k;
            r = Lin(m);
            q = y - r;
            for(auto &p : q.t)
                p.second /= k;
            q.c /= k;
            return true;
        };
        if(exact(x))
            return;
        if(x.t.size() == 1 && x.t[0].second == 1) // known as k * y + r?
            for(auto &c2 : s.cs) {
                if(!c2.eq)
                    continue;
                i128 cf = 0;
                for(auto &p : c2.l.t)
                    if(p.first == x.t[0].first)
                        cf = p.second;
                if((cf == 1 || cf == -1) && exact(x - c2.l * cf))
                    return;
            }
        if(impliesLe(s, x, Lin(k - 1))) {
            q = Lin(0);
            r = x;
            return;
        }
        if(x.t.size() == 1 && x.t[0].second == 1) { // one quotient only?
            i128 lo, hi;
            rangeOf(s, x.t[0].first, lo, hi, 2);
            lo += x.c;
            hi += x.c;
            if(lo >= 0 && lo <= hi && lo / k == hi / k) {
                q = Lin(lo / k);
                r = x - q * k;
                return;
            }
        }
        q = Lin::var(newVar(pow2(64) - 1));
        r = Lin::var(newVar(k - 1));
        add(s, eq0(x - q * k - r));
    }
    // Executes I in s; resulting states appended to out.
    void exec(State s, Instruction *I, States &out) {
        if(guards.empty()) {
            execOne(std::move(s), I, out);
            return;
        }
        for(auto &x : guarded(std::move(s), I))
            execOne(std::move(x), I, out);
    }
    // Guarded bytes: which accesses touch them
    States guarded(State s, Instruction *I) {
        States cur{std::move(s)};
        std::vector<std::pair<Value *, Value *>> ranges; // address, number of bytes (nullptr: fixed)
        i128 fixed = 0;
        if(auto *LD = dyn_cast<LoadInst>(I)) {
            if(!isa<GlobalVariable>(LD->getPointerOperand()))
                ranges.push_back({LD->getPointerOperand(), nullptr});
            fixed = (i128)DL.getTypeStoreSize(LD->getType()).getFixedValue();
        } else if(auto *ST = dyn_cast<StoreInst>(I)) {
            if(!isa<GlobalVariable>(ST->getPointerOperand()))
                ranges.push_back({ST->getPointerOperand(), nullptr});
            fixed = (i128)DL.getTypeStoreSize(ST->getValueOperand()->getType()).getFixedValue();
        } else if(auto *MI = dyn_cast<MemIntrinsic>(I)) {
            ranges.push_back({MI->getDest(), MI->getLength()});
            if(auto *MT = dyn_cast<MemTransferInst>(I))
                ranges.push_back({MT->getSource(), MI->getLength()});
        } else if(auto *CB = dyn_cast<CallBase>(I)) {
            Function *C = CB->getCalledFunction();
            StringRef n = C ? C->getName() : StringRef();
            if((n == "memcmp" || n == "bcmp" || n == "memcpy" || n == "memmove") && CB->arg_size() == 3) {
                ranges.push_back({CB->getArgOperand(0), CB->getArgOperand(2)});
                ranges.push_back({CB->getArgOperand(1), CB->getArgOperand(2)});
            } else if((n == "memset" || n == "memchr") && CB->arg_size() == 3) {
                ranges.push_back({CB->getArgOperand(0), CB->getArgOperand(2)});
            } else if(n == "vk_guard") {
                auto &g = guards[slotOf(CB)];
                cur[0].env[g.addr] = get(cur[0], CB->getArgOperand(1));
                cur[0].env[g.seen] = Lin(0);
            } else if(n == "vk_guard_hit") {
                auto &g = guards[slotOf(CB)];
                auto it = cur[0].env.find(g.seen);
                cur[0].env[I] = it == cur[0].env.end() ? Lin(0) : it->second;
            }
        }
        for(auto &r : ranges)
            for(auto &g : guards) {
                if(!g.addr)
                    continue;
                States nx;
                for(auto &t : cur) {
                    auto a = t.env.find(g.addr);
                    auto h = t.env.find(g.seen);
                    if(a == t.env.end() || (h != t.env.end() && h->second.isConst() && h->second.c == 1)) {
                        nx.push_back(std::move(t));
                        continue;
                    }
                    Lin at = a->second, p = get(t, r.first), n = r.second ? get(t, r.second) : Lin(fixed);
                    mine(p, at);
                    States in;
                    splitRange(t, at, p, n, in, nx);
                    for(auto &x : in) {
                        x.env[g.seen] = Lin(1);
                        nx.push_back(std::move(x));
                    }
                }
                cur.swap(nx);
            }
        return cur;
    }
    void execOne(State s, Instruction *I, States &out) {
        if(auto *CB = dyn_cast<CallBase>(I); CB && !guards.empty())
            if(Function *C = CB->getCalledFunction(); C && C->getName() == "vk_guard_hit") {
                out.push_back(std::move(s));
                return;
            }
        tick();
        if(steps > 4000000)
            throw Budget();
        unsigned w = width(I->getType());
        bool num = w >= 1 && w <= 64;
        if(isa<ICmpInst>(I) || (w == 1 && (isa<BinaryOperator>(I) || isa<SelectInst>(I) ||
                                           isa<FreezeInst>(I) || isa<TruncInst>(I)))) {
            s.env.erase(I); // evaluated lazily, where it is used
            out.push_back(std::move(s));
            return;
        }
        if(auto *CB = dyn_cast<CallBase>(I))
            havocCells(s, CB);
        if(!watches.empty() && execWatched(s, I, out))
            return;
        std::vector<std::pair<State, Lin>> r;
        if(auto *BO = dyn_cast<BinaryOperator>(I); BO && num) {
            Lin a = get(s, BO->getOperand(0)), b = get(s, BO->getOperand(1));
            i128 k, ka;
            switch(BO->getOpcode()) {
            case Instruction::Add:
                if(constOf(b, k) && k >= pow2(w - 1))
                    wrapTo(std::move(s), a + (k - pow2(w)), w, r);
                else
                    wrapTo(std::move(s), a + b, w, r);
                defAll(out, r, I);
                return;
            case Instruction::Sub:
                wrapTo(std::move(s), a - b, w, r);
                defAll(out, r, I);
                return;
            case Instruction::Xor:
                if(constOf(b, k) && k == pow2(w) - 1) {
                    s.env[I] = Lin(k) - a;
                    out.push_back(std::move(s));
                    return;
                }
                if(constOf(b, k) && constOf(a, ka)) {
                    s.env[I] = Lin((i128)((unsigned __int128)k ^ (unsigned __int128)ka));
                    out.push_back(std::move(s));
                    return;
                }
                if(constOf(b, k) && k > 0 && (k & (k - 1)) == 0 && impliesLe(s, a, Lin(2 * k - 1))) { // the top bit
                    State hi = s;
                    add(hi, ge0(a - k));
                    hi.env[I] = a - k;
                    add(s, ge0(Lin(k - 1) - a));
                    s.env[I] = a + k;
                    if(!hi.dead)
                        out.push_back(std::move(hi));
                    if(!s.dead)
                        out.push_back(std::move(s));
                    return;
                }
                break;
            case Instruction::Mul:
            case Instruction::Shl: {
                i128 f = -1;
                Lin x;
                if(BO->getOpcode() == Instruction::Shl) {
                    if(constOf(b, k) && k < w) {
                        f = pow2((unsigned)k);
                        x = a;
                    }
                } else if(constOf(b, k)) {
                    f = k;
                    x = a;
                } else if(constOf(a, ka)) {
                    f = ka;
                    x = b;
                }
                if(f >= 0) {
                    if(f >= pow2(w - 1)) {
                        // negative constant: x * (f - 2^w), one wrap if x <= 1 ... give up
                        break;
                    }
                    Lin p = x * f;
                    if(BO->hasNoUnsignedWrap() || impliesLe(s, p, Lin(pow2(w) - 1))) {
                        if(BO->hasNoUnsignedWrap() && !add(s, ge0(Lin(pow2(w) - 1) - p)))
                            return;
                        s.env[I] = p;
                    } else {
                        // p mod 2^w
                        Lin q = Lin::var(newVar(f)), v = freshFor(I);
                        add(s, eq0(p - q * pow2(w) - v));
                        s.env[I] = v;
                    }
                    out.push_back(std::move(s));
                    return;
                }
                break;
            }
            case Instruction::UDiv:
            case Instruction::LShr: {
                i128 d = 0;
                if(constOf(b, k))
                    d = BO->getOpcode() == Instruction::UDiv ? k : (k < w ? pow2((unsigned)k) : 0);
                Lin q, m;
                if(d > 0) {
                    divmod(s, a, d, q, m);
                    if(s.dead)
                        return;
                    s.env[I] = q;
                } else {
                    Lin v = freshFor(I);
                    add(s, ge0(a - v));
                    s.env[I] = v;
                }
                out.push_back(std::move(s));
                return;
            }
            case Instruction::URem: {
                Lin q, m;
                if(constOf(b, k) && k > 0) {
                    divmod(s, a, k, q, m);
                    if(s.dead)
                        return;
                    s.env[I] = m;
                } else {
                    Lin v = freshFor(I);
                    add(s, ge0(a - v));
                    add(s, ge0(b - v - 1));
                    if(s.dead)
                        return;
                    s.env[I] = v;
                }
                out.push_back(std::move(s));
                return;
            }
            case Instruction::AShr:
            case Instruction::SDiv: {
                i128 d = 0;
                if(constOf(b, k))
                    d = BO->getOpcode() == Instruction::SDiv ? k : (k < w ? pow2((unsigned)k) : 0);
                if(d > 0 && d < pow2(w - 1)) {
                    std::vector<std::pair<State, Lin>> as;
                    signedOf(std::move(s), a, w, as);
                    for(auto &x : as) {
                        State t = std::move(x.first);
                        if(impliesLe(t, Lin(0), x.second)) {
                            Lin q, m;
                            divmod(t, x.second, d, q, m);
                            if(t.dead)
                                continue;
                            t.env[I] = q;
                        } else if(BO->isExact()) {
                            Lin neg = Lin(0) - x.second, q, m;
                            divmod(t, neg, d, q, m);
                            if(t.dead)
                                continue;
                            t.env[I] = Lin(pow2(w)) - q;
                        } else {
                            t.env[I] = freshFor(I);
                        }
                        out.push_back(std::move(t));
                    }
                    return;
                }
                break;
            }
            case Instruction::And: {
                if(!constOf(b, k) && constOf(a, ka)) {
                    std::swap(a, b);
                    k = ka;
                }
                if(constOf(b, k)) {
                    i128 low = k + 1;
                    if((low & (low - 1)) == 0) { // low mask
                        Lin q, m;
                        divmod(s, a, low, q, m);
                        if(s.dead)
                            return;
                        s.env[I] = m;
                        out.push_back(std::move(s));
                        return;
                    }
                    i128 inv = pow2(w) - 1 - k;
                    if(((inv + 1) & inv) == 0) { // high mask
                        Lin q, m;
                        divmod(s, a, inv + 1, q, m);
                        if(s.dead)
                            return;
                        s.env[I] = q * (inv + 1);
                        out.push_back(std::move(s));
                        return;
                    }
                    i128 lowbit = k & -k, top = k + lowbit;
                    if(k > 0 && (top & (top - 1)) == 0) { // one run of bits
                        Lin q, m, q2, m2;
                        divmod(s, a, top, q, m);
                        if(s.dead)
                            return;
                        divmod(s, m, lowbit, q2, m2);
                        if(s.dead)
                            return;
                        s.env[I] = q2 * lowbit;
                        out.push_back(std::move(s));
                        return;
                    }
                }
                Lin v = freshFor(I);
                add(s, ge0(a - v));
                add(s, ge0(b - v));
                s.env[I] = v;
                out.push_back(std::move(s));
                return;
            }
            case Instruction::Or: {
                if(auto *D = dyn_cast<PossiblyDisjointInst>(I); D && D->isDisjoint()) {
                    s.env[I] = a + b;
                    out.push_back(std::move(s));
                    return;
                }
                Lin v = freshFor(I);
                add(s, ge0(v - a));
                add(s, ge0(v - b));
                add(s, ge0(a + b - v));
                s.env[I] = v;
                out.push_back(std::move(s));
                return;
            }
            default: break;
            }
        }
        if(auto *CI = dyn_cast<CastInst>(I); CI && num && isNumeric(CI->getOperand(0))) {
            Value *src = CI->getOperand(0);
            unsigned sw = width(src->getType());
            switch(CI->getOpcode()) {
            case Instruction::ZExt:
            case Instruction::SExt:
                if(sw == 1 && !s.env.count(src)) {
                    for(int v = 0; v < 2; ++v)
                        for(auto &x : assume(s, src, v)) {
                            x.env[I] = Lin(!v ? (i128)0
                                              : CI->getOpcode() == Instruction::ZExt
                                                    ? (i128)1
                                                    : pow2(w) - 1);
                            out.push_back(std::move(x));
                        }
                    return;
                }
                if(CI->getOpcode() == Instruction::ZExt) {
                    s.env[I] = get(s, src);
                    out.push_back(std::move(s));
                } else {
                    Lin a = get(s, src);
                    signedOf(std::move(s), a, sw, r);
                    for(auto &x : r) {
                        // negative readings were shifted by -2^sw
                        bool neg = !(x.second == a);
                        x.first.env[I] = neg ? x.second + pow2(w) : x.second;
                        out.push_back(std::move(x.first));
                    }
                }
                return;
            case Instruction::PtrToInt:
            case Instruction::IntToPtr:
                if(sw == w) {
                    s.env[I] = get(s, src);
                    out.push_back(std::move(s));
                    return;
                }
                break;
            case Instruction::Trunc: {
                Lin a = get(s, src), q, m;
                if(impliesLe(s, a, Lin(pow2(w) - 1)))
                    s.env[I] = a;
                else {
                    divmod(s, a, pow2(w), q, m);
                    if(s.dead)
                        return;
                    s.env[I] = m;
                }
                out.push_back(std::move(s));
                return;
            }
            default: break;
            }
        }
        if(auto *G = dyn_cast<GetElementPtrInst>(I); G && num) {
            // base + sum(index * scale), indices signed
            std::vector<std::pair<State, Lin>> cur, nxt;
            Lin base = get(s, G->getPointerOperand());
            cur.push_back({std::move(s), base});
            for(gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                Value *op = it.getOperand();
                nxt.clear();
                if(StructType *ST = it.getStructTypeOrNull()) {
                    uint64_t off = DL.getStructLayout(ST)->getElementOffset(
                        (unsigned)cast<ConstantInt>(op)->getZExtValue());
                    for(auto &x : cur)
                        nxt.push_back({std::move(x.first), x.second + (i128)off});
                } else {
                    i128 sc = (i128)it.getSequentialElementStride(DL).getFixedValue();
                    if(auto *K = dyn_cast<ConstantInt>(op)) {
                        for(auto &x : cur)
                            nxt.push_back(
                                {std::move(x.first), x.second + sc * (i128)K->getSExtValue()});
                    } else {
                        for(auto &x : cur) {
                            Lin iv = get(x.first, op);
                            std::vector<std::pair<State, Lin>> sg;
                            signedOf(std::move(x.first), iv, width(op->getType()), sg);
                            for(auto &y : sg)
                                nxt.push_back({std::move(y.first), x.second + y.second * sc});
                        }
                    }
                }
                cur.swap(nxt);
            }
            for(auto &x : cur) {
                if(G->isInBounds() || G->hasNoUnsignedWrap() || G->hasNoUnsignedSignedWrap()) {
                    // the address does not wrap
                    if(!add(x.first, ge0(x.second)) ||
                       !add(x.first, ge0(Lin(pow2(64) - 1) - x.second)))
                        continue;
                    x.first.env[I] = x.second;
                    out.push_back(std::move(x.first));
                } else {
                    std::vector<std::pair<State, Lin>> wr;
                    wrapTo(std::move(x.first), x.second, 64, wr);
                    defAll(out, wr, I);
                }
            }
            return;
        }
        if(auto *SI = dyn_cast<SelectInst>(I); SI && num) {
            for(int v = 0; v < 2; ++v)
                for(auto &x : assume(s, SI->getCondition(), v)) {
                    x.env[I] = get(x, v ? SI->getTrueValue() : SI->getFalseValue());
                    out.push_back(std::move(x));
                }
            return;
        }
        if(isa<FreezeInst>(I) && num) {
            s.env[I] = get(s, I->getOperand(0));
            out.push_back(std::move(s));
            return;
        }
        if(auto *EV = dyn_cast<ExtractValueInst>(I)) {
            if(auto *WO = dyn_cast<WithOverflowInst>(EV->getAggregateOperand());
               WO && !WO->isSigned() &&
               (WO->getBinaryOp() == Instruction::Add || WO->getBinaryOp() == Instruction::Sub)) {
                unsigned ow = width(WO->getLHS()->getType());
                Lin a = get(s, WO->getLHS()), b = get(s, WO->getRHS());
                bool isAdd = WO->getBinaryOp() == Instruction::Add;
                Lin v = isAdd ? a + b : a - b;
                wrapTo(std::move(s), v, ow, r);
                for(auto &x : r) {
                    bool ov = !(x.second == v);
                    x.first.env[I] = EV->getIndices()[0] == 0 ? x.second : Lin(ov ? 1 : 0);
                    out.push_back(std::move(x.first));
                }
                return;
            }
        }
        if(auto *II = dyn_cast<IntrinsicInst>(I)) {
            switch(II->getIntrinsicID()) {
            case Intrinsic::assume:
                for(auto &x : assume(std::move(s), II->getArgOperand(0), true))
                    out.push_back(std::move(x));
                return;
            case Intrinsic::umin:
            case Intrinsic::umax:
            case Intrinsic::smin:
            case Intrinsic::smax:
                if(num) {
                    auto id = II->getIntrinsicID();
                    bool sg = id == Intrinsic::smin || id == Intrinsic::smax;
                    bool mn = id == Intrinsic::umin || id == Intrinsic::smin;
                    Lin a = get(s, II->getArgOperand(0)), b = get(s, II->getArgOperand(1));
                    std::vector<std::pair<State, std::pair<Lin, Lin>>> vs;
                    if(sg) {
                        std::vector<std::pair<State, Lin>> as;
                        signedOf(std::move(s), a, w, as);
                        for(auto &x : as) {
                            std::vector<std::pair<State, Lin>> bs;
                            signedOf(std::move(x.first), b, w, bs);
                            for(auto &y : bs)
                                vs.push_back({std::move(y.first), {x.second, y.second}});
                        }
                    } else {
                        vs.push_back({std::move(s), {a, b}});
                    }
                    for(auto &v : vs) {
                        for(auto &x : assumeCmp(v.first, CmpInst::ICMP_ULE, v.second.first, v.second.second)) {
                            x.env[I] = mn ? a : b;
                            out.push_back(std::move(x));
                        }
                        for(auto &x :
                            assumeCmp(std::move(v.first), CmpInst::ICMP_UGT, v.second.first, v.second.second)) {
                            x.env[I] = mn ? b : a;
                            out.push_back(std::move(x));
                        }
                    }
                    return;
                }
                break;
            case Intrinsic::usub_sat:
                if(num) {
                    Lin a = get(s, II->getArgOperand(0)), b = get(s, II->getArgOperand(1));
                    for(auto &x : assumeCmp(s, CmpInst::ICMP_UGE, a, b)) {
                        x.env[I] = a - b;
                        out.push_back(std::move(x));
                    }
                    for(auto &x : assumeCmp(std::move(s), CmpInst::ICMP_ULT, a, b)) {
                        x.env[I] = Lin(0);
                        out.push_back(std::move(x));
                    }
                    return;
                }
                break;
            default: break;
            }
        }
        if(auto *ST = dyn_cast<StoreInst>(I)) {
            auto *GV = dyn_cast<GlobalVariable>(ST->getPointerOperand());
            if(GV && cells.count(GV)) {
                Value *V = ST->getValueOperand();
                if(V->getType()->isIntegerTy(1) && !isa<Constant>(V)) {
                    for(int v = 0; v < 2; ++v)
                        for(auto &x : assume(s, V, v)) {
                            x.env[GV] = Lin(v);
                            out.push_back(std::move(x));
                        }
                    return;
                }
                s.env[GV] = get(s, V);
            } else if(!watches.empty() && anyActive(s)) {
                Value *V = ST->getValueOperand();
                Lin p = get(s, ST->getPointerOperand());
                i128 bytes = (i128)DL.getTypeStoreSize(V->getType()).getFixedValue();
                if(V->getType()->isIntegerTy(1) && !isa<Constant>(V)) {
                    for(int b = 0; b < 2; ++b)
                        for(auto &x : assume(s, V, b))
                            storeAt(std::move(x), p, Lin(1), out, [&](State &, const Watch &w, const Lin &, Lin &r) {
                                r = Lin(b);
                                return w.bits == 8;
                            });
                    return;
                }
                Lin v;
                bool known = isNumeric(V);
                if(known)
                    v = get(s, V);
                storeAt(std::move(s), p, Lin(bytes), out, [&](State &x, const Watch &w, const Lin &a, Lin &r) {
                    if(auto *K = dyn_cast<Constant>(V); K && K->isNullValue()) {
                        r = Lin(0);
                        return bytes >= w.bits / 8;
                    }
                    if(!known || bytes * 8 != w.bits || !impliesEq(x, p, a))
                        return false;
                    r = v;
                    return true;
                });
                return;
            }
            out.push_back(std::move(s));
            return;
        }
        if(auto *LD = dyn_cast<LoadInst>(I); LD && num) {
            if(auto *GV = dyn_cast<GlobalVariable>(LD->getPointerOperand()); GV && cells.count(GV)) {
                auto it = s.env.find(GV);
                Lin v = it != s.env.end() ? it->second : freshFor(I);
                s.env[GV] = v;
                s.env[I] = v;
                out.push_back(std::move(s));
                return;
            }
            if(w >= 8 && !watches.empty() && anyActive(s)) {
                Lin p = get(s, LD->getPointerOperand());
                loadAt(std::move(s), p, w, r);
                defAll(out, r, I);
                return;
            }
            Lin v = freshFor(I);
            if(auto *R = LD->getMetadata(LLVMContext::MD_range)) {
                auto *lo = mdconst::extract<ConstantInt>(R->getOperand(0));
                auto *hi = mdconst::extract<ConstantInt>(R->getOperand(1));
                if(R->getNumOperands() == 2 && lo->getZExtValue() < hi->getZExtValue()) {
                    add(s, ge0(v - (i128)lo->getZExtValue()));
                    add(s, ge0(Lin((i128)hi->getZExtValue() - 1) - v));
                }
            }
            s.env[I] = v;
            out.push_back(std::move(s));
            return;
        }
        if(isa<AllocaInst>(I)) {
            // distinct objects, away from everything a contract places below 2^43
            auto it = allocaAt.insert({I, (i128)allocaAt.size()}).first;
            s.env[I] = Lin(pow2(44) + it->second * pow2(24));
            out.push_back(std::move(s));
            return;
        }
        if(num)
            s.env[I] = freshFor(I);
        out.push_back(std::move(s));
    }

    // A vertex of the abstract state, for the reader of a report.
    void explainState(const State &s, Instruction *at) {
        std::map<int, std::string> sol;
        std::vector<Con> cs = s.cs;
        std::set<int> vars;
        for(auto &c : cs)
            for(auto &p : c.l.t)
                vars.insert(p.first);
        for(int v : vars) {
            Con c;
            c.l = Lin(varMax[v]) - Lin::var(v);
            cs.push_back(c);
        }
        lin::feasibleRaw(cs, &sol);
        errs() << "== " << F.getName() << " ";
        at->print(errs());
        errs() << "\n";
        for(auto &e : s.env) {
            if(e.second.isConst())
                continue;
            errs() << "   ";
            e.first->printAsOperand(errs(), false);
            errs() << " =";
            for(auto &p : e.second.t) {
                auto it = sol.find(p.first);
                errs() << " + " << (long long)p.second << "*v" << p.first << "("
                       << (it == sol.end() ? std::string("any") : it->second) << ")";
            }
            errs() << " + " << (long long)e.second.c << "\n";
        }
    }

    // ---- live values and state compaction ---------------------------------
    std::map<BasicBlock *, std::set<Value *>> liveIn;
    static bool lazyEval(Instruction *I) {
        return isa<ICmpInst>(I) || isa<WithOverflowInst>(I) ||
               (I->getType()->isIntegerTy(1) &&
                (isa<BinaryOperator>(I) || isa<SelectInst>(I) || isa<FreezeInst>(I) ||
                 isa<TruncInst>(I)));
    }
    static void useOf(Value *V, std::set<Value *> &out) {
        if(isa<Constant>(V) || isa<BasicBlock>(V) || !out.insert(V).second)
            return;
        if(auto *I = dyn_cast<Instruction>(V))
            if(lazyEval(I))
                for(auto &op : I->operands())
                    useOf(op, out);
    }
    void computeLiveness() {
        bool ch = true;
        while(ch) {
            ch = false;
            for(BasicBlock *B : post_order(&F)) {
                std::set<Value *> cur;
                for(BasicBlock *S : successors(B)) {
                    for(Value *V : liveIn[S])
                        if(!(isa<PHINode>(V) && cast<PHINode>(V)->getParent() == S))
                            cur.insert(V);
                    for(auto &P : S->phis())
                        useOf(P.getIncomingValueForBlock(B), cur);
                }
                for(auto it = B->rbegin(); it != B->rend(); ++it) {
                    Instruction &I = *it;
                    if(isa<PHINode>(I))
                        continue;
                    // operands stay needed while a lazily evaluated user is live
                    cur.erase(&I);
                    for(auto &op : I.operands())
                        useOf(op, cur);
                }
                auto &L = liveIn[B];
                if(cur.size() != L.size()) {
                    L = std::move(cur);
                    ch = true;
                }
            }
        }
    }
    // Drops what no longer matters: dead values, and variables only they mention.
    void compact(State &s, BasicBlock *B) {
        auto &L = liveIn[B];
        for(auto it = s.env.begin(); it != s.env.end();) {
            if(isa<GlobalVariable>(it->first) || L.count(it->first))
                ++it;
            else
                it = s.env.erase(it);
        }
        std::set<int> keep;
        for(auto &e : s.env)
            for(auto &p : e.second.t)
                keep.insert(p.first);
        for(auto &kv : constEnv)
            for(auto &p : kv.second.t)
                keep.insert(p.first);
        for(int v : pinned)
            keep.insert(v);
        bool ch = true;
        while(ch) {
            ch = false;
            std::map<int, std::vector<size_t>> occ;
            for(size_t i = 0; i < s.cs.size(); ++i)
                for(auto &p : s.cs[i].l.t)
                    if(!keep.count(p.first))
                        occ[p.first].push_back(i);
            for(auto &o : occ) {
                if(eliminate(s, o.first, o.second)) {
                    ch = true;
                    break;
                }
            }
        }
    }
    std::set<int> pinned;
    static i128 coef(const Lin &l, int v) {
        for(auto &p : l.t)
            if(p.first == v)
                return p.second;
        return 0;
    }
    bool eliminate(State &s, int v, const std::vector<size_t> &at) {
        std::vector<Con> lo, hi, res;
        for(size_t i : at) {
            Con c = s.cs[i];
            i128 k = coef(c.l, v);
            if(c.eq) {
                if(k != 1 && k != -1)
                    return false;
                // substitute v := value
                Lin val = comb(c.l, -k, Lin::var(v), 1); // v = -k*(l - k v) = v - k*l
                std::vector<Con> nc;
                for(size_t j = 0; j < s.cs.size(); ++j) {
                    if(j == i)
                        continue;
                    Con d = s.cs[j];
                    i128 kd = coef(d.l, v);
                    if(kd) {
                        d.l = d.l + (val - Lin::var(v)) * kd;
                        tighten(d);
                    }
                    pushCon(nc, d);
                }
                pushCon(nc, ge0(val));
                pushCon(nc, ge0(Lin(varMax[v]) - val));
                s.cs.swap(nc);
                return true;
            }
            (k > 0 ? lo : hi).push_back(c);
        }
        if((lo.size() + 1) * (hi.size() + 1) > lo.size() + hi.size() + 3)
            return false;
        Con b;
        b.l = Lin::var(v);
        lo.push_back(b);
        b.l = Lin(varMax[v]) - Lin::var(v);
        hi.push_back(b);
        std::vector<Con> nc;
        std::set<size_t> gone(at.begin(), at.end());
        for(size_t j = 0; j < s.cs.size(); ++j)
            if(!gone.count(j))
                nc.push_back(s.cs[j]);
        for(auto &a : lo)
            for(auto &c : hi) {
                Con d;
                d.l = comb(a.l, -coef(c.l, v), c.l, coef(a.l, v));
                tighten(d);
                pushCon(nc, d);
            }
        s.cs.swap(nc);
        return true;
    }
    void pushCon(std::vector<Con> &v, const Con &c) {
        if(!c.eq) { // trivially true?
            i128 low = c.l.c;
            for(auto &p : c.l.t)
                if(p.second < 0)
                    low = lin::addx(low, lin::mulx(p.second, varMax[p.first]));
            if(low >= 0)
                return;
        } else if(c.l.t.empty() && c.l.c == 0)
            return;
        for(auto &o : v)
            if(o.eq == c.eq && o.l == c.l)
                return;
        v.push_back(c);
    }
    bool subsumed(const State &a, const State &b) { // a is covered by b (same values)
        for(auto &c : b.cs) {
            bool ok = false;
            for(auto &o : a.cs)
                if(o.l == c.l && (o.eq || !c.eq)) {
                    ok = true;
                    break;
                }
            if(!ok && !(impliesLe(a, Lin(0), c.l) && (!c.eq || impliesLe(a, c.l, Lin(0)))))
                return false;
        }
        return true;
    }
    void compactAll(States &ss, BasicBlock *B) {
        if(ss.size() < 3 || explain)
            return;
        for(auto &s : ss)
            compact(s, B);
        for(size_t i = 0; i < ss.size(); ++i)
            for(size_t j = i + 1; j < ss.size();) {
                if(ss[i].env != ss[j].env) {
                    ++j;
                    continue;
                }
                if(subsumed(ss[j], ss[i])) {
                    ss.erase(ss.begin() + j);
                } else if(subsumed(ss[i], ss[j])) {
                    std::swap(ss[i], ss[j]);
                    ss.erase(ss.begin() + j);
                    j = i + 1;
                } else
                    ++j;
            }
        if(ss.size() <= CAP)
            return;
        // same values, different conditions: keep what both imply
        for(size_t i = 0; i < ss.size() && ss.size() > CAP; ++i)
            for(size_t j = i + 1; j < ss.size() && ss.size() > CAP;) {
                if(ss[i].env == ss[j].env) {
                    ss[i] = weakJoin(std::move(ss[i]), ss[j]);
                    ss.erase(ss.begin() + j);
                } else
                    ++j;
            }
    }

    // ---- control flow ----------------------------------------------------
    State weakJoin(State a, const State &b) {
        State r;
        for(auto &e : a.env) {
            auto it = b.env.find(e.first);
            if(it != b.env.end() && it->second == e.second)
                r.env.insert(e);
        }
        for(auto &c : a.cs) {
            bool ok = false;
            for(auto &o : b.cs)
                if(o.eq == c.eq && o.l == c.l) {
                    ok = true;
                    break;
                }
            if(!ok) {
                ok = impliesLe(b, Lin(0), c.l) && (!c.eq || impliesLe(b, c.l, Lin(0)));
            }
            if(ok)
                r.cs.push_back(c);
        }
        return r;
    }
    // Joins the states that differ least until at most `cap` are left.
    void reduceTo(States &v, size_t cap) {
        if(v.size() <= cap)
            return;
        if(explain)
            errs() << "   joining " << v.size() << " states\n";
        // first those that agree on every value
        for(size_t i = 0; i < v.size() && v.size() > cap; ++i)
            for(size_t j = v.size(); j-- > i + 1;)
                if(v.size() > cap && v[i].env == v[j].env) {
                    v[i] = weakJoin(std::move(v[i]), v[j]);
                    v.erase(v.begin() + j);
                }
        while(v.size() > cap) {
            // then the pair with the fewest differing values
            size_t bi = 0, bj = 1, best = SIZE_MAX;
            for(size_t i = 0; i < v.size(); ++i)
                for(size_t j = i + 1; j < v.size(); ++j) {
                    size_t d = 0;
                    for(auto &e : v[i].env) {
                        auto it = v[j].env.find(e.first);
                        if(it == v[j].env.end() || !(it->second == e.second))
                            if(++d >= best)
                                break;
                    }
                    if(d < best) {
                        best = d;
                        bi = i;
                        bj = j;
                    }
                }
            v[bi] = weakJoin(std::move(v[bi]), v[bj]);
            v.erase(v.begin() + bj);
        }
    }
    void capStates(States &v) {
        maxStates = std::max(maxStates, v.size());
        if(v.size() <= CAP)
            return;
        reduceTo(v, CAP);
    }
    // Assigns the phis of `to` for the edge from -> to.
    States takeEdge(State s, BasicBlock *from, BasicBlock *to) {
        States cur{std::move(s)};
        std::vector<std::pair<PHINode *, Value *>> ph;
        for(auto &P : to->phis())
            ph.push_back({&P, P.getIncomingValueForBlock(from)});
        // resolve i1 inputs first
        for(auto &p : ph) {
            if(!p.first->getType()->isIntegerTy(1) || isa<Constant>(p.second))
                continue;
            States nx;
            for(auto &x : cur) {
                auto it = x.env.find(p.second);
                if(it != x.env.end() && it->second.isConst()) {
                    nx.push_back(std::move(x));
                    continue;
                }
                for(int v = 0; v < 2; ++v)
                    for(auto &y : assume(x, p.second, v)) {
                        y.env[p.second] = Lin(v);
                        nx.push_back(std::move(y));
                    }
            }
            cur.swap(nx);
        }
        for(auto &x : cur) {
            std::vector<std::pair<PHINode *, Lin>> asg;
            for(auto &p : ph)
                if(isNumeric(p.first))
                    asg.push_back({p.first, get(x, p.second)});
            for(auto &a : asg)
                x.env[a.first] = a.second;
        }
        return cur;
    }
    void terminator(State s, BasicBlock *B, std::vector<std::pair<BasicBlock *, State>> &succ) {
        Instruction *T = B->getTerminator();
        if(auto *BR = dyn_cast<BranchInst>(T)) {
            if(BR->isUnconditional()) {
                succ.push_back({BR->getSuccessor(0), std::move(s)});
            } else {
                for(auto &x : assume(s, BR->getCondition(), true))
                    succ.push_back({BR->getSuccessor(0), std::move(x)});
                for(auto &x : assume(std::move(s), BR->getCondition(), false))
                    succ.push_back({BR->getSuccessor(1), std::move(x)});
            }
        } else if(auto *SW = dyn_cast<SwitchInst>(T)) {
            Lin v = get(s, SW->getCondition());
            States rest{s};
            for(auto &C : SW->cases()) {
                Lin k((i128)C.getCaseValue()->getZExtValue());
                for(auto &x : assumeCmp(s, CmpInst::ICMP_EQ, v, k))
                    succ.push_back({C.getCaseSuccessor(), std::move(x)});
                States nr;
                for(auto &x : rest)
                    for(auto &y : assumeCmp(std::move(x), CmpInst::ICMP_NE, v, k))
                        nr.push_back(std::move(y));
                rest.swap(nr);
            }
            for(auto &x : rest)
                succ.push_back({SW->getDefaultDest(), std::move(x)});
        } else if(auto *IV = dyn_cast<InvokeInst>(T)) {
            havocCells(s, IV);
            State n = s;
            if(isNumeric(IV))
                n.env[IV] = freshFor(IV);
            if(!IV->doesNotReturn())
                succ.push_back({IV->getNormalDest(), std::move(n)});
            if(!IV->doesNotThrow())
                succ.push_back({IV->getUnwindDest(), std::move(s)});
        } else {
            for(unsigned i = 0; i < T->getNumSuccessors(); ++i)
                succ.push_back({T->getSuccessor(i), s});
        }
    }
    void block(BasicBlock *B, State s0, std::vector<std::pair<BasicBlock *, State>> &succ) {
        States cur{std::move(s0)}, nx;
        for(Instruction &I : *B) {
            if(isa<PHINode>(I))
                continue;
            if(auto *CB = dyn_cast<CallBase>(&I)) {
                if(Function *C = CB->getCalledFunction()) {
                    if(C->getName() == "vk_fail" && record && !cur.empty()) {
                        if(failed.insert(CB).second && explain)
                            explainState(cur[0], CB);
                    }
                    if(C->getName() == "vk_reach" && record && !cur.empty())
                        reached.insert(CB);
                }
            }
            if(I.isTerminator())
                break;
            if(auto *CB = dyn_cast<CallBase>(&I))
                if(CB->doesNotReturn())
                    return;
            nx.clear();
            for(auto &s : cur)
                exec(std::move(s), &I, nx);
            cur.swap(nx);
            for(size_t i = 0; i < cur.size();)
                if(cur[i].dead) {
                    if(i + 1 != cur.size())
                        cur[i] = std::move(cur.back());
                    cur.pop_back();
                } else
                    ++i;
            capStates(cur);
        }
        for(auto &s : cur)
            terminator(std::move(s), B, succ);
    }

    void region(Loop *L, BasicBlock *entry, States &in, bool rec, Exits &exits, States &latch) {
        bool saved = record;
        record = rec;
        std::map<BasicBlock *, States> pend;
        pend[entry] = std::move(in);
        ReversePostOrderTraversal<Function *> RPOT(&F);
        auto deliver = [&](BasicBlock *from, BasicBlock *to, State s) {
            for(auto &x : takeEdge(std::move(s), from, to)) {
                if(L && to == L->getHeader())
                    latch.push_back(std::move(x));
                else if(L && !L->contains(to))
                    exits.push_back({to, std::move(x)});
                else
                    pend[to].push_back(std::move(x));
            }
        };
        auto deliverReady = [&](BasicBlock *to, State s) {
            if(L && !L->contains(to))
                exits.push_back({to, std::move(s)});
            else
                pend[to].push_back(std::move(s));
        };
        for(BasicBlock *B : RPOT) {
            if(L && !L->contains(B))
                continue;
            auto it = pend.find(B);
            if(it == pend.end() || it->second.empty())
                continue;
            Loop *BL = LI.getLoopFor(B);
            States ss = std::move(it->second);
            it->second.clear();
            compactAll(ss, B);
            capStates(ss);
            if(BL != L && BL && BL->getHeader() == B && BL->getParentLoop() == L) {
                Exits ex;
                loop(BL, ss, ex);
                record = rec;
                for(auto &e : ex)
                    deliverReady(e.to, std::move(e.s));
                continue;
            }
            for(auto &s : ss) {
                std::vector<std::pair<BasicBlock *, State>> succ;
                block(B, std::move(s), succ);
                for(auto &x : succ)
                    deliver(B, x.first, std::move(x.second));
            }
        }
        record = saved;
    }

    // A candidate invariant: sum of coefficient * loop variable + k * iteration + rest >= 0 (== 0).
    struct Cand {
        std::vector<std::pair<Value *, i128>> p;
        i128 k = 0; // coefficient of the iteration counter
        Lin rest;
        bool eq = false;
        bool operator==(const Cand &o) const {
            return p == o.p && k == o.k && rest == o.rest && eq == o.eq;
        }
    };
    // false: a loop variable has no value in this state
    bool evalCand(const Cand &c, State &s, const Lin &counter, Lin &l) {
        l = c.rest + counter * c.k;
        for(auto &x : c.p) {
            auto it = s.env.find(x.first);
            if(it == s.env.end())
                return false;
            l = l + it->second * x.second;
        }
        return true;
    }
    bool candHolds(const Cand &c, State &s, const Lin &counter) {
        Lin l;
        if(!evalCand(c, s, counter, l))
            return false;
        return impliesLe(s, Lin(0), l) && (!c.eq || impliesLe(s, l, Lin(0)));
    }
    // One control state of a loop: the flag-like variables have fixed values in it.
    struct Disjunct {
        std::vector<Cand> live;
        bool mined = false, queued = true;
        struct Arrival {
            State first;
            Lin second;               // the iteration count there
            std::vector<i128> source; // the control state it comes from
            bool entry = false;
        };
        std::vector<Arrival> arrivals;
    };
    std::vector<std::pair<Lin, int>> *mineInto = nullptr;
    void mine(const Lin &a, const Lin &b) {
        if(!mineInto || mineInto->size() > 60)
            return;
        Lin d = a - b;
        if(d.isConst())
            return;
        for(auto &x : *mineInto)
            if(x.first == d)
                return;
        mineInto->push_back({d, 0});
    }
    void loop(Loop *L, States &in, Exits &exits) {
        bool rec = record;
        BasicBlock *H = L->getHeader();
        if(unrollMax) { // exact, when the loop is short
            States cur = in;
            Exits ex;
            for(unsigned n = 0; n <= unrollMax && !cur.empty() && cur.size() <= CAP; ++n) {
                States lat;
                region(L, H, cur, rec, ex, lat);
                cur = std::move(lat);
            }
            record = rec;
            if(cur.empty()) {
                for(auto &e : ex)
                    exits.push_back(std::move(e));
                return;
            }
        }
        reduceTo(in, LOOPCAP);
        // loop variables: header phis, and cells written in the loop
        std::vector<Value *> vars, flags;
        for(auto &P : H->phis())
            if(isNumeric(&P))
                (width(P.getType()) <= 8 ? flags : vars).push_back(&P);
        std::set<GlobalVariable *> written;
        for(auto *B : L->blocks())
            for(auto &I : *B) {
                if(auto *ST = dyn_cast<StoreInst>(&I))
                    if(auto *GV = dyn_cast<GlobalVariable>(ST->getPointerOperand()))
                        if(cells.count(GV))
                            written.insert(GV);
                if(auto *CB = dyn_cast<CallBase>(&I)) {
                    State probe;
                    for(auto *GV : cells)
                        probe.env[GV] = Lin(0);
                    havocCells(probe, CB);
                    for(auto *GV : cells)
                        if(!probe.env.count(GV))
                            written.insert(GV);
                }
            }
        for(auto &g : guards) // accesses in the loop may hit it, and hits do not go away
            if(g.seen)
                written.insert(g.seen);
        if(!watches.empty()) {
            bool writes = false;
            std::set<unsigned> reads;
            for(auto *B : L->blocks())
                for(auto &I : *B) {
                    writes = writes || mayWriteWatched(&I);
                    if(isa<LoadInst>(I))
                        reads.insert(width(I.getType()));
                    unsigned bits;
                    if(watchCall(&I, bits)) {
                        auto &w = watches[slotOf(cast<CallBase>(&I))];
                        written.insert({w.addr, w.val, w.seen});
                    }
                }
            for(auto &w : watches) {
                if(w.val && writes)
                    written.insert(w.val);
                if(w.seen && (writes || reads.count(w.bits)))
                    written.insert(w.seen);
            }
        }
        for(auto *GV : written)
            (width(GV->getValueType()) <= 8 ? flags : vars).push_back(GV);
        auto vwidth = [&](Value *V) {
            auto *GV = dyn_cast<GlobalVariable>(V);
            return width(GV ? GV->getValueType() : V->getType());
        };
        // loop-invariant bounds mentioned in the loop's comparisons
        std::vector<Value *> bounds;
        for(auto *B : L->blocks())
            for(auto &I : *B)
                if(auto *C = dyn_cast<ICmpInst>(&I))
                    for(auto &op : C->operands())
                        if(L->isLoopInvariant(op) && isNumeric(op) &&
                           std::find(bounds.begin(), bounds.end(), op) == bounds.end())
                            bounds.push_back(op);
        for(State &S : in) {
            if(!inferring) // the flags tell what was read since the loop was entered
                for(auto &w : watches)
                    if(w.seen && written.count(w.seen))
                        S.env[w.seen] = Lin(0);
            std::set<int> savedPins = pinned;
            auto *savedMine = mineInto;
            for(auto *V : vars) // give every loop variable an entry value
                if(!S.env.count(V))
                    S.env[V] = freshVar(vwidth(V));
            std::vector<Value *> key, sym = vars;
            for(auto *V : flags) {
                auto it = S.env.find(V);
                if(it != S.env.end() && it->second.isConst())
                    key.push_back(V);
                else {
                    if(it == S.env.end())
                        S.env[V] = freshVar(vwidth(V));
                    sym.push_back(V);
                }
            }
            State S0 = S;
            bool noSides = false;
            for(int attempt = 0; attempt < 6; ++attempt) {
                Value *demote = nullptr;
                const bool hadSides = (sideCell || hasToken) && !noSides;
                ++inferring;
                bool done = loopFrom(L, H, S0, key, sym, bounds, rec, exits, demote, noSides, vwidth);
                --inferring;
                if(done)
                    break;
                if(hadSides && noSides)
                    continue;
                // a flag that takes no fixed value: treat it as an ordinary variable
                for(size_t i = 0; i < key.size(); ++i)
                    if(!demote || key[i] == demote) {
                        sym.push_back(key[i]);
                        key.erase(key.begin() + i);
                        --i;
                    }
            }
            pinned = savedPins;
            mineInto = savedMine;
        }
        record = rec;
    }
    Lin freshVar(unsigned w) { return Lin::var(newVar(pow2(w ? w : 64) - 1)); }
    template<typename W>
    bool loopFrom(Loop *L, BasicBlock *H, const State &Sin, const std::vector<Value *> &key,
                  const std::vector<Value *> &sym, const std::vector<Value *> &bounds, bool rec,
                  Exits &exits, Value *&demote, bool &noSides, W vwidth) {
        State S = Sin, H0 = Sin;
        const int firstLocal = (int)varMax.size();
        Lin counter = Lin::var(newVar(pow2(64) - 1));
        pin(counter);
        std::map<Value *, Lin> e;
        std::map<int, Value *> varOf; // header variable -> loop variable
        for(auto *P : sym) {
            e[P] = S.env[P];
            pin(e[P]);
            Lin f = freshVar(vwidth(P));
            pin(f);
            varOf[f.t[0].first] = P;
            H0.env[P] = f;
        }
        std::vector<Cand> pool;
        auto addCand = [&](const Cand &c) {
            if(c.p.empty()) { // about outer values only
                Lin l = c.rest;
                if(impliesLe(S, Lin(0), l) && (!c.eq || impliesLe(S, l, Lin(0))))
                    return;
            }
            for(auto &o : pool)
                if(o == c)
                    return;
            pool.push_back(c);
        };
        for(auto *P : sym) {
            Cand a;
            a.p = {{P, 1}};
            a.rest = Lin(0) - e[P];
            addCand(a); // P >= e
            a.eq = true;
            addCand(a); // P == e
            a.eq = false;
            a.p = {{P, -1}};
            a.rest = e[P];
            addCand(a); // P <= e
            if(isa<PHINode>(P) && P->getType()->isIntegerTy()) {
                Cand b;
                b.p = {{P, 1}};
                b.rest = Lin(-1);
                addCand(b); // P >= 1
            }
            for(unsigned j : {31u, 42u, 44u, 48u, 62u})
                if(j < vwidth(P)) {
                    Cand b;
                    b.p = {{P, -1}};
                    b.rest = Lin(pow2(j) - 1);
                    addCand(b); // P < 2^j
                }
            i128 st;
            const bool stepped = isa<PHINode>(P) && stepOf(cast<PHINode>(P), L, st);
            if(!stepped && vwidth(P) >= 32)
                for(int k : {1, -1}) { // changes by one on every iteration
                    Cand q;
                    q.p = {{P, 1}};
                    q.k = -k;
                    q.rest = Lin(0) - e[P];
                    q.eq = true;
                    addCand(q);
                }
            if(stepped) {
                Cand q;
                q.p = {{P, 1}};
                q.k = -st;
                q.rest = Lin(0) - e[P];
                q.eq = true;
                addCand(q);
            }
            for(auto *B : bounds) {
                if(vwidth(B) != vwidth(P))
                    continue;
                Lin b = get(S, B);
                H0.env[B] = b;
                pin(b);
                Cand u;
                u.p = {{P, -1}};
                u.rest = b;
                addCand(u); // P <= b
                Cand v;
                v.p = {{P, 1}};
                v.rest = Lin(0) - b;
                addCand(v); // P >= b
            }
            for(auto *R : sym) {
                if(R == P || vwidth(R) != vwidth(P))
                    continue;
                Cand u;
                u.p = {{P, 1}, {R, -1}};
                addCand(u); // P >= R
                u.rest = Lin(-1);
                addCand(u); // P > R
                u.rest = e[R] - e[P];
                addCand(u); // P - R >= e_P - e_R
                u.eq = true;
                if(P < R)
                    addCand(u);
            }
        }
        // P = Q + R + constant at entry (an end pointer, its buffer and the capacity)
        for(auto *P : sym)
            for(auto *Q : sym)
                for(auto *R : sym) {
                    if(P == Q || P == R || !(Q < R) || vwidth(P) != 64 || vwidth(Q) != 64 || vwidth(R) != 64)
                        continue;
                    Lin d = e[P] - e[Q] - e[R];
                    if(!d.isConst() || e[P].isConst() || e[Q].isConst() || e[R].isConst())
                        continue;
                    Cand u;
                    u.p = {{P, 1}, {Q, -1}, {R, -1}};
                    u.rest = Lin(0) - d;
                    addCand(u);
                    u.eq = true;
                    addCand(u);
                }
        // an address and how many elements there are from it, against a limit
        for(auto *P : sym) {
            if(!isa<PHINode>(P) || !P->getType()->isPointerTy())
                continue;
            std::set<i128> scales;
            for(auto *U : P->users())
                if(auto *G = dyn_cast<GetElementPtrInst>(U); G && G->getPointerOperand() == P && L->contains(G)) {
                    SmallMapVector<Value *, APInt, 4> vo;
                    APInt off(64, 0);
                    if(G->collectOffset(DL, 64, vo, off) && vo.size() == 1 && !isa<PHINode>(vo.begin()->first))
                        scales.insert((i128)vo.begin()->second.getSExtValue());
                }
            for(auto *R : sym) {
                if(!isa<PHINode>(R) || !R->getType()->isIntegerTy(64))
                    continue;
                for(auto sc : scales)
                    for(auto *B : bounds) {
                        if(!B->getType()->isPointerTy())
                            continue;
                        Cand u;
                        u.p = {{P, 1}, {R, sc}};
                        u.rest = Lin(0) - get(S, B);
                        addCand(u);
                        u.p = {{P, -1}, {R, -sc}};
                        u.rest = get(S, B);
                        addCand(u);
                    }
            }
        }
        for(auto &kv : H0.env)
            if(!S.env.count(kv.first))
                S.env[kv.first] = kv.second;
        std::vector<Value *> sided;
        Lin side;
        bool reads = false;
        if(sideCell)
            for(auto *B : L->blocks())
                for(auto &I : *B)
                    reads = reads || (isa<LoadInst>(I) && !isa<GlobalVariable>(cast<LoadInst>(I).getPointerOperand()));
        if(reads && !noSides && S.env.count(sideCell)) {
            side = S.env[sideCell];
            pin(side);
            for(auto *P : sym)
                if(isa<PHINode>(P) && P->getType()->isIntegerTy(64))
                    sided.push_back(P);
        }
        // a token's control states: where it was on entry, or elsewhere
        Value *token = nullptr;
        if(!noSides)
            for(auto *P : sym)
                if(isa<GlobalVariable>(P) && P->getName().contains("vk_token"))
                    token = P;
        if(!noSides && !token && hasToken) // one that never moves
            for(auto &kv : S.env)
                if(isa<GlobalVariable>(kv.first) && kv.first->getName().contains("vk_token_fixed")) {
                    token = kv.first;
                    pin(kv.second);
                    e[token] = H0.env[token] = kv.second;
                }
        // while it is there: the sides of the addresses the loop works at
        struct TSide {
            Value *P;
            i128 scale;
            Lin base;
        };
        std::vector<TSide> tsides;
        if(token) {
            for(auto *P : sym)
                if(isa<PHINode>(P) && P->getType()->isPointerTy() && !impliesEq(S, e[P], e[token]))
                    tsides.push_back({P, 1, Lin(0)});
            for(auto *B : L->blocks())
                for(auto &I : *B)
                    if(auto *G = dyn_cast<GetElementPtrInst>(&I))
                        if(L->isLoopInvariant(G->getPointerOperand()) && isNumeric(G->getPointerOperand())) {
                            SmallMapVector<Value *, APInt, 4> vo;
                            APInt off(64, 0);
                            if(!G->collectOffset(DL, 64, vo, off) || vo.size() != 1)
                                continue;
                            Value *P = vo.begin()->first;
                            if(!isa<PHINode>(P) || std::find(sym.begin(), sym.end(), P) == sym.end())
                                continue;
                            const Lin b = get(S, G->getPointerOperand()) + (i128)off.getSExtValue();
                            pin(b);
                            H0.env[G->getPointerOperand()] = get(S, G->getPointerOperand());
                            tsides.push_back({P, (i128)vo.begin()->second.getSExtValue(), b});
                        }
            if(tsides.size() > 4)
                tsides.resize(4);
        }
        auto tsideLin = [&](State &s, const TSide &t) {
            return get(s, t.P) * t.scale + t.base;
        };
        auto keyOf = [&](State &s, std::vector<i128> &k) {
            k.clear();
            for(auto *V : key) {
                auto it = s.env.find(V);
                if(it == s.env.end() || !it->second.isConst()) {
                    demote = V;
                    return false;
                }
                k.push_back(it->second.c);
            }
            for(auto *V : sided) {
                const Lin x = get(s, V);
                k.push_back(impliesLe(s, Lin(pow2(64) - 1), x) ? 3 // "none"
                            : impliesLe(s, x + Lin(1), side) ? -1 : impliesLe(s, side + Lin(1), x) ? 1 : impliesEq(s, x, side) ? 0 : 2);
            }
            if(token) {
                auto it = s.env.find(token);
                const Lin x = it == s.env.end() ? freshVar(64) : it->second;
                k.push_back(impliesEq(s, x, e[token]) ? 0 : impliesLe(s, x + Lin(1), e[token]) || impliesLe(s, e[token] + Lin(1), x) ? 1 : 2);
                const bool there = k.back() == 0;
                for(auto &t : tsides) {
                    const Lin y = tsideLin(s, t);
                    k.push_back(!there ? 2 : impliesLe(s, y + Lin(1), e[token]) ? -1 : impliesLe(s, e[token] + Lin(1), y) ? 1 : impliesEq(s, y, e[token]) ? 0 : 2);
                }
            }
            return true;
        };
        std::map<std::vector<i128>, Disjunct> D;
        std::vector<i128> k0;
        if(!keyOf(S, k0))
            return false;
        for(auto &c : pool)
            if(candHolds(c, S, Lin(0)))
                D[k0].live.push_back(c);
        D[k0].arrivals.push_back({S, Lin(0), {}, true});
        auto header = [&](const std::vector<i128> &k, Disjunct &d) {
            State hs = H0;
            for(size_t i = 0; i < key.size(); ++i)
                hs.env[key[i]] = Lin(k[i]);
            for(size_t i = 0; i < sided.size(); ++i) {
                const Lin x = hs.env[sided[i]];
                const i128 c = k[key.size() + i];
                if(c == 3)
                    add(hs, eq0(x - Lin(pow2(64) - 1)));
                else if(c == -1)
                    add(hs, ge0(side - x - 1));
                else if(c == 1)
                    add(hs, ge0(x - side - 1));
                else if(c == 0)
                    add(hs, eq0(x - side));
            }
            if(token) {
                const size_t at = key.size() + sided.size();
                if(k[at] == 0)
                    add(hs, eq0(hs.env[token] - e[token]));
                for(size_t i = 0; i < tsides.size(); ++i) {
                    const Lin y = tsideLin(hs, tsides[i]);
                    const i128 c = k[at + 1 + i];
                    if(c == -1)
                        add(hs, ge0(e[token] - y - 1));
                    else if(c == 1)
                        add(hs, ge0(y - e[token] - 1));
                    else if(c == 0)
                        add(hs, eq0(y - e[token]));
                }
            }
            // a variable with a known value is that value
            for(auto &c : d.live)
                if(c.eq && c.p.size() == 1 && !c.k && (c.p[0].second == 1 || c.p[0].second == -1)) {
                    Lin &x = hs.env[c.p[0].first];
                    if(x.t.size() == 1 && x.t[0].first >= firstLocal && varOf.count(x.t[0].first))
                        x = c.rest * -c.p[0].second;
                }
            for(int pass = 0; pass < 2; ++pass)
                for(auto &c : d.live) {
                    Lin l;
                    if(hs.dead || c.eq != (pass == 0) || !evalCand(c, hs, counter, l))
                        continue;
                    if(c.eq || !impliesLe(hs, Lin(0), l))
                        add(hs, c.eq ? eq0(l) : ge0(l));
                }
            return hs;
        };
        for(int round = 0;; ++round) {
            if(round > 120)
                throw Budget();
            std::vector<i128> k;
            bool found = false;
            for(auto &x : D)
                if(x.second.queued) {
                    k = x.first;
                    found = true;
                    break;
                }
            if(!found)
                break;
            D[k].queued = false;
            State hs = header(k, D[k]);
            if(hs.dead)
                continue;
            States ein{hs}, lat;
            Exits ex;
            std::vector<std::pair<Lin, int>> minedHere;
            auto *sm = mineInto;
            mineInto = D[k].mined ? nullptr : &minedHere;
            region(L, H, ein, false, ex, lat);
            mineInto = sm;
            if(sm) // enclosing loops mine too
                for(auto &m : minedHere)
                    mine(m.first, Lin(0));
            if(!D[k].mined) {
                D[k].mined = true;
                bool any = false;
                for(auto &m : minedHere) {
                    Cand c;
                    bool ok = true;
                    for(auto &t : m.first.t) {
                        auto it = varOf.find(t.first);
                        if(it != varOf.end())
                            c.p.push_back({it->second, t.second});
                        else if(t.first < firstLocal) {
                            Lin v = Lin::var(t.first) * t.second;
                            c.rest = c.rest + v;
                        } else
                            ok = false;
                    }
                    if(!ok || c.p.empty())
                        continue;
                    pin(c.rest);
                    c.rest = c.rest + m.first.c;
                    Cand n;
                    for(auto &x : c.p)
                        n.p.push_back({x.first, -x.second});
                    n.rest = Lin(0) - c.rest;
                    for(int off = -1; off <= 0; ++off) {
                        Cand x = c, y = n;
                        x.rest = x.rest + (i128)off;
                        y.rest = y.rest + (i128)off;
                        addCand(x);
                        addCand(y);
                    }
                }
                // new candidates restart the inference for this control state when they hold at
                // every arrival so far
                if(D[k].arrivals.size() <= 24)
                    for(auto &c : pool) {
                        if(std::find(D[k].live.begin(), D[k].live.end(), c) != D[k].live.end())
                            continue;
                        bool all = true;
                        for(auto &a : D[k].arrivals)
                            if(!candHolds(c, a.first, a.second)) {
                                all = false;
                                break;
                            }
                        if(all) {
                            D[k].live.push_back(c);
                            any = true;
                        }
                    }
                if(any) {
                    D[k].queued = true;
                    continue;
                }
            }
            // the arrivals of this pass replace those of earlier passes from the same control state
            for(auto &x : D)
                if(x.second.arrivals.size() <= 24)
                    std::erase_if(x.second.arrivals, [&](auto &a) { return !a.entry && a.source == k; });
            for(auto &ls : lat) {
                std::vector<i128> nk;
                if(!keyOf(ls, nk))
                    return false;
                auto it = D.find(nk);
                if(it == D.end()) {
                    if(D.size() >= (sided.empty() && !token ? 12 : 40)) {
                        noSides = true;
                        demote = nullptr;
                        return false;
                    }
                    Disjunct &d = D[nk];
                    for(auto &c : arrival(ls, sym, firstLocal, counter))
                        addCand(c);
                    for(auto &c : pool)
                        if(candHolds(c, ls, counter + Lin(1)))
                            d.live.push_back(c);
                    d.arrivals.push_back({ls, counter + Lin(1), k});
                    continue;
                }
                Disjunct &d = it->second;
                if(d.arrivals.size() <= 24)
                    d.arrivals.push_back({ls, counter + Lin(1), k});
                std::vector<Cand> keep;
                for(auto &c : d.live)
                    if(candHolds(c, ls, counter + Lin(1)))
                        keep.push_back(c);
                if(keep.size() != d.live.size()) {
                    for(auto &c : d.live) // a value is no longer known: look again
                        if(c.eq && c.p.size() == 1 && !c.k &&
                           std::find(keep.begin(), keep.end(), c) == keep.end())
                            d.mined = false;
                    d.live.swap(keep);
                    d.queued = true;
                    // facts in the form in which they hold on this arrival
                    if(d.arrivals.size() <= 24)
                        for(auto &c : arrival(ls, sym, firstLocal, counter, true)) {
                            size_t before = pool.size();
                            addCand(c);
                            if(pool.size() == before)
                                continue;
                            bool all = true;
                            for(auto &a : d.arrivals)
                                if(!candHolds(c, a.first, a.second)) {
                                    all = false;
                                    break;
                                }
                            if(all)
                                d.live.push_back(c);
                        }
                }
            }
        }
        if(explain && getenv("VKA_LOOPS")) {
            auto nm = [&](Value *V) {
                std::string t;
                raw_string_ostream os(t);
                V->printAsOperand(os, false);
                return t;
            };
            errs() << "-- loop at " << nm(H) << "\n";
            for(auto &x : D) {
                errs() << "  state";
                for(size_t i = 0; i < key.size(); ++i)
                    errs() << " " << nm(key[i]) << "=" << (long long)x.first[i];
                errs() << (header(x.first, x.second).dead ? " (dead)" : "") << "\n";
                for(auto &c : x.second.live) {
                    errs() << "     ";
                    for(auto &p : c.p)
                        errs() << (long long)p.second << "*" << nm(p.first) << " + ";
                    if(c.k)
                        errs() << (long long)c.k << "*count + ";
                    for(auto &p : c.rest.t)
                        errs() << (long long)p.second << "*v" << p.first << " + ";
                    errs() << (long long)c.rest.c << (c.eq ? " == 0" : " >= 0") << "\n";
                }
            }
        }
        for(auto &x : D) {
            State hs = header(x.first, x.second);
            if(hs.dead)
                continue;
            States ein{hs}, lat;
            Exits ex;
            auto *sm = mineInto;
            mineInto = nullptr;
            region(L, H, ein, rec, ex, lat);
            mineInto = sm;
            for(auto &y : ex)
                exits.push_back(std::move(y));
        }
        return true;
    }
    // Facts about the loop variables that hold on arrival in a new control state.
    std::vector<Cand> arrival(const State &ls, const std::vector<Value *> &sym, int firstLocal,
                              const Lin &counter, bool late = false) {
        std::vector<Cand> out;
        State t;
        t.cs = ls.cs;
        std::map<int, Value *> yv;
        std::set<int> keep;
        for(auto *P : sym) {
            auto it = ls.env.find(P);
            if(it == ls.env.end())
                continue;
            Lin y = freshFor(isa<GlobalVariable>(P) ? nullptr : P);
            yv[y.t[0].first] = P;
            keep.insert(y.t[0].first);
            Con c;
            c.l = y - it->second;
            c.eq = true;
            t.cs.push_back(c);
        }
        auto project = [&](State &t, const std::set<int> &keep) {
            bool ch = true;
            while(ch) {
                ch = false;
                std::map<int, std::vector<size_t>> occ;
                for(size_t i = 0; i < t.cs.size(); ++i)
                    for(auto &p : t.cs[i].l.t)
                        if(p.first >= firstLocal && !keep.count(p.first))
                            occ[p.first].push_back(i);
                for(auto &o : occ)
                    if(eliminate(t, o.first, o.second)) {
                        ch = true;
                        break;
                    }
            }
        };
        auto offer = [&](const State &t, bool equalities) {
            for(auto &c : t.cs) {
                if(equalities && !c.eq)
                    continue;
                Cand d;
                bool ok = true;
                for(auto &x : c.l.t) {
                    auto it = yv.find(x.first);
                    if(it != yv.end())
                        d.p.push_back({it->second, x.second});
                    else if(x.first < firstLocal)
                        d.rest = d.rest + Lin::var(x.first) * x.second;
                    else
                        ok = false;
                }
                if(!ok || (d.p.empty() && d.rest.isConst()))
                    continue;
                pin(d.rest);
                d.rest = d.rest + c.l.c;
                if(c.eq) {
                    d.eq = true;
                    out.push_back(d);
                    d.eq = false;
                    out.push_back(d);
                    Cand n;
                    for(auto &x : d.p)
                        n.p.push_back({x.first, -x.second});
                    n.rest = Lin(0) - d.rest;
                    out.push_back(n);
                } else
                    out.push_back(d);
            }
        };
        project(t, keep);
        offer(t, late);
        if(sideCell && !late && !keep.empty()) { // what it tells about values from outside the loop
            State u;
            u.cs = t.cs;
            project(u, {});
            offer(u, false);
        }
        // and about every loop variable by itself
        if(keep.size() > 1)
            for(int y : keep) {
                State u;
                u.cs = t.cs;
                project(u, {y});
                offer(u, true);
            }
        return out;
    }
    void pin(const Lin &l) {
        for(auto &p : l.t)
            pinned.insert(p.first);
    }
    bool stepOf(PHINode *P, Loop *L, i128 &st) {
        bool have = false;
        for(unsigned i = 0; i < P->getNumIncomingValues(); ++i) {
            if(!L->contains(P->getIncomingBlock(i)))
                continue;
            Value *V = P->getIncomingValue(i);
            i128 k;
            if(auto *BO = dyn_cast<BinaryOperator>(V);
               BO && BO->getOpcode() == Instruction::Add && BO->getOperand(0) == P &&
               isa<ConstantInt>(BO->getOperand(1)))
                k = cast<ConstantInt>(BO->getOperand(1))->getSExtValue();
            else if(auto *G = dyn_cast<GetElementPtrInst>(V);
                    G && G->getPointerOperand() == P && G->hasAllConstantIndices()) {
                APInt off(64, 0);
                if(!G->accumulateConstantOffset(DL, off))
                    return false;
                k = off.getSExtValue();
            } else
                return false;
            if(have && k != st)
                return false;
            st = k;
            have = true;
        }
        return have;
    }
};
} // namespace absint
