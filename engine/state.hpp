// Symbolic machine state: copy-on-write memory, register stack, path condition.
#pragma once
#include "solver.hpp"

struct Val { u64 v; Expr* e; };

struct SymByte { Expr* e; u32 idx; };
enum Kind : u8 { KGlobal, KConst, KHeap, KStack, KExt, KFreed };
struct MemObj {
    u32 refs; u32 size; Kind kind; u8 allocKind; // allocKind: 0 malloc, 1 new, 2 new[]
    u8* data; SymByte* sym; const void* site;
};
extern MemObj freedObj;
struct Chunk { u32 refs; MemObj* o[64]; };

static constexpr u64 ABASE = 1ull << 32; // object i lives at ABASE + (i << 20)
static constexpr u64 FBASE = 0x10000;    // functions live at FBASE + i*16
static constexpr u32 MAXOBJ = (1u << 20) - 4096;

struct Func; struct CallSite;
struct Frame { Func* f; u32 pc; u32 base; CallSite* cs; u32 allocaStart; };
struct ExcRec { u64 obj, tinfo, dtor, adjusted; int handlers; bool rethrown; };
struct LogEnt { const char* tag; Val v; };

struct State {
    std::vector<Chunk*> top; u32 nextObj = 1;
    std::vector<Val> regs; std::vector<Frame> frames; std::vector<u32> allocas;
    std::vector<Expr*> cons; VarMask pinned; std::vector<u64> dom; Model model;
    std::vector<ExcRec> exc;      // live exception objects
    std::vector<u32> caught;      // indices into exc, innermost last
    u64 steps = 0, discardAt = ~0ull; int expectAbort = 0; u32 depth = 0;
    std::vector<Expr*> inputs; std::vector<LogEnt> log;
    std::vector<std::pair<std::string, u32>> nameCount;
    u64 heapLive = 0;
    bool freeCheck = true;
    u32 frozen = 0, locked = 0; std::vector<u32> thawed; // objects below frozen may not be written, but for these, or under a lock
    bool isFrozen(u64 id) const { if (id >= frozen || locked) return false; for (u32 t : thawed) if (t == id) return false; return true; }

    State() {}
    State(const State& o) = default;
    State* fork() const { State* s = new State(*this); for (Chunk* c : s->top) if (c) c->refs++; return s; }
    static void dropChunk(Chunk* c) {
        if (!c || --c->refs) return;
        for (MemObj* o : c->o) dropObj(o);
        delete c;
    }
    static void dropObj(MemObj* o) {
        if (!o || o == &freedObj || --o->refs) return;
        free(o->data); free(o->sym); delete o;
    }
    ~State() { for (Chunk* c : top) dropChunk(c); }

    MemObj* find(u64 id) const {
        u64 ci = id >> 6; if (ci >= top.size() || !top[ci]) return nullptr;
        return top[ci]->o[id & 63];
    }
    MemObj** slotW(u64 id) {
        u64 ci = id >> 6; if (ci >= top.size()) top.resize(ci + 1, nullptr);
        Chunk*& c = top[ci];
        if (!c) { c = new Chunk{}; c->refs = 1; }
        else if (c->refs > 1) {
            Chunk* n = new Chunk(*c); n->refs = 1;
            for (MemObj* o : n->o) if (o && o != &freedObj) o->refs++;
            c->refs--; c = n;
        }
        return &c->o[id & 63];
    }
    MemObj* writable(u64 id) {
        MemObj** s = slotW(id); MemObj* o = *s;
        if (o->refs > 1) {
            MemObj* n = new MemObj(*o); n->refs = 1;
            n->data = (u8*)malloc(o->size ? o->size : 1); memcpy(n->data, o->data, o->size);
            if (o->sym) { n->sym = (SymByte*)malloc(sizeof(SymByte) * o->size); memcpy(n->sym, o->sym, sizeof(SymByte) * o->size); }
            o->refs--; *s = o = n;
        }
        return o;
    }
    u64 alloc(u64 size, Kind k, u8 fill, const void* site, u8 ak = 0) {
        u32 id = nextObj++;
        MemObj* o = new MemObj{1, (u32)size, k, ak, nullptr, nullptr, site};
        o->data = (u8*)malloc(size ? size : 1); memset(o->data, fill, size);
        *slotW(id) = o;
        return ABASE + ((u64)id << 20) + 0x1000;
    }
    void release(u64 id) {
        MemObj** s = slotW(id); dropObj(*s); *s = &freedObj;
    }
};
static inline u64 objId(u64 addr) { return (addr - ABASE) >> 20; }
static inline u64 objBase(u64 id) { return ABASE + (id << 20) + 0x1000; }
