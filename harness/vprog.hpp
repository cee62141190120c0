// Random generator/channel programs and their reference model (explicit stack machine), shared by
// drv_gen (generators, in-place generators) and drv_chan (channels).
#pragma once
#include "vmon.hpp"

namespace vp {

enum kind : int {
  I_EFFECT = 0,
  I_YTEMP,     // co_yield of a prvalue
  I_YNAMED,    // co_yield std::move(local): identity of the yielded object is known
  I_YCONST,    // co_yield of a const lvalue: private copy
  I_YREF,      // co_yield by_ref{local} / lvalue for reference generators: writes must be visible
  I_SUB,       // co_yield elements_of(make(sub))
  I_SUB_PART,  // local generator, 'n' values consumed inside, then co_yield elements_of(local)
  I_SUB_RANGE, // co_yield elements_of(range)
  I_SUB_CONV,  // co_yield elements_of(generator of another type)
  I_SUB_EMPTY, // co_yield elements_of(default constructed)
  I_CONSUME,   // for (auto&& x : make(sub)) co_yield x
  I_THROW,
  I_RETURN,
  I_HOP,       // suspend on an executor (channels only, no effect on the sequence)
  I_KINDS
};
enum evk : int {
  E_EFFECT = 1, E_GUARD, E_UNGUARD, E_READBACK, E_INNER, E_INNER_END, E_INNER_EXC, E_INNER_EMPTY, E_CAUGHT,
  // consumer side
  E_VALUE, E_END, E_EXC, E_OP,
};
inline const char* evname(int k) {
  static const char* n[] = {"?", "effect", "guard", "unguard", "readback", "inner", "inner-end", "inner-exception", "inner-empty", "caught", "value", "end", "exception", "op"};
  return k >= 0 && k < 14 ? n[k] : "?";
}

struct Instr {
  int kind = 0, v = 0;
  int guard = 0;   // id of a scope guard around the instruction, 0: none
  int sub = -1;    // program index
  int n = 0;       // I_SUB_PART: consumed inside; I_SUB_RANGE: length; variant selectors
  int var = 0;
  bool tried = false;  // inside try/catch
};
struct Prog {
  int id = 0;
  int res = 0;  // 0 plain, 1 with memory resource
  std::vector<Instr> code;
};
struct World {
  std::vector<Prog> P;
  int next_id = 1;
};

struct Opts {
  bool throws = false, ranges = true, conv = false, constcopy = true, consume = true, part = true, subs = true, ytemp = true, hops = false;
  int max_len = 5, max_depth = 4, max_total = 60;
};

// returns index of the program; programs form a tree
inline int make_prog(World& w, vm::Rng& r, const Opts& o, int depth, int& budget) {
  int me = (int)w.P.size();
  w.P.emplace_back();
  w.P[me].id = w.next_id++;
  w.P[me].res = r.chance(1, 5);
  int len = r.below(o.max_len + 1);
  for (int i = 0; i < len && budget > 0; i++) {
    --budget;
    Instr in;
    in.v = w.next_id++;
    int k = r.below(100);
    bool can_sub = o.subs && depth < o.max_depth;
    if (k < 12) in.kind = I_EFFECT;
    else if (k < 24) in.kind = o.ytemp ? I_YTEMP : I_YREF;
    else if (k < 32) in.kind = o.ytemp ? I_YNAMED : I_YREF;
    else if (k < 40) in.kind = o.constcopy ? I_YCONST : I_YREF;
    else if (k < 50) in.kind = I_YREF;
    else if (k < 70 && can_sub) in.kind = I_SUB;
    else if (k < 76 && can_sub && o.part) in.kind = I_SUB_PART;
    else if (k < 82 && o.ranges) in.kind = I_SUB_RANGE;
    else if (k < 86 && can_sub && o.conv) in.kind = I_SUB_CONV;
    else if (k < 88 && o.subs) in.kind = I_SUB_EMPTY;
    else if (k < 94 && can_sub && o.consume) in.kind = I_CONSUME;
    else if (k < 97 && o.throws) in.kind = I_THROW;
    else if (k < 98) in.kind = I_RETURN;
    else if (o.hops) in.kind = I_HOP;
    else in.kind = I_EFFECT;
    in.guard = r.chance(1, 4) ? w.next_id++ : 0;
    in.tried = r.chance(1, 3);
    in.n = r.below(4);
    in.var = r.below(4);
    if (in.kind == I_SUB_RANGE) w.next_id += 8;
    if (in.kind == I_SUB || in.kind == I_SUB_PART || in.kind == I_SUB_CONV || in.kind == I_CONSUME)
      in.sub = make_prog(w, r, o, depth + 1, budget);
    w.P[me].code.push_back(in);
  }
  return me;
}
// chain of n programs nested in each other, the innermost one yields/throws
inline int make_chain(World& w, vm::Rng& r, const Opts& o, int n) {
  int budget = 4;
  int inner = -1;
  for (int i = 0; i < n; i++) {
    int me = (int)w.P.size();
    if (inner < 0) {
      Opts oo = o;
      oo.max_depth = 0;
      inner = make_prog(w, r, oo, 0, budget);
      continue;
    }
    w.P.emplace_back();
    w.P[me].id = w.next_id++;
    w.P[me].res = r.chance(1, 8);
    if (r.chance(1, 3)) { Instr in; in.kind = o.ytemp ? I_YTEMP : I_YREF; in.v = w.next_id++; w.P[me].code.push_back(in); }
    Instr s;
    s.kind = I_SUB;
    s.v = w.next_id++;
    s.sub = inner;
    s.guard = r.chance(1, 4) ? w.next_id++ : 0;
    s.tried = r.chance(1, 4);
    w.P[me].code.push_back(s);
    if (r.chance(1, 3)) { Instr in; in.kind = o.ytemp ? I_YTEMP : I_YREF; in.v = w.next_id++; w.P[me].code.push_back(in); }
    inner = me;
  }
  return inner;
}

// ---- event traces ------------------------------------------------------------------------------------
struct Trace {
  std::vector<std::pair<int, int>> real, model;
  size_t checked = 0;
  void r(int k, int v) { real.emplace_back(k, v); }
  void m(int k, int v) { model.emplace_back(k, v); }
  // both sides must agree after every operation of the consumer
  void compare(vm::Ctx& cx, const char* op) {
    size_t n = std::max(real.size(), model.size());
    for (size_t i = checked; i < n; i++) {
      bool hr = i < real.size(), hm = i < model.size();
      if (hr && hm && real[i] == model[i]) {
        cx.observe((uint64_t)real[i].first << 32 | (unsigned)real[i].second);
        continue;
      }
      char buf[900];
      int o = 0;
      for (size_t k = i > 8 ? i - 8 : 0; k < i + 3; k++)
        o += snprintf(buf + o, sizeof buf - o, "%s%s %s:%d / %s:%d", k == i ? " ==>" : "", k ? ";" : "", k < model.size() ? evname(model[k].first) : "none", k < model.size() ? model[k].second : 0,
                      k < real.size() ? evname(real[k].first) : "none", k < real.size() ? real[k].second : 0);
      char key[80];
      snprintf(key, sizeof key, "trace:%s-expected,%s-seen", hm ? evname(model[i].first) : "nothing", hr ? evname(real[i].first) : "nothing");
      vs::fail(key, "after %s, event %zu (expected / seen): %s", op, i, buf);
    }
    checked = n;
    if (n > 4000) { real.clear(); model.clear(); checked = 0; }
  }
};

// ---- reference model -----------------------------------------------------------------------------------
// semantics of one yielded object as seen by both sides
struct Cell {
  int v = 0;
  bool moved = false;
};
constexpr int MOVED = -7777;

struct MGen;
struct Frame {
  const Prog* p = nullptr;   // null: range or converting leaf
  size_t pc = 0;
  bool started = false;
  bool at_yield = false;     // suspended inside instruction pc
  // range leaf
  std::vector<Cell>* range = nullptr;
  std::vector<Cell> own_range;
  size_t ri = 0;
  bool is_range = false;
  // converting leaf / consuming instruction: generator owned by this frame
  std::unique_ptr<MGen> inner;
  bool is_conv = false;
  std::vector<int> guards;   // constructed and not yet destroyed, in order
};

enum step_result { S_VALUE, S_END, S_EXC };

struct MGen {
  const World* w = nullptr;
  Trace* t = nullptr;
  std::vector<Frame> st;
  bool silent = false;
  bool has_value = false;
  Cell cur;      // the yielded object
  int exc = 0;
  bool ints = false;  // program runs over plain ints (no moved-from state)
  bool nothing = false;
  bool refs = false;  // CONSUME re-yields the inner object itself

  void inherit(MGen& g) const { g.ints = ints; g.nothing = nothing; g.refs = refs; }
  void ev(int k, int v) { t->m(k, v); }
  MGen() = default;
  MGen(const World* w, Trace* t, int prog) : w(w), t(t) { push(prog); }
  bool finished() const { return st.empty(); }
  void push(int prog) {
    Frame f;
    f.p = &w->P[prog];
    st.push_back(std::move(f));
  }
  void unguard(Frame& f) {
    while (!f.guards.empty()) {
      ev(E_UNGUARD, f.guards.back());
      f.guards.pop_back();
    }
  }
  void unguard_one(Frame& f, int id) {
    if (id) {
      ev(E_UNGUARD, id);
      f.guards.pop_back();
    }
  }
  // destruction of a suspended coroutine: innermost frame first
  void destroy() {
    has_value = false;
    while (!st.empty()) {
      Frame& f = st.back();
      if (f.inner) f.inner->destroy();
      unguard(f);
      st.pop_back();
    }
  }
  // instruction at pc is finished
  void instr_end(Frame& f) {
    unguard_one(f, f.p->code[f.pc].guard);
    f.pc++;
    f.at_yield = false;
  }
  step_result fail(int id) {
    // unwinding of the innermost body
    Frame& f = st.back();
    if (f.inner) { f.inner->destroy(); f.inner.reset(); }
    unguard(f);
    st.pop_back();
    has_value = false;
    exc = id;
    return S_EXC;
  }
  step_result give(Cell c) {
    cur = c;
    if (nothing) cur.v = 0;
    has_value = true;
    return S_VALUE;
  }
  // runs to the next yield / end / exception
  step_result step() {
    has_value = false;
    while (!st.empty()) {
      Frame& f = st.back();
      if (f.is_range) {
        // the consumer may have changed the element
        if (f.at_yield) {
          f.ri++;
          f.at_yield = false;
        }
        if (f.ri < f.own_range.size()) {
          f.at_yield = true;
          return give(f.own_range[f.ri]);
        }
        st.pop_back();
        continue;
      }
      if (f.is_conv) {
        step_result r = f.inner->step();
        if (r == S_VALUE) return give(Cell{f.inner->cur.v, false});
        int e = f.inner->exc;
        // the generator which was iterated is a temporary of the owner's expression: it dies when the owner continues
        std::unique_ptr<MGen> dead = std::move(f.inner);
        st.pop_back();
        st.back().inner = std::move(dead);
        if (r == S_EXC) {
          has_value = false;
          exc = e;
          return S_EXC;
        }
        continue;
      }
      if (!f.started) {
        f.started = true;
        ev(E_GUARD, f.p->id);
        f.guards.push_back(f.p->id);
      }
      if (f.pc >= f.p->code.size()) {
        unguard(f);
        st.pop_back();
        continue;
      }
      const Instr& in = f.p->code[f.pc];
      if (f.at_yield) {
        // continue inside the instruction
        switch (in.kind) {
          case I_YTEMP: case I_SUB_EMPTY: break;
          case I_YNAMED: case I_YREF:
            ev(E_READBACK, nothing ? 0 : cur.moved ? MOVED : cur.v);
            break;
          case I_YCONST: ev(E_READBACK, nothing ? 0 : in.v); break;
          case I_SUB: case I_SUB_RANGE: break;
          case I_SUB_CONV: if (f.inner) { f.inner->destroy(); f.inner.reset(); } break;
          case I_SUB_PART: ev(E_INNER_EMPTY, 1); break;
          case I_CONSUME: {
            if (refs) f.inner->cur = cur;
            step_result r = f.inner->step();
            if (r == S_EXC) return fail(f.inner->exc);
            if (r == S_VALUE) return give(Cell{f.inner->cur.v, refs && f.inner->cur.moved});
            f.inner.reset();
            break;
          }
        }
        instr_end(f);
        continue;
      }
      if (in.guard) {
        ev(E_GUARD, in.guard);
        f.guards.push_back(in.guard);
      }
      switch (in.kind) {
        case I_EFFECT: ev(E_EFFECT, in.v); instr_end(f); break;
        case I_HOP: instr_end(f); break;
        case I_THROW: return fail(in.v);
        case I_RETURN:
          unguard(f);
          st.pop_back();
          break;
        case I_YTEMP: case I_YNAMED: case I_YCONST: case I_YREF:
          f.at_yield = true;
          return give(Cell{in.v, false});
        case I_SUB_EMPTY: instr_end(f); break;
        case I_SUB:
          f.at_yield = true;
          push(in.sub);
          break;
        case I_SUB_RANGE: {
          f.at_yield = true;
          Frame g;
          g.is_range = true;
          for (int i = 0; i < in.n; i++) g.own_range.push_back(Cell{in.v + 1 + i, false});
          st.push_back(std::move(g));
          break;
        }
        case I_SUB_CONV: {
          if (ints) { instr_end(f); break; }
          f.at_yield = true;
          Frame g;
          g.is_conv = true;
          g.inner = std::make_unique<MGen>(w, t, in.sub);
          g.inner->ints = true;
          st.push_back(std::move(g));
          break;
        }
        case I_SUB_PART: {
          MGen g(w, t, in.sub);
          inherit(g);
          for (int i = 0; i < in.n; i++) {
            step_result r = g.step();
            if (r == S_VALUE) ev(E_INNER, nothing ? 0 : g.cur.v);
            else if (r == S_EXC) ev(E_INNER_EXC, g.exc);
            else { ev(E_INNER_END, 0); break; }
          }
          f.at_yield = true;
          cur = g.cur;  // the value consumed last is still alive in the leaf
          for (auto& x : g.st) st.push_back(std::move(x));
          break;
        }
        case I_CONSUME: {
          f.inner = std::make_unique<MGen>(w, t, in.sub);
          inherit(*f.inner);
          f.at_yield = true;
          // first value
          step_result r = f.inner->step();
          if (r == S_EXC) return fail(f.inner->exc);
          if (r == S_VALUE) return give(Cell{f.inner->cur.v, false});
          f.inner.reset();
          instr_end(f);
          break;
        }
      }
    }
    return S_END;
  }
};
}  // namespace vp
