// environment of the drivers of many tasks: a manual executor (sequential cases) or a pool
#pragma once
#include "vbig.hpp"
#include "kelcoro/algorithm.hpp"
#include "kelcoro/logical_thread.hpp"
#include "kelcoro/thread_pool.hpp"

using vm::big;
using vm::completion;
using vm::Ctx;
using vm::Exc;
using vm::logsize;
using vm::MAX_DEPTH;
using vm::MoveOnly;
using vm::Obj;
using vm::Odd;
using vm::Pod;
using vm::Rng;
using vm::Val;

namespace {

struct Park;
struct Env {
  bool seq = true;
  dd::thread_pool* pool = nullptr;
  std::vector<Park*> parked;
  Rng order{1};
  bool ordered = false;  // bodies run in the order of their numbers
  int cursor = 0;        // number of the next body to run
  vs::counter started_all, ended_all;
  void drain(Ctx& cx, long limit);
};
struct Park {
  Env& e;
  std::coroutine_handle<> h;
  size_t at = ~(size_t)0;
  explicit Park(Env& e) : e(e) {}
  Park(Park&&) = delete;
  bool await_ready() { return false; }
  void await_suspend(std::coroutine_handle<> x) {
    h = x;
    at = e.parked.size();
    e.parked.push_back(this);
  }
  void await_resume() {}
  void leave() {
    if (at == ~(size_t)0) return;
    e.parked[at] = e.parked.back();
    e.parked[at]->at = at;
    e.parked.pop_back();
    at = ~(size_t)0;
  }
  ~Park() { leave(); }
};
void Env::drain(Ctx& cx, long limit = 1l << 60) {
  while (!parked.empty() && limit-- > 0) {
    size_t i = (size_t)order.below((int)parked.size());
    Park* p = parked[i];
    p->leave();
    cx.observe(i);
    p->h.resume();
  }
}
#define HOP(e)                                            \
  do {                                                    \
    if ((e).seq) co_await Park(e);                        \
    else {                                                \
      auto st_ = co_await dd::jump_on(*(e).pool);         \
      VM_CHECK((bool)st_, "cancelled-while-running", ""); \
    }                                                     \
  } while (0)

}  // namespace
