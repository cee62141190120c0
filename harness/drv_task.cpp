// C08 tasks, C09 task contexts
#include "vtask.hpp"

using namespace vt;

namespace {

SEQ_SCENARIO("C08", "trees", 6) {
  Params p;
  p.throws = cx.rng.chance(2, 3);
  p.hops = cx.rng.chance(2, 3);
  run_seq<dd::null_context>(cx, p, false);
}
SEQ_SCENARIO("C08", "abandoned", 3) {
  Params p;
  p.throws = cx.rng.chance(1, 3);
  p.all = false;
  run_seq<dd::null_context>(cx, p, true);
}
MT_SCENARIO("C08", "threads", 4) {
  Params p;
  p.throws = cx.rng.chance(2, 3);
  run_mt<dd::null_context>(cx, p);
}
SEQ_SCENARIO("C09", "contexts", 6) {
  Params p;
  p.throws = cx.rng.chance(2, 3);
  p.hops = cx.rng.chance(2, 3);
  run_seq<RecCtx>(cx, p, false);
}
SEQ_SCENARIO("C09", "contexts_abandoned", 2) {
  Params p;
  p.throws = cx.rng.chance(1, 3);
  p.all = false;
  run_seq<RecCtx>(cx, p, true);
}
MT_SCENARIO("C09", "contexts_threads", 4) {
  Params p;
  p.throws = cx.rng.chance(2, 3);
  run_mt<RecCtx>(cx, p);
}

}  // namespace

VM_MAIN
