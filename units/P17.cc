// P17: actions are carried out in the order of their times
//@sources @types_support.cc action.cc particledata.cc particles.cc pdgcode.cc fourvector.cc threevector.cc potential_globals.cc
//@native random.cc logging.cc
//@bounded drain_list_1 drain_list_3 drain_list_4 drain_inserted_3 drain_inserted_4 drain_mixed_4 drain_list_5 interleaved clearing
#include <memory>
#include "types.h"
#include "smash/action.h"
#include "smash/actions.h"
struct Timed : Action {
  int name;
  Timed(const ParticleList &in, double t, int n) : Action(in, t), name(n) {}
  void generate_final_state() override {}
  double get_total_weight() const override { return 0; }
  double get_partial_weight() const override { return 0; }
  void format_debug_output(std::ostream &) const override {}
};
static const char *const T[] = {"t0", "t1", "t2", "t3", "t4", "t5"};
struct Queue {
  ParticleList someone;
  Queue() {
    install_types();
    someone.push_back(ParticleData(vc_type(T_P)));
    someone[0].set_4position(FourVector(0, 1, 2, 3));
  }
  Actions q;
  double t[6];
  int n = 0;
  unsigned inside = 0;
  ActionPtr make() {
    t[n] = vc_double(T[n], -10, 100);
    inside |= 1u << n;
    int k = n++;
    return std::make_unique<Timed>(someone, t[k], k);
  }
  void check() {
    int size = 0;
    double first = 1e9;
    for (int i = 0; i < n; i++)
      if (inside >> i & 1) {
        size++;
        if (t[i] < first) first = t[i];
      }
    VC_ASSERT(q.size() == unsigned(size) && q.is_empty() == (size == 0), "as many actions as put in and not taken out");
    if (size) VC_ASSERT(q.earliest_time() == first, "the earliest time is known");
  }
  void pop() {
    double first = 1e9;
    for (int i = 0; i < n; i++)
      if (inside >> i & 1 && t[i] < first) first = t[i];
    ActionPtr a = q.pop();
    const Timed &x = static_cast<const Timed &>(*a);
    VC_ASSERT(inside >> x.name & 1, "every action is taken out once");
    VC_ASSERT(x.time_of_execution() == t[x.name], "with its own time");
    VC_ASSERT(t[x.name] == first, "the earliest one first");
    inside &= ~(1u << x.name);
    check();
  }
};
static void drain(int from_list, int then) {
  VC_CONFIG("merge=0");
  ActionList l;
  Queue Q;
  for (int i = 0; i < from_list; i++) l.push_back(Q.make());
  Q.q.data_ = std::move(Actions(std::move(l)).data_);
  Q.check();
  for (int i = 0; i < then; i++) Q.q.insert(Q.make());
  Q.check();
  while (Q.inside) Q.pop();
  VC_THROWS(Q.q.pop(), std::runtime_error, "nothing left");
}
VC_PROOF(drain_list_1) { drain(1, 0); }
VC_PROOF(drain_list_3) { drain(3, 0); }
VC_PROOF(drain_list_4) { drain(4, 0); }
VC_PROOF(drain_inserted_3) { drain(0, 3); }
VC_PROOF(drain_inserted_4) { drain(0, 4); }
VC_PROOF(drain_mixed_4) { drain(2, 2); }
VC_PROOF(drain_list_5) { drain(5, 0); }
VC_PROOF(interleaved) {
  VC_CONFIG("merge=0");
  Queue Q;
  Q.q.insert(Q.make());
  Q.q.insert(Q.make());
  Q.q.insert(Q.make());
  Q.pop();
  ActionList more;
  more.push_back(Q.make());
  more.push_back(Q.make());
  Q.q.insert(std::move(more));
  Q.check();
  Q.pop();
  Q.pop();
  Q.pop();
  Q.pop();
  VC_ASSERT(Q.q.is_empty(), "all are taken out");
}
VC_PROOF(clearing) {
  VC_CONFIG("merge=0");
  Queue Q;
  Q.q.insert(Q.make());
  Q.q.insert(Q.make());
  Q.q.clear();
  Q.inside = 0;
  Q.check();
  VC_THROWS(Q.q.pop(), std::runtime_error, "nothing left");
  Q.q.insert(Q.make());
  Q.check();
  Q.pop();
}
VC_PROOF(order) {
  VC_CONFIG("merge=0");
  const double a = vc_double("a", -10, 100), b = vc_double("b", -10, 100);
  Queue Q;
  Timed x(Q.someone, a, 0), y(Q.someone, b, 1);
  VC_ASSERT((x < y) == (a < b), "actions compare by time");
}
// times of execution: relative to the particle, or absolute
VC_PROOF(time_of_execution) {
  install_types();
  const double t = vc_double("t", 0, 50), dt = vc_double("dt", -5, 5);
  ParticleData p(vc_type(T_P));
  p.set_4position(FourVector(t, 1, 2, 3));
  Timed a({p}, dt, 0);
  VC_EQ(a.time_of_execution(), t + dt, "relative to the time of the particle");
}
