// P09, inductive part: a particle list in an arbitrary state that satisfies the
// representation invariant (any size, any pattern of holes).
//@sources @types_support.cc particles.cc particledata.cc pdgcode.cc
#include "types.h"
#include "smash/particles.h"

#ifndef VC_NATIVE
struct Any {
  Particles *l;
  uint64_t n, cap, m;  // used slots, capacity, holes
  uint32_t *pos;       // ghost: where a hole is noted
  // representation invariant at slot j
  void slot(uint64_t j) const {
    const ParticleData &d = l->data_[j];
    VC_ASSUME(d.index_ == j);
    VC_ASSUME(reinterpret_cast<const uint8_t &>(d.hole_) <= 1 && reinterpret_cast<const uint8_t &>(d.core_) <= 1);
    if (j >= n) {
      VC_ASSUME(!d.hole_);
    } else if (d.hole_) {
      VC_ASSUME(d.id_ == -1 && pos[j] < m);
      VC_ASSUME(l->dirty_[pos[j]] == j);
    } else {
      VC_ASSUME(d.id_ >= 0 && d.id_ <= l->id_max_);
    }
  }
  void note(uint64_t k) const {
    uint32_t d = l->dirty_[k];
    VC_ASSUME(d < n);
    VC_ASSUME(l->data_[d].hole_);
    VC_ASSUME(pos[d] == k);
    slot(d);
  }
};
static Any any_list(bool room) {
  install_types();
  Any a;
  a.l = new Particles;
  a.cap = vc_u64("capacity", 1, 1u << 30);
  a.n = vc_u64("used", 0, 1u << 30);
  a.m = vc_u64("holes", 0, 1u << 30);
  VC_ASSUME(a.n < a.cap && a.m <= a.n);
  if (room) VC_ASSUME(a.n + 4 < a.cap);
  a.l->id_max_ = vc_int("idmax", -1, 1 << 30);
  a.l->data_size_ = a.n;
  a.l->data_capacity_ = a.cap;
  a.l->data_.release();
  a.l->data_.reset(static_cast<ParticleData *>(vc_sym_array(
      "slot", a.cap, sizeof(ParticleData),
      "0:i32,4:i32,8:i16,10:i8,11:i8,16:d,24:d,32:d,40:d,48:d,56:d,64:d,72:d,80:d,88:d,96:d,104:d,112:d,120:d,128:d,136:d,144:i32,148:i32,152:i32,"
      "160:d,168:i32,172:i32,176:i32")));
  uint32_t *d = static_cast<uint32_t *>(vc_sym_array("dirty", 1u << 30, 4, "0:i32"));
  a.l->dirty_._M_impl._M_start = d;
  a.l->dirty_._M_impl._M_finish = d + a.m;
  a.l->dirty_._M_impl._M_end_of_storage = d + (1u << 30);
  a.pos = static_cast<uint32_t *>(vc_sym_array("pos", a.cap, 4, "0:i32"));
  return a;
}
static uint64_t any_slot(const char *name, const Any &a) {
  uint64_t j = vc_u64(name, 0, 1u << 30);
  VC_ASSUME(j < a.n);
  return j;
}
#else
// natively: a list with a random history
struct Any {
  Particles *l;
  uint64_t n, cap, m;
  void slot(uint64_t) const {}
  void note(uint64_t) const {}
};
static Any any_list(bool room) {
  install_types();
  static Particles *old = nullptr;
  if (old) delete old;
  Any a;
  a.l = old = new Particles;
  int ops = vc_int("ops", 1, 24);
  for (int i = 0; i < ops; i++) {
    int k = vc_int("op", 0, 3);
    if (k < 2) {
      ParticleData p(vc_type(T_P));
      p.set_4momentum(FourVector(i, 1, 2, 3));
      p.set_4position(FourVector(4, 5, 6, i));
      p.history_.id_process = i;
      a.l->insert(p);
    } else if (a.l->size() > 0) {
      auto it = a.l->begin();
      for (int q = vc_int("which", 0, 20) % a.l->size(); q > 0; q--) ++it;
      a.l->remove(*it);
    }
  }
  a.n = a.l->data_size_;
  a.cap = a.l->data_capacity_;
  a.m = a.l->dirty_.size();
  return a;
}
static uint64_t any_slot(const char *name, const Any &a) {
  VC_ASSUME(a.n > 0);
  return vc_u64(name, 0, 30) % a.n;
}
#endif
static ParticleData any_particle() {
  ParticleData p(vc_type(T_PIP));
  p.set_4momentum(FourVector(vc_double("E", -9, 9), vc_double("px", -9, 9), vc_double("py", -9, 9), vc_double("pz", -9, 9)));
  p.set_4position(FourVector(vc_double("t", -9, 9), vc_double("x", -9, 9), vc_double("y", -9, 9), vc_double("z", -9, 9)));
  p.history_.id_process = vc_int("proc", 0, 1000);
  p.history_.collisions_per_particle = vc_int("ncoll", 0, 1000);
  p.history_.time_last_collision = vc_double("tlast", 0, 9);
  p.history_.p1 = PdgCode(0x2212);
  p.set_spin_vector(FourVector(vc_double("s0", -1, 1), vc_double("s1", -1, 1), vc_double("s2", -1, 1), vc_double("s3", -1, 1)));
  p.set_slow_formation_times(vc_double("begin", -9, 9), vc_double("formed", -9, 9));
  p.set_cross_section_scaling_factor(vc_double("scale", 0, 1));
  p.set_perturbative_weight(vc_double("weight", 0, 2));
  p.set_belongs_to(BelongsTo::Projectile);
  if (vc_bool("core")) p.fluidize();
  return p;
}
static void same_state(const ParticleData &q, const ParticleData &p) {
  for (int c = 0; c < 4; c++) {
    VC_EQ(q.momentum()[c], p.momentum()[c], "with its momentum");
    VC_EQ(q.position()[c], p.position()[c], "and position");
    VC_EQ(q.spin_vector()[c], p.spin_vector()[c], "and spin");
  }
  const HistoryData &a = q.history_, &b = p.history_;
  VC_ASSERT(a.id_process == b.id_process && a.collisions_per_particle == b.collisions_per_particle && a.p1 == b.p1 && a.p2 == b.p2, "and history");
  VC_EQ(a.time_last_collision, b.time_last_collision, "and time of the last collision");
  VC_EQ(q.formation_time(), p.formation_time(), "and formation time");
  VC_EQ(q.begin_formation_time(), p.begin_formation_time(), "and begin of the formation");
  VC_EQ(q.initial_xsec_scaling_factor(), p.initial_xsec_scaling_factor(), "and cross section scaling");
  VC_EQ(q.perturbative_weight(), p.perturbative_weight(), "and weight");
  VC_ASSERT(q.belongs_to() == p.belongs_to() && q.is_core() == p.is_core(), "and labels");
}

VC_PROOF(remove) {
  VC_CONFIG("ints=int");
  Any a = any_list(false);
  Particles &l = *a.l;
  uint64_t i = any_slot("i", a), j = any_slot("j", a);
  VC_ASSUME(j != i);
  a.slot(i);
  a.slot(j);
  VC_ASSUME(!l.data_[i].hole_);
  ParticleData p(vc_type(T_PIP), l.data_[i].id_, i);
  p.history_.id_process = l.data_[i].id_process();
  bool hole = l.data_[j].hole_;
  int id = l.data_[j].id_, mx = l.id_max_;
  double E = l.data_[j].momentum_.x0(), z = l.data_[j].position_.x3();
  uint64_t before = l.size();
  VC_ASSERT(l.is_valid(p), "the particle is in the list");
  l.remove(p);
  VC_ASSERT(l.size() == before - 1, "one particle less");
  VC_ASSERT(!l.is_valid(p), "the removed particle is no longer there");
  VC_ASSERT(l.data_[j].hole_ == hole && l.data_[j].id_ == id && l.id_max_ == mx, "other particles stay");
  VC_EQ(l.data_[j].momentum_.x0(), E, "their momenta stay");
  VC_EQ(l.data_[j].position_.x3(), z, "their positions stay");
  // invariant again
  if (i < l.data_size_) {
    VC_ASSERT(l.data_[i].hole_ && l.data_[i].id_ == -1 && l.dirty_.back() == i && l.dirty_.size() == a.m + 1, "the hole is noted");
  } else {
    VC_ASSERT(!l.data_[i].hole_ && i == l.data_size_ && l.dirty_.size() == a.m, "the list got shorter");
  }
  VC_ASSERT(j < l.data_size_, "no other particle falls off the end");
  VC_ASSERT(l.data_[i].index_ == i && l.data_[j].index_ == j, "slots know their place");
}
VC_PROOF(insert) {
  VC_CONFIG("ints=int");
  Any a = any_list(true);
  Particles &l = *a.l;
  uint64_t j = any_slot("j", a);
  a.slot(j);
  a.slot(a.n);
  if (a.m > 0) a.note(a.m - 1);
  bool hole = l.data_[j].hole_;
  int id = l.data_[j].id_, mx = l.id_max_;
  double E = l.data_[j].momentum_.x0(), z = l.data_[j].position_.x3();
  uint64_t before = l.size();
  ParticleData p = any_particle();
  const ParticleData &q = l.insert(p);
  VC_ASSERT(l.size() == before + 1, "one particle more");
  VC_ASSERT(l.is_valid(q) && q.id() == mx + 1 && l.id_max_ == mx + 1, "with a fresh id");
  VC_ASSERT(q.type_.index_ == p.type_.index_, "of the given type");
  same_state(q, p);
  uint64_t at = q.index_;
  VC_ASSERT(at < l.data_size_ && &l.data_[at] == &q && !q.hole_, "in a proper slot");
  VC_ASSERT(a.m > 0 ? l.data_size_ == a.n && l.dirty_.size() == a.m - 1 : l.data_size_ == a.n + 1 && l.dirty_.size() == 0, "holes are used first");
  if (at != j) {
    VC_ASSERT(l.data_[j].hole_ == hole && l.data_[j].id_ == id, "other particles stay");
    VC_EQ(l.data_[j].momentum_.x0(), E, "their momenta stay");
    VC_EQ(l.data_[j].position_.x3(), z, "their positions stay");
  } else {
    VC_ASSERT(hole, "only a hole is overwritten");
  }
  VC_ASSERT(l.data_size_ < l.data_capacity_, "there is always a slot behind the end");
}
VC_PROOF(create_one) {
  VC_CONFIG("ints=int");
  Any a = any_list(true);
  Particles &l = *a.l;
  uint64_t j = any_slot("j", a);
  a.slot(j);
  a.slot(a.n);
  if (a.m > 0) a.note(a.m - 1);
  bool hole = l.data_[j].hole_;
  int id = l.data_[j].id_, mx = l.id_max_;
  double E = l.data_[j].momentum_.x0();
  uint64_t before = l.size();
  const ParticleData &q = l.create(PdgCode(vc_codes[T_P]));
  VC_ASSERT(l.size() == before + 1, "one particle more");
  VC_ASSERT(l.is_valid(q) && q.id() == mx + 1 && l.id_max_ == mx + 1, "with a fresh id");
  VC_ASSERT(&q.type() == &vc_type(T_P), "of the given type");
  uint64_t at = q.index_;
  VC_ASSERT(at < l.data_size_ && &l.data_[at] == &q && !q.hole_, "in a proper slot");
  if (at != j) {
    VC_ASSERT(l.data_[j].hole_ == hole && l.data_[j].id_ == id, "other particles stay");
    VC_EQ(l.data_[j].momentum_.x0(), E, "their momenta stay");
  } else {
    VC_ASSERT(hole, "only a hole is overwritten");
  }
}
VC_PROOF(validity) {
  VC_CONFIG("ints=int");
  Any a = any_list(false);
  Particles &l = *a.l;
  uint64_t i = vc_u64("i", 0, (1ull << 32) - 1);
  int id = vc_int("id", 0, 1 << 30), proc = vc_int("process", 0, 1 << 30);
  ParticleData p(vc_type(T_PIP), id, static_cast<unsigned>(i));
  p.history_.id_process = proc;
  bool expect = false;
  if (i < a.n) {
    a.slot(i);
    expect = !l.data_[i].hole_ && l.data_[i].id_ == id && l.data_[i].id_process() == static_cast<uint32_t>(proc);
  }
  VC_ASSERT(l.is_valid(p) == expect, "valid exactly if this particle is still there and has not interacted since");
  if (expect) VC_ASSERT(&l.lookup(p) == &l.data_[i], "lookup finds it");
}
VC_PROOF(update_in_place) {
  VC_CONFIG("ints=int");
  Any a = any_list(false);
  Particles &l = *a.l;
  uint64_t i = any_slot("i", a), j = any_slot("j", a);
  VC_ASSUME(j != i);
  a.slot(i);
  a.slot(j);
  VC_ASSUME(!l.data_[i].hole_);
  int idi = l.data_[i].id_, id = l.data_[j].id_, mx = l.id_max_;
  double E = l.data_[j].momentum_.x0(), z = l.data_[j].position_.x3();
  ParticleData old(vc_type(T_PIP), idi, i);
  uint64_t before = l.size();
  ParticleData p = any_particle();
  const ParticleData &q = l.update_particle(old, p);
  VC_ASSERT(&q == &l.data_[i] && q.id_ == idi && q.index_ == i && !q.hole_ && l.size() == before && l.id_max_ == mx, "the same particle");
  same_state(q, p);
  VC_ASSERT(l.data_[j].id_ == id, "other particles stay");
  VC_EQ(l.data_[j].momentum_.x0(), E, "their momenta stay");
  VC_EQ(l.data_[j].position_.x3(), z, "their positions stay");
}
VC_PROOF(emptied) {
  VC_CONFIG("ints=int");
  Any a = any_list(false);
  Particles &l = *a.l;
  VC_ASSERT(l.is_empty() == (l.size() == 0) && l.size() == a.n - a.m, "empty exactly if it has no particle");
}
