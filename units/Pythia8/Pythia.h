// Declarations (no bodies) of the parts of the Pythia 8 interface that smash/stringprocess.h mentions. Pythia is not
// installed here; string fragmentation itself is not verified. Any call into Pythia would be an unresolved external.
#pragma once
#include <string>
#include <vector>
namespace Pythia8 {
class Vec4 {
 public:
  Vec4(double x = 0., double y = 0., double z = 0., double t = 0.);
  Vec4 &operator+=(const Vec4 &);
  double mCalc() const;
 private:
  double xx, yy, zz, tt;
};
class Particle {
 public:
  double px() const, py() const, pz() const, e() const, y() const;
  bool isFinal() const;
  int id() const;
  void p(Vec4), m(double);
};
class Event {
 public:
  int size() const;
  Particle &operator[](int);
 private:
  std::vector<Particle> entry;
};
class Info {};
class Rndm { public: bool init(int); };
class Settings {};
class ParticleData { public: double m0(int); };
class Pythia {
 public:
  Pythia(std::string, bool);
  Event event;
  const Info info;
  Rndm rndm;
  Settings settings;
  ParticleData particleData;
  bool readString(std::string, bool = true);
};
class SigmaTotal {
 public:
  bool calc(int, int, double);
  double sigmaAX() const, sigmaXB() const, sigmaXX() const;
};
class StringFlav {};
class FlavContainer;
}
