// Compiled with the same (instrumented) flags as the code under test: factories for the built-in
// obstacles, so that their inline code runs instrumented too.
#include "src_includes.hpp"
#include "sut_objects.hpp"
namespace {
struct HalfSpace : ObjectGeneral { TV a, n; HalfSpace(BC b, T f, TV a_, TV n_) : ObjectGeneral(b, f, "half"), a(a_), n(n_) {} bool inside(const TV& X) const override { return (X - a).dot(n) < 0; } TV normal(const TV&) const override { return n; } };
struct Ball : ObjectGeneral { TV a; T r; Ball(BC b, T f, TV a_, T r_) : ObjectGeneral(b, f, "ball"), a(a_), r(r_) {} bool inside(const TV& X) const override { return (X - a).norm() < r; } TV normal(const TV& X) const override { TV d = X - a; return d / d.norm(); } };
}
std::unique_ptr<ObjectGeneral> make_object(int kind, BC bc, T friction, const TV& a, T b, const TV& n){
    switch (kind){
        case 0: return std::make_unique<HalfSpace>(bc, friction, a, n);
        case 1: return std::make_unique<Ball>(bc, friction, a, b);
        case 2: return std::make_unique<ObjectBump>(bc, friction, "bump");
        case 3: return std::make_unique<ObjectRamp>(bc, friction, "ramp");
        case 4: return std::make_unique<ObjectGround>(bc, friction, "ground", b);
        case 5: return std::make_unique<ObjectCurve>(bc, friction, "curve");
        case 6: return std::make_unique<ObjectGate>(bc, friction, "gate", b);
#ifdef THREEDIM
        case 7: return std::make_unique<ObjectSilo>(bc, friction, "silo", b);
#endif
    }
    return nullptr;
}
