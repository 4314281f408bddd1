// The simulator interface with only its pure virtual primitives implemented (by a state-vector engine): every other method is the default of QInterface.
#pragma once
#include "qengine_cpu.hpp"
namespace Qrack {
class QBase;
typedef std::shared_ptr<QBase> QBasePtr;
class QBase : public QInterface {
public:
    QInterfacePtr e;
    QBase(QInterfacePtr eng, qrack_rand_gen_ptr rgp, bool rgph)
        : QInterface(eng->GetQubitCount(), rgp, false, false, rgph)
        , e(eng)
    {
    }
    void sync() { SetQubitCount(e->GetQubitCount()); }
    void SetConcurrency(uint32_t t) { e->SetConcurrency(t); }
    void SetQuantumState(const complex* s) { e->SetQuantumState(s); }
    void GetQuantumState(complex* s) { e->GetQuantumState(s); }
    void GetProbs(real1* s) { e->GetProbs(s); }
    complex GetAmplitude(const bitCapInt& p) { return e->GetAmplitude(p); }
    void SetAmplitude(const bitCapInt& p, const complex& a) { e->SetAmplitude(p, a); }
    void SetPermutation(const bitCapInt& p, const complex& f) { e->SetPermutation(p, f); }
    using QInterface::Compose;
    bitLenInt Compose(QInterfacePtr q) { return Compose(q, qubitCount); }
    bitLenInt Compose(QInterfacePtr q, bitLenInt s)
    {
        bitLenInt r = e->Compose(std::dynamic_pointer_cast<QBase>(q)->e, s);
        sync();
        return r;
    }
    using QInterface::Decompose;
    void Decompose(bitLenInt s, QInterfacePtr d)
    {
        e->Decompose(s, std::dynamic_pointer_cast<QBase>(d)->e);
        sync();
    }
    QInterfacePtr Decompose(bitLenInt s, bitLenInt l)
    {
        QInterfacePtr d = std::make_shared<QBase>(e->Decompose(s, l), rand_generator, randGlobalPhase);
        sync();
        return d;
    }
    void Dispose(bitLenInt s, bitLenInt l)
    {
        e->Dispose(s, l);
        sync();
    }
    void Dispose(bitLenInt s, bitLenInt l, const bitCapInt& p)
    {
        e->Dispose(s, l, p);
        sync();
    }
    using QInterface::Allocate;
    bitLenInt Allocate(bitLenInt s, bitLenInt l)
    {
        bitLenInt r = e->Allocate(s, l);
        sync();
        return r;
    }
    void Mtrx(const complex* m, bitLenInt q) { e->Mtrx(m, q); }
    void MCMtrx(const std::vector<bitLenInt>& c, const complex* m, bitLenInt t) { e->MCMtrx(c, m, t); }
    bool ForceM(bitLenInt q, bool r, bool f = true, bool a = true) { return e->ForceM(q, r, f, a); }
    real1_f Prob(bitLenInt q) { return e->Prob(q); }
    real1_f SumSqrDiff(QInterfacePtr o) { return e->SumSqrDiff(std::dynamic_pointer_cast<QBase>(o)->e); }
    void UpdateRunningNorm(real1_f t = REAL1_DEFAULT_ARG) { e->UpdateRunningNorm(t); }
    void NormalizeState(real1_f n = REAL1_DEFAULT_ARG, real1_f t = REAL1_DEFAULT_ARG, real1_f p = ZERO_R1_F) { e->NormalizeState(n, t, p); }
    QInterfacePtr Clone() { return std::make_shared<QBase>(e->Clone(), rand_generator, randGlobalPhase); }
    using QInterface::Copy;
    void Copy(QInterfacePtr o)
    {
        QInterface::Copy(o);
        e = std::dynamic_pointer_cast<QBase>(o)->e->Clone();
    }
    void SetDevice(int64_t d) {}
};
} // namespace Qrack
