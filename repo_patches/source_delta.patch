From 752b58953da8d006c9a76e1522af4a35de28d9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 01/45] fix: QEngineCPU::DecomposeDispose() reconstructs phases
 relative to one pivot amplitude, (not by averaging wrapped angles)

---
 src/qengine/state.cpp | 94 +++++++++++++++----------------------------
 1 file changed, 32 insertions(+), 62 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 0eb31c9..9c48ab4 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -12,6 +12,7 @@
 
 #include "qengine_cpu.hpp"
 
+#include <algorithm>
 #include <chrono>
 #include <thread>
 
@@ -1173,76 +1174,45 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
     }
     Finish();
 
+    const bitCapIntOcl startMask = pow2MaskOcl(start);
+    const auto ampIndex = [&](const bitCapIntOcl& remainder, const bitCapIntOcl& part) {
+        const bitCapIntOcl low = remainder & startMask;
+        return low | (part << start) | ((remainder ^ low) << length);
+    };
+
+    // Angles are averaged as phase factors relative to the most probable row (or column): the weighted mean of the
+    // angles themselves is not meaningful, since arg() wraps around.
+    par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        for (bitCapIntOcl k = 0U; k < partPower; ++k) {
+            remainderStateProb[lcv] += norm(stateVec->read(ampIndex(lcv, k)));
+        }
+    });
+    const bitCapIntOcl remainderPivot =
+        std::max_element(remainderStateProb.get(), remainderStateProb.get() + remainderPower) -
+        remainderStateProb.get();
+    par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+        complex overlap = ZERO_CMPLX;
+        for (bitCapIntOcl k = 0U; k < partPower; ++k) {
+            overlap += stateVec->read(ampIndex(lcv, k)) * conj(stateVec->read(ampIndex(remainderPivot, k)));
+        }
+        remainderStateAngle[lcv] = arg(overlap);
+    });
+
     if (destination) {
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            bitCapIntOcl j = lcv & pow2MaskOcl(start);
-            j |= (lcv ^ j) << length;
-
-            for (bitCapIntOcl k = 0U; k < partPower; ++k) {
-                const complex amp = stateVec->read(j | (k << start));
-                const real1 nrm = norm(amp);
-                remainderStateProb[lcv] += nrm;
-                if (nrm > amplitudeFloor) {
-                    partStateAngle[k] += arg(amp) * nrm;
-                }
-            }
-        });
         par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const bitCapIntOcl startMask = pow2MaskOcl(start);
-            const bitCapIntOcl j = lcv << start;
-
             for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
-                bitCapIntOcl l = k & startMask;
-                l |= j | ((k ^ l) << length);
-
-                const complex amp = stateVec->read(l);
-                const real1 nrm = norm(amp);
-                partStateProb[lcv] += nrm;
-                if (nrm > amplitudeFloor) {
-                    remainderStateAngle[k] += arg(amp) * nrm;
-                }
-            }
-
-            const real1 prob = partStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                partStateAngle[lcv] /= prob;
-            }
-        });
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const real1 prob = remainderStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                remainderStateAngle[lcv] /= prob;
-            }
-        });
-    } else {
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            bitCapIntOcl j = lcv & pow2MaskOcl(start);
-            j |= (lcv ^ j) << length;
-
-            for (bitCapIntOcl k = 0U; k < partPower; ++k) {
-                remainderStateProb[lcv] += norm(stateVec->read(j | (k << start)));
+                partStateProb[lcv] += norm(stateVec->read(ampIndex(k, lcv)));
             }
         });
+        const bitCapIntOcl partPivot =
+            std::max_element(partStateProb.get(), partStateProb.get() + partPower) - partStateProb.get();
+        const real1 pivotAngle = arg(stateVec->read(ampIndex(remainderPivot, partPivot)));
         par_for(0U, partPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const bitCapIntOcl startMask = pow2MaskOcl(start);
-            const bitCapIntOcl j = lcv << start;
-
+            complex overlap = ZERO_CMPLX;
             for (bitCapIntOcl k = 0U; k < remainderPower; ++k) {
-                bitCapIntOcl l = k & startMask;
-                l |= j | ((k ^ l) << length);
-
-                const complex amp = stateVec->read(l);
-                const real1 nrm = norm(amp);
-                if (nrm > amplitudeFloor) {
-                    remainderStateAngle[k] += arg(amp) * nrm;
-                }
-            }
-        });
-        par_for(0U, remainderPower, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
-            const real1 prob = remainderStateProb[lcv];
-            if (prob > amplitudeFloor) {
-                remainderStateAngle[lcv] /= prob;
+                overlap += stateVec->read(ampIndex(k, lcv)) * conj(stateVec->read(ampIndex(k, partPivot)));
             }
+            partStateAngle[lcv] = pivotAngle + arg(overlap);
         });
     }
 
-- 
2.43.0


From d8af151656ee0b4fd77f53f76969f8dcbf469b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 02/45] fix: QEngineCPU::Copy() keeps the norm of the state it
 shares

---
 src/qengine/utility.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/qengine/utility.cpp b/src/qengine/utility.cpp
index de8db83..333b0ee 100644
--- a/src/qengine/utility.cpp
+++ b/src/qengine/utility.cpp
@@ -43,8 +43,15 @@ QEnginePtr QEngineCPU::CloneEmpty()
 
 QInterfacePtr QEngineCPU::Copy()
 {
+    // The copy shares this state vector, so normalize before sharing it.
+    if (doNormalize) {
+        NormalizeState();
+    }
+    Finish();
+
     QEngineCPUPtr clone = std::dynamic_pointer_cast<QEngineCPU>(CloneEmpty());
     clone->stateVec = stateVec;
+    clone->runningNorm = runningNorm;
 
     return clone;
 }
-- 
2.43.0


From 08d96d1230b73295cd2de5d15bafe87757f181c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 03/45] fix: QEngineCPU::IndexedSBC() skips only the width of
 the carry qubit

---
 src/qengine/arithmetic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index 67d640d..1e6e3ec 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -1122,7 +1122,7 @@ bitCapInt QEngineCPU::IndexedSBC(bitLenInt indexStart, bitLenInt indexLength, bi
     const bitCapIntOcl otherMask = (maxQPowerOcl - 1U) & (~(inputMask | outputMask | carryMask));
     const bitCapIntOcl skipPower = pow2Ocl(carryIndex);
 
-    par_for_skip(0, maxQPowerOcl, skipPower, valueLength, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
+    par_for_skip(0, maxQPowerOcl, skipPower, 1, [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
         // These are qubits that are not directly involved in the
         // operation. We iterate over all of their possibilities, but their
         // input value matches their output value:
-- 
2.43.0


From c11c4e67cebc338770b3f317a4035abc4a862d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 04/45] fix: Pauli expectation parity and factorized float
 variance

---
 src/qinterface/qinterface.cpp | 81 ++++++++---------------------------
 1 file changed, 19 insertions(+), 62 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 0804b1f..70a6719 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -644,11 +644,12 @@ real1_f QInterface::VarianceFloatsFactorized(const std::vector<bitLenInt>& bits,
 
     real1_f expectation = ZERO_R1_F;
     for (bitCapInt lcv = ZERO_BCI; bi_compare(lcv, maxQPower) < 0; bi_increment(&lcv, 1U)) {
-        real1_f weight = ONE_R1_F;
+        real1_f weight = ZERO_R1_F;
         for (size_t p = 0U; p < bits.size(); ++p) {
-            weight *= (bi_compare_0(lcv & bitPowers[p]) == 0) ? weights[p << 1U] : weights[(p << 1U) | 1U];
+            weight += (bi_compare_0(lcv & bitPowers[p]) == 0) ? weights[p << 1U] : weights[(p << 1U) | 1U];
         }
-        expectation += weight * ProbAll(lcv);
+        const real1_f diff = weight - mean;
+        expectation += diff * diff * ProbAll(lcv);
     }
 
     return expectation;
@@ -656,64 +657,15 @@ real1_f QInterface::VarianceFloatsFactorized(const std::vector<bitLenInt>& bits,
 
 real1_f QInterface::VariancePauliAll(std::vector<bitLenInt> bits, std::vector<Pauli> paulis)
 {
-    for (size_t i = 0U; i < bits.size(); ++i) {
-        const size_t j = bits.size() - (i + 1U);
-        if (paulis[j] == PauliI) {
-            bits.erase(bits.begin() + j);
-            paulis.erase(paulis.begin() + j);
-        }
-    }
-
-    if (bits.empty()) {
-        return ONE_R1;
-    }
-
-    std::vector<real1_f> eigenVals;
-    eigenVals.reserve(bits.size() << 1U);
-    for (size_t i = 0U; i < bits.size(); ++i) {
-        eigenVals.push_back(ONE_R1);
-        eigenVals.push_back(-ONE_R1);
+    // The square of a Pauli tensor product is the identity.
+    const real1_f mean = ExpectationPauliAll(bits, paulis);
 
-        switch (paulis[i]) {
-        case PauliX:
-            H(bits[i]);
-            break;
-        case PauliY:
-            IS(bits[i]);
-            H(bits[i]);
-            break;
-        case PauliZ:
-        case PauliI:
-        default:
-            break;
-        }
-    }
-
-    const real1_f toRet = VarianceFloatsFactorized(bits, eigenVals);
-
-    for (size_t i = 0U; i < bits.size(); ++i) {
-        switch (paulis[i]) {
-        case PauliX:
-            H(bits[i]);
-            break;
-        case PauliY:
-            H(bits[i]);
-            S(bits[i]);
-            break;
-        case PauliZ:
-        case PauliI:
-        default:
-            break;
-        }
-    }
-
-    return toRet;
+    return ONE_R1_F - mean * mean;
 }
 
 real1_f QInterface::ExpectationPauliAll(std::vector<bitLenInt> bits, std::vector<Pauli> paulis)
 {
-    for (size_t i = 0U; i < bits.size(); ++i) {
-        const size_t j = bits.size() - (i + 1U);
+    for (size_t j = bits.size(); j-- > 0U;) {
         if (paulis[j] == PauliI) {
             bits.erase(bits.begin() + j);
             paulis.erase(paulis.begin() + j);
@@ -724,12 +676,7 @@ real1_f QInterface::ExpectationPauliAll(std::vector<bitLenInt> bits, std::vector
         return ONE_R1;
     }
 
-    std::vector<real1_f> eigenVals;
-    eigenVals.reserve(bits.size() << 1U);
     for (size_t i = 0U; i < bits.size(); ++i) {
-        eigenVals.push_back(ONE_R1);
-        eigenVals.push_back(-ONE_R1);
-
         switch (paulis[i]) {
         case PauliX:
             H(bits[i]);
@@ -745,7 +692,17 @@ real1_f QInterface::ExpectationPauliAll(std::vector<bitLenInt> bits, std::vector
         }
     }
 
-    const real1_f toRet = ExpectationFloatsFactorized(bits, eigenVals);
+    // The eigenvalue of the tensor product is the parity of the (rotated) bits.
+    const bitLenInt last = bits.back();
+    for (size_t i = 0U; (i + 1U) < bits.size(); ++i) {
+        CNOT(bits[i], last);
+    }
+
+    const real1_f toRet = ONE_R1_F - 2 * Prob(last);
+
+    for (size_t i = 0U; (i + 1U) < bits.size(); ++i) {
+        CNOT(bits[i], last);
+    }
 
     for (size_t i = 0U; i < bits.size(); ++i) {
         switch (paulis[i]) {
-- 
2.43.0


From 97f3a44a7ffc0e114d9d780a0131ce43b18c166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 05/45] fix: QInterface::INCDECC() carry index does not depend
 on register start

---
 src/qinterface/arithmetic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index e80f5b6..0b65384 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -68,7 +68,7 @@ void QInterface::INCDECC(const bitCapInt& toAdd, bitLenInt start, bitLenInt leng
         }
         X(start + i);
         for (bitLenInt j = 0U; j < (length - i); ++j) {
-            const bitLenInt target = start + (((i + j + 1U) == length) ? carryIndex : ((i + j + 1U) % length));
+            const bitLenInt target = ((i + j + 1U) == length) ? carryIndex : (start + ((i + j + 1U) % length));
             MACInvert(
                 std::vector<bitLenInt>(bits.begin() + i, bits.begin() + i + j + 1U), ONE_CMPLX, ONE_CMPLX, target);
         }
-- 
2.43.0


From 9616d065fb3ff7c4dcdfea6cce3d43c4e7648788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 06/45] fix: QInterface::ADC() (and variants) for registers
 longer than 1 qubit

---
 src/qinterface/arithmetic.cpp | 44 ++++++++++-------------------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/src/qinterface/arithmetic.cpp b/src/qinterface/arithmetic.cpp
index 0b65384..1525579 100644
--- a/src/qinterface/arithmetic.cpp
+++ b/src/qinterface/arithmetic.cpp
@@ -333,15 +333,11 @@ void QInterface::ADC(bitLenInt input1, bitLenInt input2, bitLenInt output, bitLe
         return;
     }
 
-    FullAdd(input1, input2, carry, output);
+    // Each output bit holds the carry in to its place, before the addition.
+    Swap(carry, output);
 
-    if (length == 1U) {
-        return Swap(carry, output);
-    }
-
-    // Otherwise, length > 1.
     const bitLenInt end = length - 1U;
-    for (bitLenInt i = 1U; i < end; ++i) {
+    for (bitLenInt i = 0U; i < end; ++i) {
         FullAdd(input1 + i, input2 + i, output + i, output + i + 1U);
     }
     FullAdd(input1 + end, input2 + end, output + end, carry);
@@ -353,19 +349,13 @@ void QInterface::IADC(bitLenInt input1, bitLenInt input2, bitLenInt output, bitL
         return;
     }
 
-    if (length == 1U) {
-        Swap(carry, output);
-
-        return IFullAdd(input1, input2, carry, output);
-    }
-
-    // Otherwise, length > 1.
     const bitLenInt end = length - 1U;
     IFullAdd(input1 + end, input2 + end, output + end, carry);
-    for (bitLenInt i = (end - 1); i > 0U; i--) {
+    for (bitLenInt i = end; i-- > 0U;) {
         IFullAdd(input1 + i, input2 + i, output + i, output + i + 1U);
     }
-    IFullAdd(input1, input2, carry, output);
+
+    Swap(carry, output);
 }
 
 void QInterface::CADC(const std::vector<bitLenInt>& controls, bitLenInt input1, bitLenInt input2, bitLenInt output,
@@ -375,15 +365,11 @@ void QInterface::CADC(const std::vector<bitLenInt>& controls, bitLenInt input1,
         return;
     }
 
-    CFullAdd(controls, input1, input2, carry, output);
+    // Each output bit holds the carry in to its place, before the addition.
+    CSwap(controls, carry, output);
 
-    if (length == 1) {
-        return CSwap(controls, carry, output);
-    }
-
-    // Otherwise, length > 1.
     const bitLenInt end = length - 1U;
-    for (bitLenInt i = 1; i < end; ++i) {
+    for (bitLenInt i = 0U; i < end; ++i) {
         CFullAdd(controls, input1 + i, input2 + i, output + i, output + i + 1U);
     }
     CFullAdd(controls, input1 + end, input2 + end, output + end, carry);
@@ -396,19 +382,13 @@ void QInterface::CIADC(const std::vector<bitLenInt>& controls, bitLenInt input1,
         return;
     }
 
-    if (length == 1U) {
-        CSwap(controls, carry, output);
-
-        return CIFullAdd(controls, input1, input2, carry, output);
-    }
-
-    // Otherwise, length > 1.
     const bitLenInt end = length - 1U;
     CIFullAdd(controls, input1 + end, input2 + end, output + end, carry);
-    for (bitLenInt i = (end - 1); i > 0U; i--) {
+    for (bitLenInt i = end; i-- > 0U;) {
         CIFullAdd(controls, input1 + i, input2 + i, output + i, output + i + 1U);
     }
-    CIFullAdd(controls, input1, input2, carry, output);
+
+    CSwap(controls, carry, output);
 }
 
 } // namespace Qrack
-- 
2.43.0


From db675e394fe3be02f01279aa627fdd993d540500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 07/45] fix: FSim() at theta equal to pi is Z on both qubits

---
 include/qinterface.hpp  | 6 +++++-
 src/qengine/qengine.cpp | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 70ef79c..d60ec22 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2388,7 +2388,11 @@ public:
         MCPhase(controls, ONE_CMPLX, expIPhi, qubit2);
 
         if ((2 * abs(sinTheta)) <= (FP_NORM_EPSILON * PI_R1)) {
-            // ISWAP power is 0.
+            // ISWAP power is 0, or 2, (which is "Z" on both qubits).
+            if (cos(theta) < 0) {
+                Z(qubit1);
+                Z(qubit2);
+            }
             return;
         }
 
diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index c9a1d73..858f395 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -448,8 +448,8 @@ void QEngine::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit
     }
 
     const real1 sinTheta = (real1)sin(theta);
-    if ((sinTheta * sinTheta) > FP_NORM_EPSILON) {
-        const real1 cosTheta = (real1)cos(theta);
+    const real1 cosTheta = (real1)cos(theta);
+    if (((sinTheta * sinTheta) > FP_NORM_EPSILON) || (cosTheta < ZERO_R1)) {
         const complex fSimSwap[4U]{ complex(cosTheta, ZERO_R1), complex(ZERO_R1, -sinTheta),
             complex(ZERO_R1, -sinTheta), complex(cosTheta, ZERO_R1) };
         const bitCapIntOcl qPowersSorted[2U]{ pow2Ocl(qubit1), pow2Ocl(qubit2) };
-- 
2.43.0


From 709a95e36d11395b6e5c78a17bfc94f522e4e7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 08/45] fix: Add or subtract with carry, when carry in wraps
 the addend

---
 include/common/qrack_functions.hpp |  5 +++++
 include/qinterface.hpp             |  8 ++++++++
 src/qalu.cpp                       | 24 ++++++++++++++++++++++++
 src/qunit.cpp                      |  8 ++++++++
 4 files changed, 45 insertions(+)

diff --git a/include/common/qrack_functions.hpp b/include/common/qrack_functions.hpp
index dac76b7..c98b261 100644
--- a/include/common/qrack_functions.hpp
+++ b/include/common/qrack_functions.hpp
@@ -142,6 +142,11 @@ inline bitCapInt pow2Mask(const bitLenInt& p)
     return toRet;
 }
 inline bitCapIntOcl pow2MaskOcl(const bitLenInt& p) { return ((bitCapIntOcl)1U << p) - 1U; }
+/// Is "value" a multiple of the range of a register of "length" bits?
+inline bool isRegisterWrap(const bitCapInt& value, const bitLenInt& length)
+{
+    return bi_compare_0(value & pow2Mask(length)) == 0;
+}
 inline bitCapInt bitSlice(const bitLenInt& bit, const bitCapInt& source) { return (ONE_BCI << bit) & source; }
 inline bitCapIntOcl bitSliceOcl(const bitLenInt& bit, const bitCapIntOcl& source)
 {
diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index d60ec22..17418cc 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2145,6 +2145,10 @@ public:
     {
         const bool hasCarry = M(carryIndex);
         if (hasCarry) {
+            // (A carry in then becomes the carry out.)
+            if (isRegisterWrap(toAdd + 1U, length)) {
+                return;
+            }
             X(carryIndex);
             INCDECC(toAdd + 1U, start, length, carryIndex);
         } else {
@@ -2158,6 +2162,10 @@ public:
         const bool hasCarry = M(carryIndex);
         bitCapInt invToSub = pow2(length) - toSub;
         if (hasCarry) {
+            // (A carry in then becomes the carry out.)
+            if (isRegisterWrap(invToSub, length)) {
+                return;
+            }
             X(carryIndex);
         } else {
             --invToSub;
diff --git a/src/qalu.cpp b/src/qalu.cpp
index 0f825a3..c8770d9 100644
--- a/src/qalu.cpp
+++ b/src/qalu.cpp
@@ -51,6 +51,10 @@ void QAlu::INCC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitLe
 
     const bool hasCarry = M(carryIndex);
     if (hasCarry) {
+        // (A carry in then becomes the carry out.)
+        if (isRegisterWrap(toAdd + 1U, length)) {
+            return;
+        }
         X(carryIndex);
         INCDECC(toAdd + 1U, start, length, carryIndex);
     } else {
@@ -64,6 +68,10 @@ void QAlu::DECC(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitLe
     const bool hasCarry = M(carryIndex);
     bitCapInt invToSub = pow2(length) - toSub;
     if (hasCarry) {
+        // (A carry in then becomes the carry out.)
+        if (isRegisterWrap(invToSub, length)) {
+            return;
+        }
         X(carryIndex);
     } else {
         --invToSub;
@@ -83,6 +91,10 @@ void QAlu::INCSC(
 {
     const bool hasCarry = M(carryIndex);
     if (hasCarry) {
+        // (A carry in then becomes the carry out.)
+        if (isRegisterWrap(toAdd + 1U, length)) {
+            return;
+        }
         X(carryIndex);
         INCDECSC(toAdd + 1U, start, length, overflowIndex, carryIndex);
     } else {
@@ -101,6 +113,10 @@ void QAlu::DECSC(
     const bool hasCarry = M(carryIndex);
     bitCapInt invToSub = pow2(length) - toSub;
     if (hasCarry) {
+        // (A carry in then becomes the carry out.)
+        if (isRegisterWrap(invToSub, length)) {
+            return;
+        }
         X(carryIndex);
     } else {
         --invToSub;
@@ -119,6 +135,10 @@ void QAlu::INCSC(const bitCapInt& toAdd, bitLenInt start, bitLenInt length, bitL
 {
     const bool hasCarry = M(carryIndex);
     if (hasCarry) {
+        // (A carry in then becomes the carry out.)
+        if (isRegisterWrap(toAdd + 1U, length)) {
+            return;
+        }
         X(carryIndex);
         INCDECSC(toAdd + 1U, start, length, carryIndex);
     } else {
@@ -137,6 +157,10 @@ void QAlu::DECSC(const bitCapInt& toSub, bitLenInt start, bitLenInt length, bitL
     const bool hasCarry = M(carryIndex);
     bitCapInt invToSub = pow2(length) - toSub;
     if (hasCarry) {
+        // (A carry in then becomes the carry out.)
+        if (isRegisterWrap(invToSub, length)) {
+            return;
+        }
         X(carryIndex);
     } else {
         --invToSub;
diff --git a/src/qunit.cpp b/src/qunit.cpp
index a77d95f..51b7e72 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -3104,6 +3104,10 @@ void QUnit::INC(const bitCapInt& toMod, bitLenInt start, bitLenInt length)
 void QUnit::INCC(const bitCapInt& toAdd, bitLenInt inOutStart, bitLenInt length, bitLenInt carryIndex)
 {
     if (M(carryIndex)) {
+        // (A carry in then becomes the carry out.)
+        if (isRegisterWrap(toAdd + 1U, length)) {
+            return;
+        }
         X(carryIndex);
         INT(toAdd + 1, inOutStart, length, carryIndex, true);
     } else {
@@ -3116,6 +3120,10 @@ void QUnit::DECC(const bitCapInt& toSub, bitLenInt inOutStart, bitLenInt length,
 {
     bitCapInt invToSub = pow2(length) - toSub;
     if (M(carryIndex)) {
+        // (A carry in then becomes the carry out.)
+        if (isRegisterWrap(invToSub, length)) {
+            return;
+        }
         X(carryIndex);
     } else {
         --invToSub;
-- 
2.43.0


From 3f93550653ab44977e0c17ac8280fb9baf70179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 09/45] fix: QInterface::FSim() default mixes by theta, not by
 twice theta

---
 include/qinterface.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 17418cc..236f938 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2420,7 +2420,7 @@ public:
         H(qubit1);
         H(qubit2);
         CNOT(qubit1, qubit2);
-        RZ(2 * theta, qubit2);
+        RZ(theta, qubit2);
         CNOT(qubit1, qubit2);
         H(qubit2);
         H(qubit1);
@@ -2431,7 +2431,7 @@ public:
         H(qubit1);
         H(qubit2);
         CNOT(qubit1, qubit2);
-        RZ(2 * theta, qubit2);
+        RZ(theta, qubit2);
         CNOT(qubit1, qubit2);
         H(qubit2);
         H(qubit1);
-- 
2.43.0


From 94800a697c8578217b175b165cd644a83f2c1c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 10/45] fix: log2() of wide integers does not truncate to 64
 bits

---
 include/common/qrack_functions.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/common/qrack_functions.hpp b/include/common/qrack_functions.hpp
index c98b261..7c40d72 100644
--- a/include/common/qrack_functions.hpp
+++ b/include/common/qrack_functions.hpp
@@ -129,7 +129,17 @@ inline bitLenInt popCountOcl(bitCapIntOcl n)
 }
 
 #if (QBCAPPOW < 7) || ((QBCAPPOW < 8) && defined(__SIZEOF_INT128__))
-inline int bi_log2(const bitCapInt& n) { return log2Ocl(n); }
+inline int bi_log2(const bitCapInt& n)
+{
+    // "bitCapInt" can be wider than "bitCapIntOcl," so we can't use log2Ocl().
+    int pow = 0;
+    bitCapInt p = n >> 1U;
+    while (p) {
+        p >>= 1U;
+        ++pow;
+    }
+    return pow;
+}
 #endif
 inline bitLenInt log2(bitCapInt n) { return (bitLenInt)bi_log2(n); }
 
-- 
2.43.0


From d8d2df39c7bc0488b54f01723082352c6ab6a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:07 +0000
Subject: [PATCH 11/45] fix: popCountOcl() counts all 64 bits

---
 include/common/qrack_functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/qrack_functions.hpp b/include/common/qrack_functions.hpp
index 7c40d72..7f95756 100644
--- a/include/common/qrack_functions.hpp
+++ b/include/common/qrack_functions.hpp
@@ -118,7 +118,7 @@ inline bitLenInt popCountOcl(bitCapIntOcl n)
 #if CPP_STD >= 20
     return (bitLenInt)std::popcount(n);
 #elif (defined(__GNUC__) || defined(__clang__)) && !TARGET_OS_IPHONE && !TARGET_IPHONE_SIMULATOR
-    return __builtin_popcount(n);
+    return __builtin_popcountll(n);
 #else
     bitLenInt popCount;
     for (popCount = 0U; n; ++popCount) {
-- 
2.43.0


From 67e6ac8d7bd5fddcb7116d9aa6f63e17b7ed6f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:03 +0000
Subject: [PATCH 12/45] fix: Default CProb() and ACProb() are probabilities
 conditional on the control

---
 include/qinterface.hpp  | 26 ++++++++++++++++++--------
 src/qengine/qengine.cpp | 13 +------------
 2 files changed, 19 insertions(+), 20 deletions(-)

diff --git a/include/qinterface.hpp b/include/qinterface.hpp
index 236f938..893cbb8 100644
--- a/include/qinterface.hpp
+++ b/include/qinterface.hpp
@@ -2470,11 +2470,16 @@ public:
      */
     virtual real1_f CProb(bitLenInt control, bitLenInt target)
     {
-        AntiCNOT(control, target);
-        const real1_f prob = Prob(target);
-        AntiCNOT(control, target);
+        const real1_f controlProb = Prob(control);
+        if (controlProb <= FP_NORM_EPSILON_F) {
+            return ZERO_R1_F;
+        }
+        const real1_f targetProb = Prob(target);
+        CNOT(control, target);
+        const real1_f xorProb = Prob(target);
+        CNOT(control, target);
 
-        return prob;
+        return clampProb((targetProb + controlProb - xorProb) / (2 * controlProb));
     }
     /**
      * Direct measure of bit probability to be in |1> state, if control bit is |0>.
@@ -2483,11 +2488,16 @@ public:
      */
     virtual real1_f ACProb(bitLenInt control, bitLenInt target)
     {
-        CNOT(control, target);
-        const real1_f prob = Prob(target);
-        CNOT(control, target);
+        const real1_f controlProb = ONE_R1_F - Prob(control);
+        if (controlProb <= FP_NORM_EPSILON_F) {
+            return ZERO_R1_F;
+        }
+        const real1_f targetProb = Prob(target);
+        AntiCNOT(control, target);
+        const real1_f xorProb = Prob(target);
+        AntiCNOT(control, target);
 
-        return prob;
+        return clampProb((targetProb + controlProb - xorProb) / (2 * controlProb));
     }
 
     /**
diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 858f395..6bc7bbf 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -462,18 +462,7 @@ void QEngine::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit
 
 real1_f QEngine::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenInt target)
 {
-    if (controlState) {
-        AntiCNOT(control, target);
-    } else {
-        CNOT(control, target);
-    }
-    const real1_f prob = Prob(target);
-    if (controlState) {
-        AntiCNOT(control, target);
-    } else {
-        CNOT(control, target);
-    }
-    return prob;
+    return controlState ? QInterface::CProb(control, target) : QInterface::ACProb(control, target);
 }
 
 void QEngine::ProbRegAll(bitLenInt start, bitLenInt length, real1* probsArray)
-- 
2.43.0


From 6a3b1c7b0b61bb528fe9a48a33d27dfc0ca392be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:03 +0000
Subject: [PATCH 13/45] fix: QInterface::ProbReg() addresses the permutation at
 its register start

---
 src/qinterface/qinterface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qinterface/qinterface.cpp b/src/qinterface/qinterface.cpp
index 70a6719..71a0541 100644
--- a/src/qinterface/qinterface.cpp
+++ b/src/qinterface/qinterface.cpp
@@ -263,11 +263,11 @@ real1_f QInterface::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt&
 {
     const bitCapIntOcl startMask = pow2Ocl(start) - 1U;
     const bitCapIntOcl maxLcv = (bitCapIntOcl)(maxQPower >> length);
-    const bitCapIntOcl p = (bitCapIntOcl)permutation;
+    const bitCapIntOcl p = (bitCapIntOcl)(permutation << start);
     real1 prob = ZERO_R1;
     for (bitCapIntOcl lcv = 0U; lcv < maxLcv; ++lcv) {
         bitCapIntOcl i = lcv & startMask;
-        i |= ((lcv ^ i) | p) << length;
+        i |= ((lcv ^ i) << length) | p;
         prob += ProbAll(i);
     }
 
-- 
2.43.0


From 72c04e7f93a3ad3562418ab1ac0a351590c6d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 14/45] fix: QUnitClifford controlled gates with separable
 control act on mapped target index

---
 include/qunitclifford.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/qunitclifford.hpp b/include/qunitclifford.hpp
index cc260e5..f138974 100644
--- a/include/qunitclifford.hpp
+++ b/include/qunitclifford.hpp
@@ -106,12 +106,12 @@ protected:
         const real1_f p = Prob(control);
         if (p < (ONE_R1_F / 4)) {
             if (isAnti) {
-                fn(shards[target].unit, target, mtrx);
+                fn(shards[target].unit, shards[target].mapped, mtrx);
             }
             return;
         } else if (p > (3 * ONE_R1_F / 4)) {
             if (!isAnti) {
-                fn(shards[target].unit, target, mtrx);
+                fn(shards[target].unit, shards[target].mapped, mtrx);
             }
             return;
         }
-- 
2.43.0


From 24d83788aa1507aa23081905f98dcc89d486293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 15/45] fix: QUnitClifford::ProbMask() is the product over
 separable units

---
 src/qunitclifford.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 3cc79bd..059f4f4 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -170,12 +170,12 @@ real1_f QUnitClifford::ProbMask(const bitCapInt& mask, const bitCapInt& perm)
         }
     }
 
-    real1 expectation = ZERO_R1;
+    real1 prob = ONE_R1;
     for (const auto& p : maskMap) {
-        expectation += (real1)p.first->ProbMask(p.second, permMap[p.first]);
+        prob *= (real1)p.first->ProbMask(p.second, permMap[p.first]);
     }
 
-    return (real1_f)expectation;
+    return (real1_f)prob;
 }
 
 void QUnitClifford::SetPermutation(const bitCapInt& perm, const complex& phaseFac)
-- 
2.43.0


From 9fec8ca38b8b86bb8d7238c9a6cb4a1d83cddac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:58 +0000
Subject: [PATCH 16/45] fix: QUnitClifford bits expectation adds its offset
 only once

---
 src/qunitclifford.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qunitclifford.cpp b/src/qunitclifford.cpp
index 059f4f4..50dbaff 100644
--- a/src/qunitclifford.cpp
+++ b/src/qunitclifford.cpp
@@ -65,8 +65,11 @@ real1_f QUnitClifford::ExpVarBitsFactorized(
 
     real1_f expectation = ZERO_R1;
     if (isExp) {
+        // The offset applies once, to the sum over units.
+        bitCapInt unitOffset = offset;
         for (const auto& p : qubitMap) {
-            expectation += p.first->ExpectationBitsFactorized(p.second, permMap[p.first], offset);
+            expectation += p.first->ExpectationBitsFactorized(p.second, permMap[p.first], unitOffset);
+            unitOffset = ZERO_BCI;
         }
     } else {
         for (const auto& p : qubitMap) {
-- 
2.43.0


From dea99af476735fdf6490976b6183fc8020bbeba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:02 +0000
Subject: [PATCH 17/45] fix: QStabilizer Decompose() and Dispose() remove the
 generators of the range, in any row order

---
 include/qstabilizer.hpp |  3 ++
 src/qstabilizer.cpp     | 89 +++++++++++++++++++++--------------------
 2 files changed, 49 insertions(+), 43 deletions(-)

diff --git a/include/qstabilizer.hpp b/include/qstabilizer.hpp
index 7164e8c..c83b593 100644
--- a/include/qstabilizer.hpp
+++ b/include/qstabilizer.hpp
@@ -242,6 +242,9 @@ protected:
     real1_f getVariance(const real1_f& mean, const real1_f& nrm, const std::vector<bitCapInt>& bitPowers,
         const std::vector<real1_f>& weights);
 
+    /// If the range of qubits is separable, put its generators (alone) into the rows of the range.
+    bool IsolateRange(const bitLenInt start, const bitLenInt length);
+
     void DecomposeDispose(const bitLenInt start, const bitLenInt length, QStabilizerPtr toCopy);
 
     real1_f ApproxCompareHelper(
diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index df74a39..eeb36fc 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -1627,55 +1627,60 @@ bool QStabilizer::CanDecomposeDispose(const bitLenInt start, const bitLenInt len
 
     Finish();
 
-    // We want to have the maximum number of 0 cross terms possible.
-    gaussian();
+    return IsolateRange(start, length);
+}
 
+bool QStabilizer::IsolateRange(const bitLenInt start, const bitLenInt length)
+{
+    const bitLenInt n = qubitCount;
+    const bitLenInt maxLcv = n << 1U;
     const bitLenInt end = start + length;
+    bitLenInt i = n;
 
-    for (bitLenInt i = 0U; i < start; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = start; j < end; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
+    const auto reduceColumn = [&](std::vector<BoolVector>& m, const bitLenInt& j) {
+        bitLenInt k = i;
+        while ((k < maxLcv) && !m[k][j]) {
+            ++k;
+        }
+        if (k >= maxLcv) {
+            return;
+        }
+        rowswap(i, k);
+        rowswap(i - n, k - n);
+        for (bitLenInt k2 = n; k2 < maxLcv; ++k2) {
+            if ((k2 != i) && m[k2][j]) {
+                rowmult(k2, i);
+                rowmult(i - n, k2 - n);
             }
         }
+        ++i;
+    };
+
+    // Generators with support on the range come first. (If the range is separable, their count is "length.")
+    for (bitLenInt j = start; j < end; ++j) {
+        reduceColumn(x, j);
+        reduceColumn(z, j);
     }
 
-    for (bitLenInt i = end; i < qubitCount; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = start; j < end; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
-            }
-        }
+    if ((i - n) != length) {
+        return false;
     }
 
-    for (bitLenInt i = start; i < end; ++i) {
-        const bitLenInt i2 = i + qubitCount;
-        const BoolVector& xi = x[i];
-        const BoolVector& zi = z[i];
-        const BoolVector& xi2 = x[i2];
-        const BoolVector& zi2 = z[i2];
-        for (bitLenInt j = 0U; j < start; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
-            }
-        }
-        for (bitLenInt j = end; j < qubitCount; ++j) {
-            if (xi[j] || zi[j] || xi2[j] || zi2[j]) {
-                return false;
-            }
+    // Clear the support of these outside of the range, with the rest of the generators.
+    for (bitLenInt j = 0U; j < n; ++j) {
+        if ((j < start) || (j >= end)) {
+            reduceColumn(x, j);
+            reduceColumn(z, j);
         }
     }
 
+    // Move the generators (and "destabilizers") of the range into the rows of the range.
+    for (bitLenInt row = 0U; row <= n; row += n) {
+        std::rotate(x.begin() + row, x.begin() + row + length, x.begin() + row + end);
+        std::rotate(z.begin() + row, z.begin() + row + length, z.begin() + row + end);
+        std::rotate(r.begin() + row, r.begin() + row + length, r.begin() + row + end);
+    }
+
     return true;
 }
 
@@ -1696,12 +1701,10 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
 
     const AmplitudeEntry ampEntry = (randGlobalPhase || dest) ? AmplitudeEntry(ZERO_BCI, ONE_CMPLX) : GetAnyAmplitude();
 
-    // We want to have the maximum number of 0 cross terms possible.
-    gaussian();
-
-    // We assume that the bits to "decompose" the representation of already have 0 cross-terms in their generators
-    // outside inter- "dest" cross terms. (Usually, we're "decomposing" the representation of a just-measured single
-    // qubit.)
+    // We assume that the bits to "decompose" are separable, so they have 0 cross-terms in their generators outside
+    // inter- "dest" cross terms, after row reduction. (Usually, we're "decomposing" the representation of a
+    // just-measured single qubit.)
+    IsolateRange(start, length);
 
     const bitCapInt oMaxQMask = pow2Mask(qubitCount);
     const bitLenInt end = start + length;
-- 
2.43.0


From f61925831b60fefcbf8652dd101ed074a26718db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 18/45] fix: QUnit::ForceM() on a separable qubit keeps the
 phase of the amplitude, if global phase is not random

---
 src/qunit.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 51b7e72..7ea850e 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -1413,10 +1413,20 @@ bool QUnit::ForceM(bitLenInt qubit, bool res, bool doForce, bool doApply)
 
     logFidelity = log(GetUnitaryFidelity());
 
+    complex phaseFac = GetNonunitaryPhase();
+    if (!randGlobalPhase && (shard.GetQubitCount() == 1U)) {
+        // Collapse of a separable qubit keeps the phase of its amplitude.
+        const complex amp = shard.unit ? shard.unit->GetAmplitude(result ? ONE_BCI : ZERO_BCI)
+                                       : (result ? shard.amp1 : shard.amp0);
+        if (norm(amp) > ZERO_R1) {
+            phaseFac = amp / (real1)abs(amp);
+        }
+    }
+
     shard.isProbDirty = false;
     shard.isPhaseDirty = false;
-    shard.amp0 = result ? ZERO_CMPLX : GetNonunitaryPhase();
-    shard.amp1 = result ? GetNonunitaryPhase() : ZERO_CMPLX;
+    shard.amp0 = result ? ZERO_CMPLX : phaseFac;
+    shard.amp1 = result ? phaseFac : ZERO_CMPLX;
 
     if (shard.GetQubitCount() == 1U) {
         shard.unit = nullptr;
-- 
2.43.0


From 989f51e52f0823cf139b2f4573ace8312072945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:34 +0000
Subject: [PATCH 19/45] fix: QStabilizer separability checks and Decompose()
 keep the (nonrandom) global phase

---
 src/qstabilizer.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/qstabilizer.cpp b/src/qstabilizer.cpp
index eeb36fc..d5ff43d 100644
--- a/src/qstabilizer.cpp
+++ b/src/qstabilizer.cpp
@@ -1627,7 +1627,16 @@ bool QStabilizer::CanDecomposeDispose(const bitLenInt start, const bitLenInt len
 
     Finish();
 
-    return IsolateRange(start, length);
+    if (randGlobalPhase) {
+        return IsolateRange(start, length);
+    }
+
+    // The order of rows picks the amplitude that the phase offset is relative to.
+    const AmplitudeEntry ampEntry = GetAnyAmplitude();
+    const bool isSeparable = IsolateRange(start, length);
+    SetPhaseOffset(phaseOffset + std::arg(ampEntry.amplitude) - std::arg(GetAmplitude(ampEntry.permutation)));
+
+    return isSeparable;
 }
 
 bool QStabilizer::IsolateRange(const bitLenInt start, const bitLenInt length)
@@ -1699,7 +1708,7 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
     }
     Finish();
 
-    const AmplitudeEntry ampEntry = (randGlobalPhase || dest) ? AmplitudeEntry(ZERO_BCI, ONE_CMPLX) : GetAnyAmplitude();
+    const AmplitudeEntry ampEntry = randGlobalPhase ? AmplitudeEntry(ZERO_BCI, ONE_CMPLX) : GetAnyAmplitude();
 
     // We assume that the bits to "decompose" are separable, so they have 0 cross-terms in their generators outside
     // inter- "dest" cross terms, after row reduction. (Usually, we're "decomposing" the representation of a
@@ -1751,15 +1760,18 @@ void QStabilizer::DecomposeDispose(const bitLenInt start, const bitLenInt length
         zi.erase(zi.begin() + start, zi.begin() + end);
     }
 
-    if (randGlobalPhase || dest) {
+    if (randGlobalPhase) {
         return;
     }
 
     const bitCapInt startMask = pow2Mask(start);
     const bitCapInt endMask = oMaxQMask ^ pow2Mask(start + length);
     const bitCapInt nPerm = (ampEntry.permutation & startMask) | ((ampEntry.permutation & endMask) >> length);
+    const real1_f destArg = dest
+        ? (real1_f)std::arg(dest->GetAmplitude((ampEntry.permutation >> start) & pow2Mask(length)))
+        : ZERO_R1_F;
 
-    SetPhaseOffset(phaseOffset + std::arg(ampEntry.amplitude) - std::arg(GetAmplitude(nPerm)));
+    SetPhaseOffset(phaseOffset + std::arg(ampEntry.amplitude) - std::arg(GetAmplitude(nPerm)) - destArg);
 }
 
 real1_f QStabilizer::ApproxCompareHelper(QStabilizerPtr toCompare, real1_f error_tol, bool isDiscrete)
-- 
2.43.0


From 7e3c783aa6cef3a0b53a2d2fb5dca4005df0d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 20/45] fix: BigInteger operator+ and operator- include both
 top words, and every carry or borrow

---
 include/common/big_integer.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/common/big_integer.hpp b/include/common/big_integer.hpp
index 2aee61f..ede3114 100644
--- a/include/common/big_integer.hpp
+++ b/include/common/big_integer.hpp
@@ -165,12 +165,12 @@ inline int bi_compare_1(const BigInteger& left)
 inline BigInteger operator+(const BigInteger& left, const BigInteger& right)
 {
     BigInteger result;
-    result.bits[0U] = 0U;
-    for (int i = 0; i < BIG_INTEGER_MAX_WORD_INDEX; ++i) {
-        result.bits[i] += left.bits[i] + right.bits[i];
-        result.bits[i + 1] = (result.bits[i] < left.bits[i]) ? 1 : 0;
+    BIG_INTEGER_WORD carry = 0U;
+    for (int i = 0; i < BIG_INTEGER_WORD_SIZE; ++i) {
+        const BIG_INTEGER_WORD sum = left.bits[i] + right.bits[i];
+        result.bits[i] = sum + carry;
+        carry = ((sum < left.bits[i]) || (result.bits[i] < sum)) ? 1U : 0U;
     }
-    result.bits[BIG_INTEGER_MAX_WORD_INDEX] += right.bits[BIG_INTEGER_MAX_WORD_INDEX];
     return result;
 }
 
@@ -190,12 +190,12 @@ inline void bi_add_ip(BigInteger* left, const BigInteger& right)
 inline BigInteger operator-(const BigInteger& left, const BigInteger& right)
 {
     BigInteger result;
-    result.bits[0U] = 0U;
-    for (int i = 0; i < BIG_INTEGER_MAX_WORD_INDEX; ++i) {
-        result.bits[i] += left.bits[i] - right.bits[i];
-        result.bits[i + 1] = (result.bits[i] > left.bits[i]) ? -1 : 0;
+    BIG_INTEGER_WORD borrow = 0U;
+    for (int i = 0; i < BIG_INTEGER_WORD_SIZE; ++i) {
+        const BIG_INTEGER_WORD difference = left.bits[i] - right.bits[i];
+        result.bits[i] = difference - borrow;
+        borrow = ((difference > left.bits[i]) || (result.bits[i] > difference)) ? 1U : 0U;
     }
-    result.bits[BIG_INTEGER_MAX_WORD_INDEX] -= right.bits[BIG_INTEGER_MAX_WORD_INDEX];
     return result;
 }
 
-- 
2.43.0


From 320abecf7286f8dc48aa468d1abf5072fda0b82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 21/45] fix: bi_decrement() borrows from the next word

---
 include/common/big_integer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/big_integer.hpp b/include/common/big_integer.hpp
index ede3114..aefba1a 100644
--- a/include/common/big_integer.hpp
+++ b/include/common/big_integer.hpp
@@ -238,7 +238,7 @@ inline void bi_decrement(BigInteger* pBigInt, const BIG_INTEGER_WORD& value)
         return;
     }
 
-    for (int i = 0; i < BIG_INTEGER_WORD_SIZE; i++) {
+    for (int i = 1; i < BIG_INTEGER_WORD_SIZE; i++) {
         temp = pBigInt->bits[i]--;
         if (temp >= pBigInt->bits[i]) {
             break;
-- 
2.43.0


From f970644a36b26863e191a27a32a0acd302d61611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 22/45] fix: BigInteger in-place word shifts do not overlap,
 and stay in bounds

---
 include/common/big_integer.hpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/common/big_integer.hpp b/include/common/big_integer.hpp
index aefba1a..88c6e7e 100644
--- a/include/common/big_integer.hpp
+++ b/include/common/big_integer.hpp
@@ -272,17 +272,12 @@ inline BigInteger bi_lshift_word(const BigInteger& left, BIG_INTEGER_WORD rightM
 
 inline void bi_lshift_word_ip(BigInteger* left, BIG_INTEGER_WORD rightMult)
 {
-    rightMult &= 63U;
-
     if (!rightMult) {
         return;
     }
 
-    for (int i = rightMult; i < BIG_INTEGER_WORD_SIZE; ++i) {
-        left->bits[i] = left->bits[i - rightMult];
-    }
-    for (BIG_INTEGER_WORD i = 0U; i < rightMult; ++i) {
-        left->bits[i] = 0U;
+    for (int i = BIG_INTEGER_MAX_WORD_INDEX; i >= 0; --i) {
+        left->bits[i] = ((BIG_INTEGER_WORD)i < rightMult) ? (BIG_INTEGER_WORD)0U : left->bits[i - (int)rightMult];
     }
 }
 
@@ -306,11 +301,10 @@ inline void bi_rshift_word_ip(BigInteger* left, const BIG_INTEGER_WORD& rightMul
         return;
     }
 
-    for (int i = rightMult; i < BIG_INTEGER_WORD_SIZE; ++i) {
-        left->bits[i - rightMult] = left->bits[i];
-    }
-    for (BIG_INTEGER_WORD i = 0U; i < rightMult; ++i) {
-        left->bits[BIG_INTEGER_MAX_WORD_INDEX - i] = 0U;
+    for (int i = 0; i < BIG_INTEGER_WORD_SIZE; ++i) {
+        left->bits[i] = ((BIG_INTEGER_WORD)(BIG_INTEGER_MAX_WORD_INDEX - i) < rightMult)
+            ? (BIG_INTEGER_WORD)0U
+            : left->bits[i + (int)rightMult];
     }
 }
 
-- 
2.43.0


From f37b5a6b8c2e66704a546cbaac91d133f25595b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 23/45] fix: BigInteger operator* with a 0 operand or overflow
 is the product modulo the width

---
 src/common/big_integer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/big_integer.cpp b/src/common/big_integer.cpp
index 2155e6b..6d2a242 100644
--- a/src/common/big_integer.cpp
+++ b/src/common/big_integer.cpp
@@ -62,12 +62,12 @@ BigInteger operator*(const BigInteger& left, const BigInteger& right)
 {
     int rightLog2 = bi_log2(right);
 
-    if (rightLog2 == 0) {
+    if ((rightLog2 == 0) && right.bits[0]) {
         // right == 1
         return left;
     }
 
-    int maxI = BIG_INTEGER_BITS - rightLog2;
+    const int maxI = BIG_INTEGER_BITS;
 
     BigInteger result;
     bi_set_0(&result);
-- 
2.43.0


From 8c9a715d09df3504e6bea9c8cfe00fa0ac6dc344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 24/45] fix: bi_div_mod() does not subtract more than the
 remainder, when divisor is not a power of 2

---
 src/common/big_integer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/big_integer.cpp b/src/common/big_integer.cpp
index 6d2a242..a8b1867 100644
--- a/src/common/big_integer.cpp
+++ b/src/common/big_integer.cpp
@@ -280,7 +280,7 @@ void bi_div_mod(const BigInteger& left, const BigInteger& right, BigInteger* quo
     BigInteger bi1 = 1U;
     int rightLog2 = bi_log2(right);
     BigInteger rightTest = bi1 << rightLog2;
-    if (bi_compare(right, rightTest) < 0) {
+    if (bi_compare(right, rightTest) > 0) {
         ++rightLog2;
     }
     BigInteger rem;
-- 
2.43.0


From 8ab1189ba4fdef91813e6a1325122796c0d522e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:35 +0000
Subject: [PATCH 25/45] fix: Printing a nonzero bitCapInt terminates

---
 src/common/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/functions.cpp b/src/common/functions.cpp
index b5d28b1..9bb5c26 100644
--- a/src/common/functions.cpp
+++ b/src/common/functions.cpp
@@ -287,7 +287,7 @@ std::ostream& operator<<(std::ostream& os, const bitCapInt& b)
     // Calculate the base-10 digits, from lowest to highest.
     std::vector<std::string> digits;
     bitCapInt _b = b;
-    while (bi_compare_0(b) != 0) {
+    while (bi_compare_0(_b) != 0) {
         bitCapInt quo;
 #ifdef __SIZEOF_INT128__
         uint64_t rem;
-- 
2.43.0


From 1365d355412b9a9547871bf3bc801aa8b7ed5a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 26/45] fix: exp2x2() and log2x2() pair each eigenvalue with
 its eigenvector

---
 src/common/functions.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/functions.cpp b/src/common/functions.cpp
index 9bb5c26..c3e083d 100644
--- a/src/common/functions.cpp
+++ b/src/common/functions.cpp
@@ -148,10 +148,11 @@ void _expLog2x2(const complex* matrix2x2, complex* outMatrix2x2, bool isExp)
         jacobian[1U] = matrix2x2[1U];
         jacobian[3U] = matrix2x2[3U] - eigenvalue2;
 
-        outMatrix2x2[0U] = eigenvalue1;
+        // (A column of "A - x1 * I" is an eigenvector for x2, and a column of "A - x2 * I" is an eigenvector for x1.)
+        outMatrix2x2[0U] = eigenvalue2;
         outMatrix2x2[1U] = ZERO_CMPLX;
         outMatrix2x2[2U] = ZERO_CMPLX;
-        outMatrix2x2[3U] = eigenvalue2;
+        outMatrix2x2[3U] = eigenvalue1;
 
         real1 nrm = (real1)std::sqrt((real1_s)(norm(jacobian[0U]) + norm(jacobian[2U])));
         jacobian[0U] /= nrm;
-- 
2.43.0


From 41909aa95718b921c14a73e9c5299a6ffe94ab8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:36 +0000
Subject: [PATCH 27/45] fix: TimeEvolve() with a uniformly controlled
 Hamiltonian term applies e^(-i*H*t)

---
 src/qinterface/gates.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qinterface/gates.cpp b/src/qinterface/gates.cpp
index 7065399..cfda781 100644
--- a/src/qinterface/gates.cpp
+++ b/src/qinterface/gates.cpp
@@ -441,10 +441,12 @@ void QInterface::TimeEvolve(Hamiltonian h, real1_f timeDiff_f)
         if (op->uniform) {
             maxJ *= pow2Ocl(op->controls.size());
         }
+        // e^(-i * H * t)
+        const complex negITime(ZERO_R1, -timeDiff);
         std::unique_ptr<complex[]> mtrx(new complex[maxJ]);
 
         for (bitCapIntOcl j = 0U; j < maxJ; ++j) {
-            mtrx[j] = opMtrx[j] * (-timeDiff);
+            mtrx[j] = negITime * opMtrx[j];
         }
 
         if (op->toggles.size()) {
@@ -462,9 +464,8 @@ void QInterface::TimeEvolve(Hamiltonian h, real1_f timeDiff_f)
             }
             UniformlyControlledSingleBit(op->controls, op->targetBit, expMtrx.get());
         } else {
-            complex timesI[4U]{ I_CMPLX * mtrx[0U], I_CMPLX * mtrx[1U], I_CMPLX * mtrx[2U], I_CMPLX * mtrx[3U] };
             complex toApply[4U];
-            exp2x2(timesI, toApply);
+            exp2x2(mtrx.get(), toApply);
             if (op->controls.size() == 0U) {
                 Mtrx(toApply, op->targetBit);
             } else if (op->anti) {
-- 
2.43.0


From 5b4e466c481a9e04f8746a65ceac0ba523bd3b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 28/45] fix: QUnit rounding threshold is initialised

---
 src/qunit.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qunit.cpp b/src/qunit.cpp
index 7ea850e..4fb218b 100644
--- a/src/qunit.cpp
+++ b/src/qunit.cpp
@@ -88,6 +88,7 @@ QUnit::QUnit(std::vector<QInterfaceEngine> eng, bitLenInt qBitCount, const bitCa
     , isSinglePage(false)
     , thresholdQubits(qubitThreshold)
     , separabilityThreshold(sep_thresh)
+    , roundingThreshold(FP_NORM_EPSILON_F)
     , logFidelity(0.0)
     , devID(deviceID)
     , phaseFactor(phaseFac)
-- 
2.43.0


From 630cc364733485a9d717f86cb8c1eb7d2878ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 29/45] fix: UniformlyControlledSingleBit() scales up a norm
 below 1 before recording 1

---
 src/qengine/state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 9c48ab4..a07caed 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -789,7 +789,7 @@ void QEngineCPU::UniformlyControlledSingleBit(const std::vector<bitLenInt>& cont
     const real1 nrm = (runningNorm > ZERO_R1) ? ONE_R1 / (real1)sqrt(runningNorm) : ONE_R1;
 
     ParallelFunc fn;
-    if (doNormalize && ((ONE_R1 - nrm) > FP_NORM_EPSILON)) {
+    if (doNormalize && (abs(ONE_R1 - nrm) > FP_NORM_EPSILON)) {
         fn = [&](const bitCapIntOcl& lcv, const unsigned& cpu) {
             bitCapIntOcl offset = 0U;
             for (size_t j = 0U; j < controls.size(); ++j) {
@@ -859,7 +859,7 @@ void QEngineCPU::UniformlyControlledSingleBit(const std::vector<bitLenInt>& cont
 
     par_for_skip(0U, maxQPowerOcl, targetPower, 1U, fn);
 
-    if (doNormalize) {
+    if (doNormalize && (runningNorm > ZERO_R1)) {
         runningNorm = ONE_R1;
     }
 }
-- 
2.43.0


From b6c232bee6cebea794f20809f675973bd4aeec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 30/45] fix: Apply2x2() records a norm of 1 only if it has
 rescaled the amplitudes

---
 src/qengine/state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index a07caed..bc5df9a 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -357,7 +357,7 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
 
     const std::vector<bitCapIntOcl> qPowersSorted(qPowsSorted, qPowsSorted + bitCount);
 
-    const bool doApplyNorm = doNormalize && (bitCount == 1U) && (runningNorm > ZERO_R1);
+    const bool doApplyNorm = doNormalize && doCalcNorm && (bitCount == 1U) && (runningNorm > ZERO_R1);
     doCalcNorm &= doApplyNorm || (runningNorm <= ZERO_R1);
 
     const real1 nrm = doApplyNorm ? ONE_R1 / (real1)sqrt(runningNorm) : ONE_R1;
@@ -537,7 +537,7 @@ void QEngineCPU::Apply2x2(bitCapIntOcl offset1, bitCapIntOcl offset2, const comp
 
     const std::vector<bitCapIntOcl> qPowersSorted(qPowsSorted, qPowsSorted + bitCount);
 
-    const bool doApplyNorm = doNormalize && (bitCount == 1U) && (runningNorm > ZERO_R1);
+    const bool doApplyNorm = doNormalize && doCalcNorm && (bitCount == 1U) && (runningNorm > ZERO_R1);
     doCalcNorm &= doApplyNorm || (runningNorm <= ZERO_R1);
 
     const real1 nrm = doApplyNorm ? ONE_R1 / (real1)sqrt(runningNorm) : ONE_R1;
-- 
2.43.0


From 11f00afb3c5bb7eefc56b26907e1ea2ace054a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 31/45] fix: QEngine::ForceM() of several bits honours the
 forced values, doApply and 0 probability

---
 src/qengine/qengine.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 6bc7bbf..451bf86 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -122,7 +122,7 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
 
     // Single bit operations are better optimized for this special case:
     if (bits.size() == 1U) {
-        if (ForceM(bits[0U], values.empty() ? false : values[0U], false, doApply)) {
+        if (ForceM(bits[0U], values.empty() ? false : values[0U], !values.empty(), doApply)) {
             return pow2(bits[0U]);
         }
 
@@ -145,13 +145,15 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
                 result |= pow2Ocl(bits[j]);
             }
         }
-        real1_f nrmlzr = ProbMask(regMask, result);
-        complex nrm = phase / (real1)(std::sqrt((real1_s)nrmlzr));
-        if ((ONE_R1_F - nrmlzr) > FP_NORM_EPSILON) {
-            ApplyM(regMask, (bitCapInt)result, nrm);
+        const real1_f nrmlzr = ProbMask(regMask, result);
+        if (nrmlzr <= ZERO_R1) {
+            throw std::invalid_argument("QEngine::ForceM() forced a measurement result with 0 probability!");
+        }
+
+        if (doApply && ((ONE_R1_F - nrmlzr) > FP_NORM_EPSILON)) {
+            ApplyM(regMask, (bitCapInt)result, phase / (real1)(std::sqrt((real1_s)nrmlzr)));
         }
 
-        // No need to check against probabilities:
         return result;
     }
 
-- 
2.43.0


From ab720bffefaabeb7a9df7845a28097e6b522cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 32/45] fix: QEngine::ForceM() of several bits never samples
 past the table or an outcome of 0 probability

---
 src/qengine/qengine.cpp | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 451bf86..5161135 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -167,27 +167,25 @@ bitCapInt QEngine::ForceM(const std::vector<bitLenInt>& bits, const std::vector<
 
     ProbMaskAll(regMask, probArray.get());
 
-    bitCapIntOcl lcv = 0U;
-    real1 lowerProb = probArray[0U];
+    real1 lowerProb = ZERO_R1;
     bitCapIntOcl result = lengthPower - 1U;
 
     /*
-     * The value of 'lcv' should not exceed lengthPower unless the stateVec is
-     * in a bug-induced topology - some value in stateVec must always be a
-     * vector.
+     * The result is the first of nonzero probability at which the cumulative
+     * probability reaches "prob," or the last of nonzero probability, if
+     * rounding leaves the total below "prob."
      */
     real1 nrmlzr = ONE_R1;
-    while ((lowerProb < prob) && (lcv < lengthPower)) {
-        ++lcv;
-        lowerProb += probArray[lcv];
-        if (probArray[lcv] > ZERO_R1) {
-            nrmlzr = probArray[lcv];
-            result = lcv;
+    for (bitCapIntOcl lcv = 0U; lcv < lengthPower; ++lcv) {
+        if (probArray[lcv] <= ZERO_R1) {
+            continue;
         }
-    }
-    if (lcv < lengthPower) {
         nrmlzr = probArray[lcv];
         result = lcv;
+        lowerProb += nrmlzr;
+        if (lowerProb >= prob) {
+            break;
+        }
     }
 
     probArray.reset();
-- 
2.43.0


From 8f236769f19c077b384be3e7c4f244dba31a5c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 33/45] fix: QEngine::ForceMReg() never yields an outcome of 0
 probability

---
 src/qengine/qengine.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 5161135..971398d 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -494,8 +494,10 @@ bitCapInt QEngine::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt&
     bitCapInt result = _result;
     if (doForce) {
         nrmlzr = ProbMask(regMask, result << start);
+        if (nrmlzr <= ZERO_R1) {
+            throw std::invalid_argument("QEngine::ForceMReg() forced a measurement result with 0 probability!");
+        }
     } else {
-        bitCapIntOcl lcv = 0;
         std::unique_ptr<real1[]> probArray(new real1[lengthPower]);
         ProbRegAll(start, length, probArray.get());
 
@@ -504,17 +506,20 @@ bitCapInt QEngine::ForceMReg(bitLenInt start, bitLenInt length, const bitCapInt&
         result = lengthPower - 1U;
 
         /*
-         * The value of 'lcv' should not exceed lengthPower unless the stateVec is
-         * in a bug-induced topology - some value in stateVec must always be a
-         * vector.
+         * The result is the first of nonzero probability at which the cumulative
+         * probability reaches "prob," or the last of nonzero probability, if
+         * rounding leaves the total below "prob."
          */
-        while ((lowerProb < prob) && (lcv < lengthPower)) {
-            lowerProb += (real1_f)probArray[lcv];
-            if (probArray[lcv] > ZERO_R1) {
-                nrmlzr = probArray[lcv];
-                result = lcv;
+        for (bitCapIntOcl lcv = 0U; lcv < lengthPower; ++lcv) {
+            if (probArray[lcv] <= ZERO_R1) {
+                continue;
+            }
+            nrmlzr = probArray[lcv];
+            result = lcv;
+            lowerProb += (real1_f)nrmlzr;
+            if (lowerProb >= prob) {
+                break;
             }
-            ++lcv;
         }
 
         probArray.reset();
-- 
2.43.0


From f1ba1e761a91c1d1fa5bbf1d7cf1669f61395820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 34/45] fix: QEngineCPU::ForceMParity() waits for queued work
 and refuses an outcome of 0 probability

---
 src/qengine/state.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index bc5df9a..e215dc5 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1534,8 +1534,25 @@ bool QEngineCPU::ForceMParity(const bitCapInt& mask, bool result, bool doForce)
         return false;
     }
 
+    // (This also finishes any queued work.)
+    const real1_f oddProb = ProbParity(mask);
+    if (!stateVec) {
+        return false;
+    }
+
     if (!doForce) {
-        result = (Rand() <= ProbParity(mask));
+        if (oddProb >= ONE_R1) {
+            result = true;
+        } else if (oddProb <= ZERO_R1) {
+            result = false;
+        } else {
+            result = (Rand() <= oddProb);
+        }
+    }
+
+    if ((result ? oddProb : (ONE_R1 - oddProb)) <= ZERO_R1) {
+        throw std::invalid_argument(
+            "QEngineCPU::ForceMParity() forced a measurement result with 0 probability!");
     }
 
     real1 oddChance = ZERO_R1;
-- 
2.43.0


From 99816a7856004154149ef895569005b035de2b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 35/45] fix: SetAmplitude() on an all-zero engine does not read
 a null state vector

---
 src/qengine/state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index e215dc5..9c72d73 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -209,7 +209,7 @@ void QEngineCPU::SetAmplitude(const bitCapInt& perm, const complex& amp)
     }
 
     if (runningNorm != REAL1_DEFAULT_ARG) {
-        runningNorm += norm(amp) - norm(stateVec->read((bitCapIntOcl)perm));
+        runningNorm += norm(amp) - (stateVec ? norm(stateVec->read((bitCapIntOcl)perm)) : ZERO_R1);
     }
 
     if (!stateVec) {
-- 
2.43.0


From 07d7bc33d4a085f426225f534cd48431fedaa31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:42 +0000
Subject: [PATCH 36/45] fix: modular multiplication and power on QEngineCPU do
 not overflow 64 bits before they are reduced

---
 src/qengine/arithmetic.cpp | 47 ++++++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index 1e6e3ec..c171976 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -19,6 +19,31 @@
 
 namespace Qrack {
 
+#if ENABLE_ALU
+/// Residue of an integer of any size
+static inline bitCapIntOcl residueOcl(const bitCapInt& toMod, const bitCapInt& modN)
+{
+    bitCapInt residue;
+    bi_div_mod(toMod, modN, nullptr, &residue);
+
+    return (bitCapIntOcl)residue;
+}
+
+/// Modular power (reduced at each step, since the plain power can overflow)
+static bitCapIntOcl powModOcl(bitCapIntOcl base, bitCapIntOcl power, const bitCapIntOcl& modN)
+{
+    bitCapIntOcl result = 1U;
+    for (; power; power >>= 1U) {
+        if (power & 1U) {
+            result = (result * base) % modN;
+        }
+        base = (base * base) % modN;
+    }
+
+    return result;
+}
+#endif
+
 /// "Circular shift left" - shift bits left, and carry last bits.
 void QEngineCPU::ROL(bitLenInt shift, bitLenInt start, bitLenInt length)
 {
@@ -584,7 +609,7 @@ void QEngineCPU::MULModNOut(
         return;
     }
 
-    const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod;
+    const bitCapIntOcl toModOcl = residueOcl(toMod, modN);
     ModNOut([&toModOcl](const bitCapIntOcl& inInt) { return inInt * toModOcl; }, modN, inStart, outStart, length);
 }
 
@@ -595,7 +620,7 @@ void QEngineCPU::IMULModNOut(
         return;
     }
 
-    const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod;
+    const bitCapIntOcl toModOcl = residueOcl(toMod, modN);
     ModNOut([&toModOcl](const bitCapIntOcl& inInt) { return inInt * toModOcl; }, modN, inStart, outStart, length, true);
 }
 
@@ -606,9 +631,10 @@ void QEngineCPU::POWModNOut(
         return SetReg(outStart, length, ONE_BCI);
     }
 
-    const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod;
-    ModNOut(
-        [&toModOcl](const bitCapIntOcl& inInt) { return intPowOcl(toModOcl, inInt); }, modN, inStart, outStart, length);
+    const bitCapIntOcl toModOcl = residueOcl(toMod, modN);
+    const bitCapIntOcl modNOcl = (bitCapIntOcl)modN;
+    ModNOut([&toModOcl, &modNOcl](const bitCapIntOcl& inInt) { return powModOcl(toModOcl, inInt, modNOcl); }, modN,
+        inStart, outStart, length);
 }
 
 void QEngineCPU::CModNOut(const MFn& kernelFn, const bitCapInt& modN, const bitLenInt& inStart,
@@ -687,7 +713,7 @@ void QEngineCPU::CMULModNOut(const bitCapInt& toMod, const bitCapInt& modN, bitL
 
     SetReg(outStart, length, ZERO_BCI);
 
-    const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod;
+    const bitCapIntOcl toModOcl = residueOcl(toMod, modN);
     CModNOut(
         [&toModOcl](const bitCapIntOcl& inInt) { return inInt * toModOcl; }, modN, inStart, outStart, length, controls);
 }
@@ -699,7 +725,7 @@ void QEngineCPU::CIMULModNOut(const bitCapInt& toMod, const bitCapInt& modN, bit
         return IMULModNOut(toMod, modN, inStart, outStart, length);
     }
 
-    const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod;
+    const bitCapIntOcl toModOcl = residueOcl(toMod, modN);
     CModNOut([&toModOcl](const bitCapIntOcl& inInt) { return inInt * toModOcl; }, modN, inStart, outStart, length,
         controls, true);
 }
@@ -711,9 +737,10 @@ void QEngineCPU::CPOWModNOut(const bitCapInt& toMod, const bitCapInt& modN, bitL
         return POWModNOut(toMod, modN, inStart, outStart, length);
     }
 
-    const bitCapIntOcl toModOcl = (bitCapIntOcl)toMod;
-    CModNOut([&toModOcl](const bitCapIntOcl& inInt) { return intPowOcl(toModOcl, inInt); }, modN, inStart, outStart,
-        length, controls);
+    const bitCapIntOcl toModOcl = residueOcl(toMod, modN);
+    const bitCapIntOcl modNOcl = (bitCapIntOcl)modN;
+    CModNOut([&toModOcl, &modNOcl](const bitCapIntOcl& inInt) { return powModOcl(toModOcl, inInt, modNOcl); }, modN,
+        inStart, outStart, length, controls);
 }
 
 #if ENABLE_BCD
-- 
2.43.0


From 7b33c970c4ee5e6ca7862a62a3be2221eb362daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 37/45] fix: probability queries on QEngineCPU check their
 qubits and ranges before anything else

---
 src/qengine/qengine.cpp |  4 ++++
 src/qengine/state.cpp   | 19 ++++++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 971398d..3a00775 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -467,6 +467,10 @@ real1_f QEngine::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenInt
 
 void QEngine::ProbRegAll(bitLenInt start, bitLenInt length, real1* probsArray)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QEngine::ProbRegAll range is out-of-bounds!");
+    }
+
     const bitCapIntOcl lengthMask = pow2Ocl(length) - 1U;
     std::fill(probsArray, probsArray + lengthMask + 1U, ZERO_R1);
     for (bitCapIntOcl i = 0U; i < maxQPowerOcl; ++i) {
diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 9c72d73..cd8ed36 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1354,6 +1354,16 @@ real1_f QEngineCPU::Prob(bitLenInt qubit)
 /// "controlState".
 real1_f QEngineCPU::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenInt target)
 {
+    if (control >= qubitCount) {
+        throw std::invalid_argument(
+            "QEngineCPU::CtrlOrAntiProb control index parameter must be within allocated qubit bounds!");
+    }
+
+    if (target >= qubitCount) {
+        throw std::invalid_argument(
+            "QEngineCPU::CtrlOrAntiProb target index parameter must be within allocated qubit bounds!");
+    }
+
     if (!stateVec) {
         return ZERO_R1_F;
     }
@@ -1371,11 +1381,6 @@ real1_f QEngineCPU::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenI
         return Prob(target);
     }
 
-    if (target >= qubitCount) {
-        throw std::invalid_argument(
-            "QEngineCPU::CtrlOrAntiProb target index parameter must be within allocated qubit bounds!");
-    }
-
     const bitCapIntOcl qControlPower = pow2Ocl(control);
     const bitCapIntOcl qControlMask = controlState ? qControlPower : 0U;
     const bitCapIntOcl qPower = pow2Ocl(target);
@@ -1400,6 +1405,10 @@ real1_f QEngineCPU::CtrlOrAntiProb(bool controlState, bitLenInt control, bitLenI
 // Returns probability of permutation of the register
 real1_f QEngineCPU::ProbReg(bitLenInt start, bitLenInt length, const bitCapInt& permutation)
 {
+    if (isBadBitRange(start, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::ProbReg range is out-of-bounds!");
+    }
+
     if (doNormalize) {
         NormalizeState();
     }
-- 
2.43.0


From 567adf58b5bc5621e2a8de861879dda390dfa90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 38/45] fix: QEngineCPU::GetExpectation() waits for queued
 work, and does not read a null state vector

---
 src/qengine/utility.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/qengine/utility.cpp b/src/qengine/utility.cpp
index 333b0ee..be1fe60 100644
--- a/src/qengine/utility.cpp
+++ b/src/qengine/utility.cpp
@@ -74,6 +74,19 @@ bitLenInt QEngineCPU::Allocate(bitLenInt start, bitLenInt length)
 
 real1_f QEngineCPU::GetExpectation(bitLenInt valueStart, bitLenInt valueLength)
 {
+    if (isBadBitRange(valueStart, valueLength, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::GetExpectation range is out-of-bounds!");
+    }
+
+    if (doNormalize) {
+        NormalizeState();
+    }
+    Finish();
+
+    if (!stateVec) {
+        return ZERO_R1_F;
+    }
+
     const bitCapIntOcl outputMask = bitRegMaskOcl(valueStart, valueLength);
     real1 average = ZERO_R1;
     real1 totProb = ZERO_R1;
-- 
2.43.0


From 6a4c0cca3ace033b39dcb1d65c484489763b626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 39/45] fix: removing every qubit of a QEngineCPU leaves 0
 qubits, and hands over the finished state

---
 src/qengine/state.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index cd8ed36..66d485d 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1143,8 +1143,11 @@ void QEngineCPU::DecomposeDispose(bitLenInt start, bitLenInt length, QEngineCPUP
     }
 
     if (!nLength) {
+        Finish();
         if (destination) {
+            destination->Dump();
             destination->stateVec = stateVec;
+            destination->runningNorm = runningNorm;
         }
         stateVec = nullptr;
 
@@ -1263,6 +1266,13 @@ void QEngineCPU::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& dis
         return SetQubitCount(nLength);
     }
 
+    if (!nLength) {
+        Finish();
+        stateVec = nullptr;
+
+        return SetQubitCount(0U);
+    }
+
     const bitCapIntOcl disposedPermOcl = (bitCapIntOcl)disposedPerm;
     const bitCapIntOcl remainderPower = pow2Ocl(nLength);
     const bitCapIntOcl skipMask = pow2Ocl(start) - 1U;
@@ -1280,11 +1290,7 @@ void QEngineCPU::Dispose(bitLenInt start, bitLenInt length, const bitCapInt& dis
         nStateVec->write(iHigh, stateVec->read(iLow | ((iHigh ^ iLow) << (bitCapIntOcl)length) | disposedRes));
     });
 
-    if (!nLength) {
-        SetQubitCount(1U);
-    } else {
-        SetQubitCount(nLength);
-    }
+    SetQubitCount(nLength);
 
     ResetStateVec(nStateVec);
 }
-- 
2.43.0


From b2bd23713c76c6f9e7333cd9cc86d6d834b174dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 40/45] fix: composing several QEngineCPU with an all-zero one
 does not read a null state vector

---
 src/qengine/state.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/qengine/state.cpp b/src/qengine/state.cpp
index 66d485d..010c37d 100644
--- a/src/qengine/state.cpp
+++ b/src/qengine/state.cpp
@@ -1074,6 +1074,7 @@ std::map<QInterfacePtr, bitLenInt> QEngineCPU::Compose(std::vector<QInterfacePtr
     std::map<QInterfacePtr, bitLenInt> ret;
     std::vector<bitLenInt> offset(toComposeCount);
     std::vector<bitCapIntOcl> mask(toComposeCount);
+    bool isZero = !stateVec;
 
     const bitCapIntOcl startMask = maxQPowerOcl - 1U;
 
@@ -1092,6 +1093,15 @@ std::map<QInterfacePtr, bitLenInt> QEngineCPU::Compose(std::vector<QInterfacePtr
         offset[i] = nQubitCount;
         ret[toCopy[i]] = nQubitCount;
         nQubitCount += src->GetQubitCount();
+        isZero = isZero || !src->stateVec;
+    }
+
+    if (isZero) {
+        // Compose will have a wider but 0 stateVec
+        ZeroAmplitudes();
+        SetQubitCount(nQubitCount);
+
+        return ret;
     }
 
     const bitCapIntOcl nMaxQPower = pow2Ocl(nQubitCount);
-- 
2.43.0


From c353cf3dec506e07643b1c1249b4923201473abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 41/45] fix: QEngineCPU multiplication and power check their
 arguments before they clear the output register

---
 src/qengine/arithmetic.cpp | 44 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/qengine/arithmetic.cpp b/src/qengine/arithmetic.cpp
index c171976..6b3a0a9 100644
--- a/src/qengine/arithmetic.cpp
+++ b/src/qengine/arithmetic.cpp
@@ -426,6 +426,14 @@ void QEngineCPU::MULDIV(const IOFn& inFn, const IOFn& outFn, const bitCapInt& to
 
 void QEngineCPU::MUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt carryStart, bitLenInt length)
 {
+    if (isBadBitRange(inOutStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::MUL range is out-of-bounds!");
+    }
+
+    if (isBadBitRange(carryStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::MUL range is out-of-bounds!");
+    }
+
     SetReg(carryStart, length, ZERO_BCI);
 
     if (bi_compare_0(toMul) == 0) {
@@ -526,6 +534,16 @@ void QEngineCPU::CMUL(const bitCapInt& toMul, bitLenInt inOutStart, bitLenInt ca
         return MUL(toMul, inOutStart, carryStart, length);
     }
 
+    if (isBadBitRange(inOutStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::CMUL range is out-of-bounds!");
+    }
+
+    if (isBadBitRange(carryStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::CMUL range is out-of-bounds!");
+    }
+
+    ThrowIfQbIdArrayIsBad(controls, qubitCount, "QEngineCPU::CMUL control is out-of-bounds!");
+
     SetReg(carryStart, length, ZERO_BCI);
 
     if (bi_compare_0(toMul) == 0) {
@@ -603,6 +621,14 @@ void QEngineCPU::ModNOut(const MFn& kernelFn, const bitCapInt& modN, const bitLe
 void QEngineCPU::MULModNOut(
     const bitCapInt& toMod, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
+    if (isBadBitRange(inStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::MULModNOut range is out-of-bounds!");
+    }
+
+    if (isBadBitRange(outStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::MULModNOut range is out-of-bounds!");
+    }
+
     SetReg(outStart, length, ZERO_BCI);
 
     if (bi_compare_0(toMod) == 0) {
@@ -627,6 +653,14 @@ void QEngineCPU::IMULModNOut(
 void QEngineCPU::POWModNOut(
     const bitCapInt& toMod, const bitCapInt& modN, bitLenInt inStart, bitLenInt outStart, bitLenInt length)
 {
+    if (isBadBitRange(inStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::POWModNOut range is out-of-bounds!");
+    }
+
+    if (isBadBitRange(outStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::POWModNOut range is out-of-bounds!");
+    }
+
     if (bi_compare_1(toMod) == 0) {
         return SetReg(outStart, length, ONE_BCI);
     }
@@ -711,6 +745,16 @@ void QEngineCPU::CMULModNOut(const bitCapInt& toMod, const bitCapInt& modN, bitL
         return MULModNOut(toMod, modN, inStart, outStart, length);
     }
 
+    if (isBadBitRange(inStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::CMULModNOut range is out-of-bounds!");
+    }
+
+    if (isBadBitRange(outStart, length, qubitCount)) {
+        throw std::invalid_argument("QEngineCPU::CMULModNOut range is out-of-bounds!");
+    }
+
+    ThrowIfQbIdArrayIsBad(controls, qubitCount, "QEngineCPU::CMULModNOut control is out-of-bounds!");
+
     SetReg(outStart, length, ZERO_BCI);
 
     const bitCapIntOcl toModOcl = residueOcl(toMod, modN);
-- 
2.43.0


From 64ccd0c0dbebffe84d5ca1cdcc1a0ddd4f23e835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 42/45] fix: QEngine gates reject qubit indices past the width
 of bitCapIntOcl, which wrapped onto other qubits

---
 include/qengine.hpp     | 10 +++++++
 src/qengine/qengine.cpp | 62 ++++++++++++++++++++---------------------
 2 files changed, 41 insertions(+), 31 deletions(-)

diff --git a/include/qengine.hpp b/include/qengine.hpp
index 6c5f4ce..d165ee9 100644
--- a/include/qengine.hpp
+++ b/include/qengine.hpp
@@ -67,6 +67,16 @@ protected:
 
     void EitherMtrx(const std::vector<bitLenInt>& controls, const complex* mtrx, bitLenInt target, bool isAnti);
 
+    /// Power of 2 of a qubit index within bounds. (The shift wraps at the width of the type, without this check.)
+    bitCapIntOcl QubitPowerOcl(bitLenInt qubit) const
+    {
+        if (qubit >= qubitCount) {
+            throw std::invalid_argument("QEngine qubit index parameter must be within allocated qubit bounds!");
+        }
+
+        return pow2Ocl(qubit);
+    }
+
     virtual void Copy(QInterfacePtr orig) { Copy(std::dynamic_pointer_cast<QEngine>(orig)); }
     virtual void Copy(QEnginePtr orig)
     {
diff --git a/src/qengine/qengine.cpp b/src/qengine/qengine.cpp
index 3a00775..51d06b3 100644
--- a/src/qengine/qengine.cpp
+++ b/src/qengine/qengine.cpp
@@ -22,7 +22,7 @@ void QEngine::Mtrx(const complex* mtrx, bitLenInt qubit)
         return;
     }
 
-    const bitCapIntOcl qPowers[1U]{ pow2Ocl(qubit) };
+    const bitCapIntOcl qPowers[1U]{ QubitPowerOcl(qubit) };
     Apply2x2(0U, qPowers[0U], mtrx, 1U, qPowers, doNormalize && !(IsPhase(mtrx) || IsInvert(mtrx)));
 }
 
@@ -59,10 +59,10 @@ void QEngine::UCMtrx(
     }
 
     std::unique_ptr<bitCapIntOcl[]> qPowersSorted(new bitCapIntOcl[controls.size() + 1U]);
-    const bitCapIntOcl targetMask = pow2Ocl(target);
+    const bitCapIntOcl targetMask = QubitPowerOcl(target);
     bitCapIntOcl fullMask = 0U;
     for (size_t i = 0U; i < controls.size(); ++i) {
-        qPowersSorted[i] = pow2Ocl(controls[i]);
+        qPowersSorted[i] = QubitPowerOcl(controls[i]);
         if (bi_and_1(controlPerm >> i)) {
             fullMask |= qPowersSorted[i];
         }
@@ -227,11 +227,11 @@ void QEngine::CSwap(const std::vector<bitLenInt>& controls, bitLenInt qubit1, bi
     bitCapIntOcl skipMask = 0U;
     std::unique_ptr<bitCapIntOcl[]> qPowersSorted(new bitCapIntOcl[controls.size() + 2U]);
     for (size_t i = 0U; i < controls.size(); ++i) {
-        qPowersSorted[i] = pow2Ocl(controls[i]);
+        qPowersSorted[i] = QubitPowerOcl(controls[i]);
         skipMask |= qPowersSorted[i];
     }
-    qPowersSorted[controls.size()] = pow2Ocl(qubit1);
-    qPowersSorted[controls.size() + 1U] = pow2Ocl(qubit2);
+    qPowersSorted[controls.size()] = QubitPowerOcl(qubit1);
+    qPowersSorted[controls.size() + 1U] = QubitPowerOcl(qubit2);
     std::sort(qPowersSorted.get(), qPowersSorted.get() + controls.size() + 2U);
     Apply2x2(skipMask | pow2Ocl(qubit1), skipMask | pow2Ocl(qubit2), pauliX, controls.size() + 2U, qPowersSorted.get(),
         false);
@@ -254,10 +254,10 @@ void QEngine::AntiCSwap(const std::vector<bitLenInt>& controls, bitLenInt qubit1
     const complex pauliX[4U]{ ZERO_CMPLX, ONE_CMPLX, ONE_CMPLX, ZERO_CMPLX };
     std::unique_ptr<bitCapIntOcl[]> qPowersSorted(new bitCapIntOcl[controls.size() + 2U]);
     for (size_t i = 0U; i < controls.size(); ++i) {
-        qPowersSorted[i] = pow2Ocl(controls[i]);
+        qPowersSorted[i] = QubitPowerOcl(controls[i]);
     }
-    qPowersSorted[controls.size()] = pow2Ocl(qubit1);
-    qPowersSorted[controls.size() + 1U] = pow2Ocl(qubit2);
+    qPowersSorted[controls.size()] = QubitPowerOcl(qubit1);
+    qPowersSorted[controls.size() + 1U] = QubitPowerOcl(qubit2);
     std::sort(qPowersSorted.get(), qPowersSorted.get() + controls.size() + 2U);
     Apply2x2(pow2Ocl(qubit1), pow2Ocl(qubit2), pauliX, controls.size() + 2U, qPowersSorted.get(), false);
 }
@@ -280,11 +280,11 @@ void QEngine::CSqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt qubit1
     bitCapIntOcl skipMask = 0U;
     std::unique_ptr<bitCapIntOcl[]> qPowersSorted(new bitCapIntOcl[controls.size() + 2U]);
     for (size_t i = 0U; i < controls.size(); ++i) {
-        qPowersSorted[i] = pow2Ocl(controls[i]);
+        qPowersSorted[i] = QubitPowerOcl(controls[i]);
         skipMask |= qPowersSorted[i];
     }
-    qPowersSorted[controls.size()] = pow2Ocl(qubit1);
-    qPowersSorted[controls.size() + 1U] = pow2Ocl(qubit2);
+    qPowersSorted[controls.size()] = QubitPowerOcl(qubit1);
+    qPowersSorted[controls.size() + 1U] = QubitPowerOcl(qubit2);
     std::sort(qPowersSorted.get(), qPowersSorted.get() + controls.size() + 2U);
     Apply2x2(skipMask | pow2Ocl(qubit1), skipMask | pow2Ocl(qubit2), sqrtX, controls.size() + 2U, qPowersSorted.get(),
         false);
@@ -307,10 +307,10 @@ void QEngine::AntiCSqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt qu
     QRACK_CONST complex sqrtX[4]{ HALF_I_HALF_CMPLX, HALF_NEG_I_HALF_CMPLX, HALF_NEG_I_HALF_CMPLX, HALF_I_HALF_CMPLX };
     std::unique_ptr<bitCapIntOcl[]> qPowersSorted(new bitCapIntOcl[controls.size() + 2U]);
     for (size_t i = 0U; i < controls.size(); ++i) {
-        qPowersSorted[i] = pow2Ocl(controls[i]);
+        qPowersSorted[i] = QubitPowerOcl(controls[i]);
     }
-    qPowersSorted[controls.size()] = pow2Ocl(qubit1);
-    qPowersSorted[controls.size() + 1U] = pow2Ocl(qubit2);
+    qPowersSorted[controls.size()] = QubitPowerOcl(qubit1);
+    qPowersSorted[controls.size() + 1U] = QubitPowerOcl(qubit2);
     std::sort(qPowersSorted.get(), qPowersSorted.get() + controls.size() + 2U);
     Apply2x2(pow2Ocl(qubit1), pow2Ocl(qubit2), sqrtX, controls.size() + 2U, qPowersSorted.get(), false);
 }
@@ -333,11 +333,11 @@ void QEngine::CISqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt qubit
     bitCapIntOcl skipMask = 0U;
     std::unique_ptr<bitCapIntOcl[]> qPowersSorted(new bitCapIntOcl[controls.size() + 2U]);
     for (size_t i = 0U; i < controls.size(); ++i) {
-        qPowersSorted[i] = pow2Ocl(controls[i]);
+        qPowersSorted[i] = QubitPowerOcl(controls[i]);
         skipMask |= qPowersSorted[i];
     }
-    qPowersSorted[controls.size()] = pow2Ocl(qubit1);
-    qPowersSorted[controls.size() + 1U] = pow2Ocl(qubit2);
+    qPowersSorted[controls.size()] = QubitPowerOcl(qubit1);
+    qPowersSorted[controls.size() + 1U] = QubitPowerOcl(qubit2);
     std::sort(qPowersSorted.get(), qPowersSorted.get() + controls.size() + 2U);
     Apply2x2(skipMask | pow2Ocl(qubit1), skipMask | pow2Ocl(qubit2), iSqrtX, controls.size() + 2U, qPowersSorted.get(),
         false);
@@ -361,10 +361,10 @@ void QEngine::AntiCISqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt q
         HALF_NEG_I_HALF_CMPLX };
     std::unique_ptr<bitCapIntOcl[]> qPowersSorted(new bitCapIntOcl[controls.size() + 2U]);
     for (size_t i = 0U; i < controls.size(); ++i) {
-        qPowersSorted[i] = pow2Ocl(controls[i]);
+        qPowersSorted[i] = QubitPowerOcl(controls[i]);
     }
-    qPowersSorted[controls.size()] = pow2Ocl(qubit1);
-    qPowersSorted[controls.size() + 1U] = pow2Ocl(qubit2);
+    qPowersSorted[controls.size()] = QubitPowerOcl(qubit1);
+    qPowersSorted[controls.size() + 1U] = QubitPowerOcl(qubit2);
     std::sort(qPowersSorted.get(), qPowersSorted.get() + controls.size() + 2U);
     Apply2x2(pow2Ocl(qubit1), pow2Ocl(qubit2), iSqrtX, controls.size() + 2U, qPowersSorted.get(), false);
 }
@@ -372,10 +372,10 @@ void QEngine::AntiCISqrtSwap(const std::vector<bitLenInt>& controls, bitLenInt q
 void QEngine::ApplyControlled2x2(const std::vector<bitLenInt>& controls, bitLenInt target, const complex* mtrx)
 {
     std::unique_ptr<bitCapIntOcl[]> qPowersSorted(new bitCapIntOcl[controls.size() + 1U]);
-    const bitCapIntOcl targetMask = pow2Ocl(target);
+    const bitCapIntOcl targetMask = QubitPowerOcl(target);
     bitCapIntOcl fullMask = 0U;
     for (size_t i = 0U; i < controls.size(); ++i) {
-        qPowersSorted[i] = pow2Ocl(controls[i]);
+        qPowersSorted[i] = QubitPowerOcl(controls[i]);
         fullMask |= qPowersSorted[i];
     }
     const bitCapIntOcl controlMask = fullMask;
@@ -388,9 +388,9 @@ void QEngine::ApplyControlled2x2(const std::vector<bitLenInt>& controls, bitLenI
 void QEngine::ApplyAntiControlled2x2(const std::vector<bitLenInt>& controls, bitLenInt target, const complex* mtrx)
 {
     std::unique_ptr<bitCapIntOcl[]> qPowersSorted(new bitCapIntOcl[controls.size() + 1U]);
-    const bitCapIntOcl targetMask = pow2Ocl(target);
+    const bitCapIntOcl targetMask = QubitPowerOcl(target);
     for (size_t i = 0U; i < controls.size(); ++i) {
-        qPowersSorted[i] = pow2Ocl(controls[i]);
+        qPowersSorted[i] = QubitPowerOcl(controls[i]);
     }
     qPowersSorted[controls.size()] = targetMask;
     std::sort(qPowersSorted.get(), qPowersSorted.get() + controls.size() + 1U);
@@ -409,28 +409,28 @@ void QEngine::Swap(bitLenInt qubit1, bitLenInt qubit2)
 {
     _QRACK_QENGINE_SWAP_PREAMBLE()
     const complex pauliX[4U]{ ZERO_CMPLX, ONE_CMPLX, ONE_CMPLX, ZERO_CMPLX };
-    const bitCapIntOcl qPowersSorted[2U]{ pow2Ocl(qubit1), pow2Ocl(qubit2) };
+    const bitCapIntOcl qPowersSorted[2U]{ QubitPowerOcl(qubit1), QubitPowerOcl(qubit2) };
     Apply2x2(qPowersSorted[0U], qPowersSorted[1U], pauliX, 2U, qPowersSorted, false);
 }
 void QEngine::ISwap(bitLenInt qubit1, bitLenInt qubit2)
 {
     _QRACK_QENGINE_SWAP_PREAMBLE()
     const complex pauliX[4U]{ ZERO_CMPLX, I_CMPLX, I_CMPLX, ZERO_CMPLX };
-    const bitCapIntOcl qPowersSorted[2U]{ pow2Ocl(qubit1), pow2Ocl(qubit2) };
+    const bitCapIntOcl qPowersSorted[2U]{ QubitPowerOcl(qubit1), QubitPowerOcl(qubit2) };
     Apply2x2(qPowersSorted[0U], qPowersSorted[1U], pauliX, 2U, qPowersSorted, false);
 }
 void QEngine::IISwap(bitLenInt qubit1, bitLenInt qubit2)
 {
     _QRACK_QENGINE_SWAP_PREAMBLE()
     const complex pauliX[4U]{ ZERO_CMPLX, -I_CMPLX, -I_CMPLX, ZERO_CMPLX };
-    const bitCapIntOcl qPowersSorted[2U]{ pow2Ocl(qubit1), pow2Ocl(qubit2) };
+    const bitCapIntOcl qPowersSorted[2U]{ QubitPowerOcl(qubit1), QubitPowerOcl(qubit2) };
     Apply2x2(qPowersSorted[0U], qPowersSorted[1U], pauliX, 2U, qPowersSorted, false);
 }
 void QEngine::SqrtSwap(bitLenInt qubit1, bitLenInt qubit2)
 {
     _QRACK_QENGINE_SWAP_PREAMBLE()
     QRACK_CONST complex sqrtX[4U]{ HALF_I_HALF_CMPLX, HALF_NEG_I_HALF_CMPLX, HALF_NEG_I_HALF_CMPLX, HALF_I_HALF_CMPLX };
-    const bitCapIntOcl qPowersSorted[2U]{ pow2Ocl(qubit1), pow2Ocl(qubit2) };
+    const bitCapIntOcl qPowersSorted[2U]{ QubitPowerOcl(qubit1), QubitPowerOcl(qubit2) };
     Apply2x2(qPowersSorted[0U], qPowersSorted[1U], sqrtX, 2U, qPowersSorted, false);
 }
 void QEngine::ISqrtSwap(bitLenInt qubit1, bitLenInt qubit2)
@@ -438,7 +438,7 @@ void QEngine::ISqrtSwap(bitLenInt qubit1, bitLenInt qubit2)
     _QRACK_QENGINE_SWAP_PREAMBLE()
     QRACK_CONST complex iSqrtX[4U]{ HALF_NEG_I_HALF_CMPLX, HALF_I_HALF_CMPLX, HALF_I_HALF_CMPLX,
         HALF_NEG_I_HALF_CMPLX };
-    const bitCapIntOcl qPowersSorted[2U]{ pow2Ocl(qubit1), pow2Ocl(qubit2) };
+    const bitCapIntOcl qPowersSorted[2U]{ QubitPowerOcl(qubit1), QubitPowerOcl(qubit2) };
     Apply2x2(qPowersSorted[0U], qPowersSorted[1U], iSqrtX, 2U, qPowersSorted, false);
 }
 void QEngine::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit2)
@@ -452,7 +452,7 @@ void QEngine::FSim(real1_f theta, real1_f phi, bitLenInt qubit1, bitLenInt qubit
     if (((sinTheta * sinTheta) > FP_NORM_EPSILON) || (cosTheta < ZERO_R1)) {
         const complex fSimSwap[4U]{ complex(cosTheta, ZERO_R1), complex(ZERO_R1, -sinTheta),
             complex(ZERO_R1, -sinTheta), complex(cosTheta, ZERO_R1) };
-        const bitCapIntOcl qPowersSorted[2U]{ pow2Ocl(qubit1), pow2Ocl(qubit2) };
+        const bitCapIntOcl qPowersSorted[2U]{ QubitPowerOcl(qubit1), QubitPowerOcl(qubit2) };
         Apply2x2(qPowersSorted[0U], qPowersSorted[1U], fSimSwap, 2U, qPowersSorted, false);
     }
 
-- 
2.43.0


From 6ac3b834628c1af5e450981227d335fecc41e1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:48 +0000
Subject: [PATCH 43/45] fix: DispatchQueue::dump() waits for the operation that
 is running, which raced with whatever replaced its state

---
 include/common/dispatchqueue.hpp |  2 ++
 src/common/dispatchqueue.cpp     | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/common/dispatchqueue.hpp b/include/common/dispatchqueue.hpp
index 025d6b0..f9644fc 100644
--- a/include/common/dispatchqueue.hpp
+++ b/include/common/dispatchqueue.hpp
@@ -36,6 +36,7 @@ public:
         : quit_(false)
         , isFinished_(true)
         , isStarted_(false)
+        , isRunning_(false)
     {
         // Intentionally left blank.
     }
@@ -65,6 +66,7 @@ private:
     bool quit_;
     bool isFinished_;
     bool isStarted_;
+    bool isRunning_;
 
     void dispatch_thread_handler(void);
 };
diff --git a/src/common/dispatchqueue.cpp b/src/common/dispatchqueue.cpp
index d7a8444..5523a95 100644
--- a/src/common/dispatchqueue.cpp
+++ b/src/common/dispatchqueue.cpp
@@ -58,7 +58,11 @@ void DispatchQueue::dump()
 
     std::queue<DispatchFn> empty;
     std::swap(q_, empty);
-    isFinished_ = true;
+
+    // An operation that is already running can not be aborted: wait, since the caller is about to replace what it uses.
+    cvFinished_.wait(lock, [this] { return !isRunning_ || quit_; });
+
+    isFinished_ = q_.empty();
     lock.unlock();
     cvFinished_.notify_all();
 }
@@ -99,6 +103,7 @@ void DispatchQueue::dispatch_thread_handler(void)
 
         const auto op = std::move(q_.front());
         q_.pop();
+        isRunning_ = true;
 
         // unlock now that we're done messing with the queue
         lock.unlock();
@@ -107,10 +112,11 @@ void DispatchQueue::dispatch_thread_handler(void)
 
         lock.lock();
 
+        isRunning_ = false;
         if (q_.empty()) {
             isFinished_ = true;
-            cvFinished_.notify_all();
         }
+        cvFinished_.notify_all();
     } while (!quit_);
 }
 
-- 
2.43.0


From 7c8ec7445fe40cf1b08c7f926d19b7442a8e5b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:29 +0000
Subject: [PATCH 44/45] fix: C interface ids equal to the number of ids given
 out, and ids passed to get_error(), destroy*() and Compose(), were used to
 index past the end

---
 src/pinvoke_api.cpp | 69 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 17 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index d31c97a..1261181 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -51,7 +51,7 @@
 #endif
 
 #define SIMULATOR_LOCK_GUARD_VOID(sid)                                                                                 \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                    \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -63,7 +63,7 @@
     }
 
 #define SIMULATOR_LOCK_GUARD_TYPED(sid, def)                                                                           \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                    \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -108,7 +108,7 @@
 #endif
 
 #define NEURON_LOCK_GUARD_VOID(nid)                                                                                    \
-    if (nid > neurons.size()) {                                                                                        \
+    if (nid >= neurons.size()) {                                                                                       \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -121,7 +121,7 @@
     }
 
 #define NEURON_LOCK_GUARD_TYPED(nid, def)                                                                              \
-    if (nid > neurons.size()) {                                                                                        \
+    if (nid >= neurons.size()) {                                                                                       \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -158,7 +158,7 @@
 #endif
 
 #define CIRCUIT_LOCK_GUARD_TYPED(cid, def)                                                                             \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                      \
         std::cout << "Invalid argument: circuit ID not found!" << std::endl;                                           \
         metaError = 2;                                                                                                 \
         return def;                                                                                                    \
@@ -171,7 +171,7 @@
     }
 
 #define CIRCUIT_LOCK_GUARD_VOID(cid)                                                                                   \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                      \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -187,12 +187,12 @@
 
 #if CPP_STD > 13
 #define CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)                                                                \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                    \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
     }                                                                                                                  \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                      \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -218,12 +218,12 @@
     }
 #else
 #define CIRCUIT_AND_SIMULATOR_LOCK_GUARD_VOID(cid, sid)                                                                \
-    if (sid > simulators.size()) {                                                                                     \
+    if (sid >= simulators.size()) {                                                                                    \
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;                                         \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
     }                                                                                                                  \
-    if (cid > circuits.size()) {                                                                                       \
+    if (cid >= circuits.size()) {                                                                                      \
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;                                            \
         metaError = 2;                                                                                                 \
         return;                                                                                                        \
@@ -613,6 +613,10 @@ MICROSOFT_QUANTUM_DECL int get_error(_In_ uintq sid)
         return 2;
     }
 
+    if (sid >= simulatorErrors.size()) {
+        return 2;
+    }
+
     return simulatorErrors[sid];
 }
 
@@ -851,7 +855,7 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -904,7 +908,7 @@ uintq init_clone_size(uintq sid, uintq n)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -960,6 +964,14 @@ uintq init_clone_size(uintq sid, uintq n)
 MICROSOFT_QUANTUM_DECL void destroy(_In_ uintq sid)
 {
     META_LOCK_GUARD()
+
+    if (sid >= simulators.size()) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     shards.erase(simulators[sid].get());
     simulatorMutexes.erase(simulators[sid].get());
     simulators[sid] = nullptr;
@@ -1286,7 +1298,7 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -1327,7 +1339,7 @@ MICROSOFT_QUANTUM_DECL bool release(_In_ uintq sid, _In_ uintq q)
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -2223,6 +2235,13 @@ MICROSOFT_QUANTUM_DECL void ACSWAP(_In_ uintq sid, _In_ uintq n, _In_reads_(n) u
 
 MICROSOFT_QUANTUM_DECL void Compose(_In_ uintq sid1, _In_ uintq sid2, uintq* q)
 {
+    if ((sid1 >= simulators.size()) || (sid2 >= simulators.size())) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     if (!simulators[sid1] || !simulators[sid2]) {
         return;
     }
@@ -3473,7 +3492,7 @@ MICROSOFT_QUANTUM_DECL uintq init_qneuron(
 {
     META_LOCK_GUARD()
 
-    if (sid > simulators.size()) {
+    if (sid >= simulators.size()) {
         std::cout << "Invalid argument: simulator ID not found!" << std::endl;
         metaError = 2;
 
@@ -3527,7 +3546,7 @@ MICROSOFT_QUANTUM_DECL uintq clone_qneuron(_In_ uintq nid)
 {
     META_LOCK_GUARD()
 
-    if (nid > neurons.size()) {
+    if (nid >= neurons.size()) {
         std::cout << "Invalid argument: neuron ID not found!" << std::endl;
         metaError = 2;
 
@@ -3567,6 +3586,14 @@ MICROSOFT_QUANTUM_DECL uintq clone_qneuron(_In_ uintq nid)
 MICROSOFT_QUANTUM_DECL void destroy_qneuron(_In_ uintq nid)
 {
     META_LOCK_GUARD()
+
+    if (nid >= neurons.size()) {
+        std::cout << "Invalid argument: neuron ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     neuronMutexes.erase(neurons[nid].get());
     neurons[nid] = nullptr;
     neuronErrors[nid] = 0;
@@ -3718,7 +3745,7 @@ uintq _init_qcircuit_copy(uintq cid, bool isInverse, std::set<bitLenInt> q)
 {
     META_LOCK_GUARD()
 
-    if (cid > circuits.size()) {
+    if (cid >= circuits.size()) {
         std::cout << "Invalid argument: circuit ID not found!" << std::endl;
         metaError = 2;
 
@@ -3768,6 +3795,14 @@ MICROSOFT_QUANTUM_DECL uintq qcircuit_past_light_cone(_In_ uintq cid, _In_ uintq
 MICROSOFT_QUANTUM_DECL void destroy_qcircuit(_In_ uintq cid)
 {
     META_LOCK_GUARD()
+
+    if (cid >= circuits.size()) {
+        std::cout << "Invalid argument: circuit ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
     circuitMutexes.erase(circuits[cid].get());
     circuits[cid] = nullptr;
     circuitReservations[cid] = false;
-- 
2.43.0


From 719ff683ebc5d697f389a45ca2fae1468d481c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:29 +0000
Subject: [PATCH 45/45] fix: C interface dereferenced the null simulator of a
 destroyed id, or of one whose creation failed

---
 src/pinvoke_api.cpp | 74 ++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 69 insertions(+), 5 deletions(-)

diff --git a/src/pinvoke_api.cpp b/src/pinvoke_api.cpp
index 1261181..a2a576a 100644
--- a/src/pinvoke_api.cpp
+++ b/src/pinvoke_api.cpp
@@ -714,7 +714,7 @@ MICROSOFT_QUANTUM_DECL uintq init_count_type(_In_ uintq q, _In_ bool tn, _In_ bo
         simulatorErrors[sid] = isSuccess ? 0 : 1;
     }
 
-    if (!q) {
+    if (!simulator) {
         return sid;
     }
 
@@ -768,7 +768,7 @@ MICROSOFT_QUANTUM_DECL uintq init_count(_In_ uintq q, _In_ bool hp)
         simulatorErrors[sid] = isSuccess ? 0 : 1;
     }
 
-    if (!q) {
+    if (!simulator) {
         return sid;
     }
 
@@ -839,7 +839,7 @@ MICROSOFT_QUANTUM_DECL uintq init_count_pager(_In_ uintq q, _In_ bool hp)
         simulatorErrors[sid] = isSuccess ? 0 : 1;
     }
 
-    if (!q) {
+    if (!simulator) {
         return sid;
     }
 
@@ -863,6 +863,13 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
     }
 
     QInterfacePtr oSimulator = simulators[sid];
+    if (!oSimulator) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return 0U;
+    }
+
     std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock(
         new const std::lock_guard<std::mutex>(simulatorMutexes[oSimulator.get()]));
 
@@ -899,6 +906,10 @@ MICROSOFT_QUANTUM_DECL uintq init_clone(_In_ uintq sid)
         simulatorErrors[nsid] = isSuccess ? 0 : 1;
     }
 
+    if (!simulator) {
+        return nsid;
+    }
+
     FillSimShards(simulator);
 
     return nsid;
@@ -916,6 +927,13 @@ uintq init_clone_size(uintq sid, uintq n)
     }
 
     QInterfacePtr oSimulator = simulators[sid];
+    if (!oSimulator) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return 0U;
+    }
+
     std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock(
         new const std::lock_guard<std::mutex>(simulatorMutexes[oSimulator.get()]));
 
@@ -953,6 +971,10 @@ uintq init_clone_size(uintq sid, uintq n)
         simulatorErrors[nsid] = isSuccess ? 0 : 1;
     }
 
+    if (!simulator) {
+        return nsid;
+    }
+
     FillSimShards(simulator);
 
     return nsid;
@@ -1305,8 +1327,23 @@ MICROSOFT_QUANTUM_DECL void allocateQubit(_In_ uintq sid, _In_ uintq qid)
         return;
     }
 
-    QInterfacePtr nQubit = CreateQuantumInterface(
-        simulatorTypes[sid], 1U, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, simulatorHostPointer[sid]);
+    if (!simulatorReservations[sid]) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return;
+    }
+
+    QInterfacePtr nQubit;
+    try {
+        nQubit = CreateQuantumInterface(
+            simulatorTypes[sid], 1U, ZERO_BCI, randNumGen, CMPLX_DEFAULT_ARG, false, true, simulatorHostPointer[sid]);
+    } catch (const std::exception& ex) {
+        simulatorErrors[sid] = 1;
+        std::cout << ex.what() << std::endl;
+
+        return;
+    }
 
     if (!simulators[sid]) {
         simulators[sid] = nQubit;
@@ -1347,6 +1384,13 @@ MICROSOFT_QUANTUM_DECL bool release(_In_ uintq sid, _In_ uintq q)
     }
 
     QInterfacePtr simulator = simulators[sid];
+    if (!simulator) {
+        std::cout << "Invalid argument: simulator ID not found!" << std::endl;
+        metaError = 2;
+
+        return 0U;
+    }
+
     std::unique_ptr<const std::lock_guard<std::mutex>> simulatorLock(
         new const std::lock_guard<std::mutex>(simulatorMutexes[simulator.get()]));
 
@@ -2290,6 +2334,12 @@ MICROSOFT_QUANTUM_DECL uintq Decompose(_In_ uintq sid, _In_ uintq n, _In_reads_(
 
     SIMULATOR_LOCK_GUARD_INT(sid)
 
+    if (!simulators[nSid]) {
+        simulatorErrors[sid] = 1;
+
+        return nSid;
+    }
+
     bitLenInt nQubitIndex = 0U;
 
     try {
@@ -3554,6 +3604,13 @@ MICROSOFT_QUANTUM_DECL uintq clone_qneuron(_In_ uintq nid)
     }
 
     QNeuronPtr neuron = neurons[nid];
+    if (!neuron) {
+        std::cout << "Invalid argument: neuron ID not found!" << std::endl;
+        metaError = 2;
+
+        return 0U;
+    }
+
     std::unique_ptr<const std::lock_guard<std::mutex>> neuronLock(
         new const std::lock_guard<std::mutex>(neuronMutexes[neuron.get()]));
 
@@ -3753,6 +3810,13 @@ uintq _init_qcircuit_copy(uintq cid, bool isInverse, std::set<bitLenInt> q)
     }
 
     QCircuitPtr circuit = circuits[cid];
+    if (!circuit) {
+        std::cout << "Invalid argument: circuit ID not found!" << std::endl;
+        metaError = 2;
+
+        return 0U;
+    }
+
     std::unique_ptr<const std::lock_guard<std::mutex>> circuitLock(
         new const std::lock_guard<std::mutex>(circuitMutexes[circuit.get()]));
 
-- 
2.43.0

