From b770a76a528b5f23a2725e9ce628b1a563089af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 01/56] fix: include the headers of the operators registered in
 FactoryOp.cpp

---
 libs/api/src/FactoryOp.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index cb51796..32b1184 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -15,6 +15,7 @@
 #include "rtbot/std/And.h"
 #include "rtbot/std/AutoRegressive.h"
 #include "rtbot/std/Constant.h"
+#include "rtbot/std/ConstantResampler.h"
 #include "rtbot/std/CosineResampler.h"
 #include "rtbot/std/Count.h"
 #include "rtbot/std/CumulativeSum.h"
@@ -22,6 +23,7 @@
 #include "rtbot/std/Division.h"
 #include "rtbot/std/EqualTo.h"
 #include "rtbot/std/FiniteImpulseResponse.h"
+#include "rtbot/std/Function.h"
 #include "rtbot/std/GreaterThan.h"
 #include "rtbot/std/GreaterThanStream.h"
 #include "rtbot/std/HermiteResampler.h"
-- 
2.43.0


From e9a9be033927ec646a266e6d7e2a989859d3535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 02/56] fix: Join keeps aligning its ports until no unmatched
 message hides a match

---
 libs/core/include/rtbot/Join.h | 44 +++++++++++++---------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/libs/core/include/rtbot/Join.h b/libs/core/include/rtbot/Join.h
index 1488335..0e31a18 100644
--- a/libs/core/include/rtbot/Join.h
+++ b/libs/core/include/rtbot/Join.h
@@ -42,35 +42,25 @@ class Join : public Operator<T, V> {
   }
 
   virtual ProgramMessage<T, V> executeData() override {
-    string inputPort;
-    auto in = this->getDataInputs();
-    inputPort = in.at(0);
-
-    if (this->dataInputs.find(inputPort)->second.empty()) return {};
-    T latest = this->dataInputs.find(inputPort)->second.front().time;
-
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
-      if (it->second.empty())
-        return {};
-      else if (it->second.front().time > latest) {
-        inputPort = it->first;
-        latest = it->second.front().time;
-      }
-    }
-
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
-      if (it->first == inputPort) continue;
-      while (!it->second.empty() && (it->second.front().time < this->dataInputs.find(inputPort)->second.front().time)) {
-        it->second.setSum(it->second.getSum() - it->second.front().value);
-        it->second.pop_front();
+    // Align the fronts of all the ports: drop every message older than the newest
+    // front, and repeat, because what is left behind a dropped message may be newer.
+    bool all_ready = false;
+    while (!all_ready) {
+      bool first = true;
+      T latest{};
+      for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
+        if (it->second.empty()) return {};
+        if (first || it->second.front().time > latest) latest = it->second.front().time;
+        first = false;
       }
-    }
 
-    bool all_ready = true;
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
-      if (it->second.empty() || (it->second.front().time > this->dataInputs.find(inputPort)->second.front().time)) {
-        all_ready = false;
-        break;
+      all_ready = true;
+      for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
+        while (!it->second.empty() && (it->second.front().time < latest)) {
+          it->second.setSum(it->second.getSum() - it->second.front().value);
+          it->second.pop_front();
+        }
+        if (it->second.empty() || it->second.front().time > latest) all_ready = false;
       }
     }
 
-- 
2.43.0


From ed0e65ba3c308645b0d0275907e2e11f317b6ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 03/56] fix: Difference stamps with the older message's time,
 not its value, when so configured

---
 libs/std/include/rtbot/std/Difference.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/Difference.h b/libs/std/include/rtbot/std/Difference.h
index 35c133d..6c3b75c 100644
--- a/libs/std/include/rtbot/std/Difference.h
+++ b/libs/std/include/rtbot/std/Difference.h
@@ -31,7 +31,7 @@ struct Difference : public Operator<T, V> {
     Message<T, V> m0 = this->getDataInputMessage(inputPort, 0);
     Message<T, V> out;
     out.value = m1.value - m0.value;
-    out.time = (this->useOldestTime) ? m1.time : m0.value;
+    out.time = (this->useOldestTime) ? m1.time : m0.time;
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From afdc960b4625b91903bf5da3cc961b68fa033a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 04/56] fix: keep Difference's useOldestTime when writing it as
 JSON and reading it back

---
 libs/api/src/FactoryOp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 32b1184..7108086 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -353,12 +353,12 @@ void from_json(const json& j, Power<T, V>& p) {
 
 template <class T, class V>
 void to_json(json& j, const Difference<T, V>& p) {
-  j = json{{"type", p.typeName()}, {"id", p.id}};
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"useOldestTime", p.getUseOldestTime()}};
 }
 
 template <class T, class V>
 void from_json(const json& j, Difference<T, V>& p) {
-  p = Difference<T, V>(j["id"].get<string>());
+  p = Difference<T, V>(j["id"].get<string>(), j.value("useOldestTime", true));
 }
 
 template <class T, class V>
-- 
2.43.0


From 21a5d0f2fedc7e91c43917e5af525264aea34618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 05/56] fix: Linear matches coefficients to ports by number
 also from ten ports on

---
 libs/std/include/rtbot/std/Linear.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libs/std/include/rtbot/std/Linear.h b/libs/std/include/rtbot/std/Linear.h
index 70b59a9..66dc3b3 100644
--- a/libs/std/include/rtbot/std/Linear.h
+++ b/libs/std/include/rtbot/std/Linear.h
@@ -26,14 +26,14 @@ struct Linear : public Join<T, V> {
 
   OperatorMessage<T, V> processData() override {
     OperatorMessage<T, V> outputMsgs;
-    int i = 0;
     Message<T, V> out;
     out.value = 0;
     out.time = 0;
-    for (auto it = this->dataInputs.begin(); it != this->dataInputs.end(); ++it) {
-      out.value = out.value + it->second.front().value * this->coeff.at(i);
-      out.time = it->second.front().time;
-      i++;
+    // go by port number: the map orders the ports by name, i10 comes before i2
+    for (size_t i = 1; i <= this->coeff.size(); i++) {
+      Message<T, V> msg = this->getDataInputMessage(string("i") + to_string(i), 0);
+      out.value = out.value + msg.value * this->coeff.at(i - 1);
+      out.time = msg.time;
     }
 
     PortMessage<T, V> v;
-- 
2.43.0


From cccf127cef7aa59fb85011ac004f3c695f26828d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 06/56] fix: AutoRegressive applies its coefficients from the
 most recent output backwards, as documented

---
 libs/std/include/rtbot/std/AutoRegressive.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/AutoRegressive.h b/libs/std/include/rtbot/std/AutoRegressive.h
index b40ce25..ae996ee 100644
--- a/libs/std/include/rtbot/std/AutoRegressive.h
+++ b/libs/std/include/rtbot/std/AutoRegressive.h
@@ -60,7 +60,8 @@ struct AutoRegressive : public Operator<T, V> {
       throw runtime_error(typeName() + " : more than 1 input port found");
     size_t n = this->getDataInputMaxSize(inputPort);
     Message<T, V> out = this->getDataInputLastMessage(inputPort);
-    for (auto i = 0; i < n; i++) out.value += this->coeff[i] * this->getDataInputMessage(inputPort, i).value;
+    // the k-th coefficient multiplies the k-th most recent output, the oldest one is at the front
+    for (size_t i = 0; i < n; i++) out.value += this->coeff[i] * this->getDataInputMessage(inputPort, n - 1 - i).value;
     OperatorMessage<T, V> toEmit;
     PortMessage<T, V> v;
     v.push_back(out);
-- 
2.43.0


From 8e1f8a3e716800dcf6e834bbfb0ea973b64bfd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:07 +0000
Subject: [PATCH 07/56] fix: TimeShift handles negative and zero shifts of
 unsigned times

---
 libs/std/include/rtbot/std/TimeShift.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/std/include/rtbot/std/TimeShift.h b/libs/std/include/rtbot/std/TimeShift.h
index 587d0bc..7ffc3c4 100644
--- a/libs/std/include/rtbot/std/TimeShift.h
+++ b/libs/std/include/rtbot/std/TimeShift.h
@@ -32,10 +32,14 @@ struct TimeShift : public Operator<T, V> {
     OperatorMessage<T, V> outputMsgs;
     Message<T, V> out = this->getDataInputLastMessage(inputPort);
 
-    out.time = ((this->dt * this->times < 0) && (out.time > abs((double)(this->dt * this->times))) ||
-                (this->dt * this->times > 0))
-                   ? out.time + this->dt * this->times
-                   : 0;
+    // T may be unsigned: apply the magnitude of the shift in its direction and clamp at zero
+    if (this->times >= 0)
+      out.time = out.time + this->dt * (T)this->times;
+    else {
+      T back = this->dt * (T)(-(long long)this->times);
+      out.time = (out.time > back) ? out.time - back : 0;
+    }
+
     PortMessage<T, V> v;
     v.push_back(out);
     outputMsgs.emplace("o1", v);
-- 
2.43.0


From ab4291f7fea5aea23062504ab21b025874e08edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 08/56] fix: Variable keeps every waiting query and answers
 each as soon as its value is known

---
 libs/std/include/rtbot/std/Variable.h | 78 +++++++++------------------
 1 file changed, 25 insertions(+), 53 deletions(-)

diff --git a/libs/std/include/rtbot/std/Variable.h b/libs/std/include/rtbot/std/Variable.h
index 40ec486..0423eba 100644
--- a/libs/std/include/rtbot/std/Variable.h
+++ b/libs/std/include/rtbot/std/Variable.h
@@ -16,7 +16,7 @@ class Variable : public Operator<T, V> {
     this->value = value;
     this->initialized = false;
     this->addDataInput("i1");
-    this->addControlInput("c1", 1);
+    this->addControlInput("c1");
     this->addOutput("o1");
   }
 
@@ -84,62 +84,34 @@ class Variable : public Operator<T, V> {
     else
       throw std::runtime_error(typeName() + ": " + "should have 1 control port, no more no less");
 
-    if (this->dataInputs.find(inputPort)->second.empty()) return {};
-    if (this->controlInputs.find(controlPort)->second.empty()) return {};
+    auto &data = this->dataInputs.find(inputPort)->second;
+    auto &control = this->controlInputs.find(controlPort)->second;
 
-    T queryTime = this->getControlInputMessage(controlPort, 0).time;
-
-    if (queryTime < this->getDataInputMessage(inputPort, 0).time && !this->initialized) {
+    // answer, in order, every waiting query whose value is already known
+    PortMessage<T, V> v;
+    while (!data.empty() && !control.empty()) {
       Message<T, V> out;
-      out.time = queryTime;
-      out.value = this->value;
-      PortMessage<T, V> v;
-      v.push_back(out);
-      outputMsgs.emplace("o1", v);
-      this->controlInputs.find(controlPort)->second.pop_front();
-      return outputMsgs;
-    } else if (queryTime >= this->getDataInputMessage(inputPort, 0).time) {
-      initialized = true;
-      if (queryTime == this->getDataInputMessage(inputPort, 0).time) {
-        Message<T, V> out;
-        out.time = queryTime;
-        out.value = this->getDataInputMessage(inputPort, 0).value;
-        PortMessage<T, V> v;
-        v.push_back(out);
-        outputMsgs.emplace("o1", v);
-        this->controlInputs.find(controlPort)->second.pop_front();
-        return outputMsgs;
-      }
-      size_t index = 0;
-      while (index < this->dataInputs.find(inputPort)->second.size() - 1) {
-        if (queryTime > this->getDataInputMessage(inputPort, index).time &&
-            queryTime < this->getDataInputMessage(inputPort, index + 1).time) {
-          Message<T, V> out;
-          out.time = queryTime;
-          out.value = this->getDataInputMessage(inputPort, index).value;
-          PortMessage<T, V> v;
-          v.push_back(out);
-          outputMsgs.emplace("o1", v);
-          this->controlInputs.find(controlPort)->second.pop_front();
-          return outputMsgs;
-        } else if (queryTime == this->getDataInputMessage(inputPort, index + 1).time) {
-          Message<T, V> out;
-          out.time = queryTime;
-          out.value = this->getDataInputMessage(inputPort, index + 1).value;
-          PortMessage<T, V> v;
-          v.push_back(out);
-          outputMsgs.emplace("o1", v);
-          this->controlInputs.find(controlPort)->second.pop_front();
-          this->dataInputs.find(inputPort)->second.pop_front();
-          return outputMsgs;
-        } else {
-          this->dataInputs.find(inputPort)->second.pop_front();
-        }
+      out.time = control.front().time;
+
+      if (out.time < data.front().time) {
+        if (this->initialized)
+          throw std::runtime_error(typeName() + ": " + "PortMessage out of order detected");
+        out.value = this->value;
+      } else {
+        this->initialized = true;
+        // drop the definitions that are superseded at the query time
+        while (data.size() > 1 && data.at(1).time <= out.time) data.pop_front();
+        // a newer definition may still arrive for this query
+        if (data.size() == 1 && data.front().time < out.time) break;
+        out.value = data.front().value;
       }
-    } else if (queryTime < this->getDataInputMessage(inputPort, 0).time && this->initialized)
-      throw std::runtime_error(typeName() + ": " + "PortMessage out of order detected");
 
-    return {};
+      v.push_back(out);
+      control.pop_front();
+    }
+
+    if (!v.empty()) outputMsgs.emplace("o1", v);
+    return outputMsgs;
   }
 };
 
-- 
2.43.0


From 771392de7a8d4d4fe4a3efe3f32dced5f4dd158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:21 +0000
Subject: [PATCH 09/56] fix: read a Variable's fractional value from JSON
 without truncating it

---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 7108086..2dc0c8e 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -298,7 +298,7 @@ void to_json(json& j, const Variable<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Variable<T, V>& p) {
-  p = Variable<T, V>(j["id"].get<string>(), j.value("value", 0));
+  p = Variable<T, V>(j["id"].get<string>(), j.value("value", V(0)));
 }
 
 template <class T, class V>
-- 
2.43.0


From 555864a9f0f86c3453159c55f29cef82d65727f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 10/56] fix: Function scales its hermite tangents by the
 segment width

---
 libs/std/include/rtbot/std/Function.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/libs/std/include/rtbot/std/Function.h b/libs/std/include/rtbot/std/Function.h
index 2b1cf91..d5ca530 100644
--- a/libs/std/include/rtbot/std/Function.h
+++ b/libs/std/include/rtbot/std/Function.h
@@ -113,15 +113,18 @@ struct Function : public Operator<T, V> {
     } else {
       if (i == 0 && x < points[0].first) {
         msg.value = hermiteInterpolate(points[0].second, points[1].second, getTangent(0), getTangent(1),
-                                       (x - points[0].first) / (points[1].first - points[0].first));
+                                       (x - points[0].first) / (points[1].first - points[0].first),
+                                       points[1].first - points[0].first);
       } else if (i >= points.size() - 2) {
         size_t last = points.size() - 1;
         msg.value =
             hermiteInterpolate(points[last - 1].second, points[last].second, getTangent(last - 1), getTangent(last),
-                               (x - points[last - 1].first) / (points[last].first - points[last - 1].first));
+                               (x - points[last - 1].first) / (points[last].first - points[last - 1].first),
+                               points[last].first - points[last - 1].first);
       } else {
         msg.value = hermiteInterpolate(points[i].second, points[i + 1].second, getTangent(i), getTangent(i + 1),
-                                       (x - points[i].first) / (points[i + 1].first - points[i].first));
+                                       (x - points[i].first) / (points[i + 1].first - points[i].first),
+                                       points[i + 1].first - points[i].first);
       }
     }
 
@@ -140,7 +143,8 @@ struct Function : public Operator<T, V> {
 
   static V linearInterpolate(V x1, V y1, V x2, V y2, V x) { return y1 + (y2 - y1) * (x - x1) / (x2 - x1); }
 
-  static V hermiteInterpolate(V y0, V y1, V m0, V m1, V mu) {
+  // m0 and m1 are the tangents at both ends of a segment of the given width
+  static V hermiteInterpolate(V y0, V y1, V m0, V m1, V mu, V width) {
     V mu2 = mu * mu;
     V mu3 = mu2 * mu;
     V h00 = 2 * mu3 - 3 * mu2 + 1;
@@ -148,7 +152,7 @@ struct Function : public Operator<T, V> {
     V h01 = -2 * mu3 + 3 * mu2;
     V h11 = mu3 - mu2;
 
-    return h00 * y0 + h10 * m0 + h01 * y1 + h11 * m1;
+    return h00 * y0 + h10 * width * m0 + h01 * y1 + h11 * width * m1;
   }
 
   V getTangent(size_t i) const {
-- 
2.43.0


From 036d9e4d9d5c5288b92eca06bfce9e22f644e1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:42 +0000
Subject: [PATCH 11/56] fix: HermiteResampler looks at the first interval once
 and extrapolates independently of the time origin

---
 libs/std/include/rtbot/std/HermiteResampler.h | 55 +++++++++----------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index 2d0c84d..e64ebb5 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -83,6 +83,7 @@ struct HermiteResampler : public Operator<T, V> {
     PortMessage<T, V> toEmit;
 
     if (before.get() == nullptr) {
+      before = make_unique<Message<T, V>>(this->leftOfFirst(inputPort));
       toEmit = this->lookAt(0, 1, inputPort);
       auto toAdd = this->lookAt(1, 2, inputPort);
       toEmit.insert(toEmit.end(), toAdd.begin(), toAdd.end());
@@ -135,34 +136,33 @@ struct HermiteResampler : public Operator<T, V> {
 
   /*
     This function decides whether data from the buffer should be used to suffice the request
-    or to artificially create a message(point) at the left of the interval [0,1] using the
-    least squares numeric method.
+    or the artificially created message(point) at the left of the interval [0,1].
   */
   Message<T, V> get(int index, string inputPort) {
-    if (index >= 0)
-      return this->getDataInputMessage(inputPort, index);
-    else if (before.get() == nullptr) {
-      vector<T> x;
-      vector<V> y;
-      V average = 0;
-      size_t n = this->getDataInputSize(inputPort);
-      for (int i = 0; i < n; i++) {
-        x.push_back(this->getDataInputMessage(inputPort, i).time);
-        y.push_back(this->getDataInputMessage(inputPort, i).value);
-      }
-      for (size_t i = 1; i < n; i++) {
-        average =
-            average + (this->getDataInputMessage(inputPort, i).time - this->getDataInputMessage(inputPort, i - 1).time);
-      }
-      average = average / (n - 1);
-      pair<V, V> pair = this->getLineLeastSquares(x, y);
-      T time = this->getDataInputMessage(inputPort, 0).time + (index * ((T)average));
-      V value = pair.second * time + pair.first;
-      before = make_unique<Message<T, V>>(Message<T, V>(time, value));
-    }
+    if (index >= 0) return this->getDataInputMessage(inputPort, index);
     return *(before.get());
   }
 
+  /*
+    Creates the message(point) one average time step at the left of the interval [0,1] using the
+    least squares numeric method. Times are taken relative to the first message: they are unsigned
+    and their squares do not fit into the type T.
+  */
+  Message<T, V> leftOfFirst(string inputPort) {
+    size_t n = this->getDataInputSize(inputPort);
+    T origin = this->getDataInputMessage(inputPort, 0).time;
+    vector<V> x;
+    vector<V> y;
+    for (size_t i = 0; i < n; i++) {
+      x.push_back((V)(this->getDataInputMessage(inputPort, i).time - origin));
+      y.push_back(this->getDataInputMessage(inputPort, i).value);
+    }
+    V average = x.back() / (n - 1);
+    pair<V, V> line = this->getLineLeastSquares(x, y);
+    T time = origin > (T)average ? origin - (T)average : 0;
+    return Message<T, V>(time, line.first - line.second * average);
+  }
+
   /*
     Calculation taken from http://www.ccas.ru/mmes/educat/lab04/02/least-squares.c
   */
@@ -171,17 +171,16 @@ struct HermiteResampler : public Operator<T, V> {
       y is the vector of the y-axis
       the coordinates of a point are (x_i;y_i)
   */
-  pair<V, V> getLineLeastSquares(vector<T> x, vector<V> y) {
-    V sumY = 0, sumXY = 0, n, m;
-    T sumX = 0, sumX2 = 0;
+  pair<V, V> getLineLeastSquares(vector<V> x, vector<V> y) {
+    V sumX = 0, sumX2 = 0, sumY = 0, sumXY = 0, n, m;
     for (size_t i = 0; i < x.size(); i++) {
       sumX = sumX + x.at(i);
       sumY = sumY + y.at(i);
       sumXY = sumXY + x.at(i) * y.at(i);
-      sumX2 = sumX2 + pow(x.at(i), 2);
+      sumX2 = sumX2 + x.at(i) * x.at(i);
     }
 
-    T denominator = (x.size() * sumX2 - pow(sumX, 2));
+    V denominator = (x.size() * sumX2 - sumX * sumX);
 
     if (denominator == 0) {
       m = (V)(y.at(1) - y.at(0)) / (V)(x.at(1) - x.at(0));
-- 
2.43.0


From 049c2477585efa43b5b82bb29b5cc9b892f47f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 12/56] fix: RelativeStrengthIndex collects and restores its
 averages

---
 .../rtbot/finance/RelativeStrengthIndex.h     | 38 +++++++++++++++++--
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
index 8f2b857..552a210 100644
--- a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
+++ b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
@@ -18,6 +18,36 @@ struct RelativeStrengthIndex : public Operator<T, V> {
     this->addOutput("o1");
   }
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+
+    // Serialize initialized
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&initialized),
+                 reinterpret_cast<const unsigned char*>(&initialized) + sizeof(initialized));
+
+    // Serialize the previous averages
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&prevAverageGain),
+                 reinterpret_cast<const unsigned char*>(&prevAverageGain) + sizeof(prevAverageGain));
+    bytes.insert(bytes.end(), reinterpret_cast<const unsigned char*>(&prevAverageLoss),
+                 reinterpret_cast<const unsigned char*>(&prevAverageLoss) + sizeof(prevAverageLoss));
+
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator& it) override {
+    Operator<T, V>::restore(it);
+
+    // Deserialize initialized
+    initialized = *reinterpret_cast<const bool*>(&(*it));
+    it += sizeof(initialized);
+
+    // Deserialize the previous averages
+    prevAverageGain = *reinterpret_cast<const V*>(&(*it));
+    it += sizeof(prevAverageGain);
+    prevAverageLoss = *reinterpret_cast<const V*>(&(*it));
+    it += sizeof(prevAverageLoss);
+  }
+
   string typeName() const override { return "RelativeStrengthIndex"; }
 
   OperatorMessage<T, V> processData() override {
@@ -82,10 +112,10 @@ struct RelativeStrengthIndex : public Operator<T, V> {
   }
 
  private:
-  V averageGain;
-  V averageLoss;
-  V prevAverageGain;
-  V prevAverageLoss;
+  V averageGain = 0;
+  V averageLoss = 0;
+  V prevAverageGain = 0;
+  V prevAverageLoss = 0;
   bool initialized = false;
 };
 
-- 
2.43.0


From c15ba9c5173df1005f194fb8d23324f6e89975bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 13/56] fix: pipelines and composites collect and restore the
 state of their inner operators

---
 libs/api/include/rtbot/Pipeline.h   | 19 +++++++++++++++++++
 libs/core/include/rtbot/Composite.h | 19 +++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/libs/api/include/rtbot/Pipeline.h b/libs/api/include/rtbot/Pipeline.h
index bae4a10..f3a6f01 100644
--- a/libs/api/include/rtbot/Pipeline.h
+++ b/libs/api/include/rtbot/Pipeline.h
@@ -34,6 +34,25 @@ struct Pipeline : public Operator<T, V> {
     return *this;
   }
 
+  Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+
+    // Serialize the state of the inner operators
+    for (auto& [opId, op] : all_op) {
+      Bytes opBytes = op->collect();
+      bytes.insert(bytes.end(), opBytes.begin(), opBytes.end());
+    }
+
+    return bytes;
+  }
+
+  void restore(Bytes::const_iterator& it) override {
+    Operator<T, V>::restore(it);
+
+    // Deserialize the state of the inner operators
+    for (auto& [opId, op] : all_op) op->restore(it);
+  }
+
   string typeName() const override { return "Pipeline"; }
 
   void receiveData(Message<T, V> msg, string inputPort = "") override {
diff --git a/libs/core/include/rtbot/Composite.h b/libs/core/include/rtbot/Composite.h
index 486ac2d..2adbe40 100644
--- a/libs/core/include/rtbot/Composite.h
+++ b/libs/core/include/rtbot/Composite.h
@@ -45,6 +45,25 @@ struct Composite : public Operator<T, V>  // TODO: improve from chain to graph
 
   Composite(string const &id) : Operator<T, V>(id) { this->input == nullptr; }
 
+  virtual Bytes collect() override {
+    Bytes bytes = Operator<T, V>::collect();
+
+    // Serialize the state of the inner operators
+    for (auto& [opId, op] : this->ops) {
+      Bytes opBytes = op->collect();
+      bytes.insert(bytes.end(), opBytes.begin(), opBytes.end());
+    }
+
+    return bytes;
+  }
+
+  virtual void restore(Bytes::const_iterator& it) override {
+    Operator<T, V>::restore(it);
+
+    // Deserialize the state of the inner operators
+    for (auto& [opId, op] : this->ops) op->restore(it);
+  }
+
   string typeName() const override { return "Composite"; }
 
   virtual ~Composite() = default;
-- 
2.43.0


From 28a595f2866571df16f6228d4766c21a4cf90294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 14/56] fix: refuse a program whose entry operator is missing
 or has control inputs

---
 libs/api/src/Program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index 09443ce..a761c5f 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -65,14 +65,14 @@ void Program::init() {
     this->all_op.clear();
     this->entryOperator.clear();
     this->outputFilter.clear();
-    runtime_error("Entry operator was not found");
+    throw runtime_error("Entry operator was not found");
   }
 
   if (this->all_op.at(this->entryOperator)->hasControlInputs()) {
     this->all_op.clear();
     this->entryOperator.clear();
     this->outputFilter.clear();
-    runtime_error("Entry operator can not have control inputs");
+    throw runtime_error("Entry operator can not have control inputs");
   }
 }
 
-- 
2.43.0


From 61927e06f6b9573cb1f8dc94c4e011a4b32624b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 15/56] fix: report a missing required member of a program
 definition instead of running into undefined behaviour

---
 libs/api/src/FactoryOp.cpp | 76 +++++++++++++++++++-------------------
 libs/api/src/Pipeline.cpp  |  4 +-
 libs/api/src/Program.cpp   |  4 +-
 3 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 2dc0c8e..3e3b81c 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -58,7 +58,7 @@ void to_json(json& j, const Input<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Input<T, V>& p) {
-  p = Input<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Input<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -68,7 +68,7 @@ void to_json(json& j, const CosineResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, CosineResampler<T, V>& p) {
-  p = CosineResampler<T, V>(j["id"].get<string>(), j["dt"].get<T>());
+  p = CosineResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
 }
 
 template <class T, class V>
@@ -78,7 +78,7 @@ void to_json(json& j, const HermiteResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, HermiteResampler<T, V>& p) {
-  p = HermiteResampler<T, V>(j["id"].get<string>(), j["dt"].get<T>());
+  p = HermiteResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
 }
 
 template <class T, class V>
@@ -88,7 +88,7 @@ void to_json(json& j, const StandardDeviation<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, StandardDeviation<T, V>& p) {
-  p = StandardDeviation<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = StandardDeviation<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -98,7 +98,7 @@ void to_json(json& j, const MovingAverage<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, MovingAverage<T, V>& p) {
-  p = MovingAverage<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = MovingAverage<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -108,7 +108,7 @@ void to_json(json& j, const FiniteImpulseResponse<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, FiniteImpulseResponse<T, V>& p) {
-  p = FiniteImpulseResponse<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = FiniteImpulseResponse<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -118,7 +118,7 @@ void to_json(json& j, const Join<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Join<T, V>& p) {
-  p = Join<T, V>(j["id"].get<string>(), j["numPorts"].get<size_t>());
+  p = Join<T, V>(j.at("id").get<string>(), j.at("numPorts").get<size_t>());
 }
 
 template <class T, class V>
@@ -128,7 +128,7 @@ void to_json(json& j, const Output<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Output<T, V>& p) {
-  p = Output<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Output<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -138,7 +138,7 @@ void to_json(json& j, const PeakDetector<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, PeakDetector<T, V>& p) {
-  p = PeakDetector<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = PeakDetector<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -148,7 +148,7 @@ void to_json(json& j, const Minus<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Minus<T, V>& p) {
-  p = Minus<T, V>(j["id"].get<string>());
+  p = Minus<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -158,7 +158,7 @@ void to_json(json& j, const And<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, And<T, V>& p) {
-  p = And<T, V>(j["id"].get<string>());
+  p = And<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -168,7 +168,7 @@ void to_json(json& j, const Or<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Or<T, V>& p) {
-  p = Or<T, V>(j["id"].get<string>());
+  p = Or<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -178,7 +178,7 @@ void to_json(json& j, const GreaterThanStream<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, GreaterThanStream<T, V>& p) {
-  p = GreaterThanStream<T, V>(j["id"].get<string>());
+  p = GreaterThanStream<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -188,7 +188,7 @@ void to_json(json& j, const LessThanStream<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, LessThanStream<T, V>& p) {
-  p = LessThanStream<T, V>(j["id"].get<string>());
+  p = LessThanStream<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -198,7 +198,7 @@ void to_json(json& j, const Division<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Division<T, V>& p) {
-  p = Division<T, V>(j["id"].get<string>());
+  p = Division<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -208,7 +208,7 @@ void to_json(json& j, const Multiplication<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Multiplication<T, V>& p) {
-  p = Multiplication<T, V>(j["id"].get<string>());
+  p = Multiplication<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -218,7 +218,7 @@ void to_json(json& j, const Plus<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Plus<T, V>& p) {
-  p = Plus<T, V>(j["id"].get<string>());
+  p = Plus<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -228,7 +228,7 @@ void to_json(json& j, const Linear<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Linear<T, V>& p) {
-  p = Linear<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = Linear<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -238,7 +238,7 @@ void to_json(json& j, const AutoRegressive<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, AutoRegressive<T, V>& p) {
-  p = AutoRegressive<T, V>(j["id"].get<string>(), j["coeff"].get<vector<V>>());
+  p = AutoRegressive<T, V>(j.at("id").get<string>(), j.at("coeff").get<vector<V>>());
 }
 
 template <class T, class V>
@@ -248,7 +248,7 @@ void to_json(json& j, const GreaterThan<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, GreaterThan<T, V>& p) {
-  p = GreaterThan<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = GreaterThan<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -258,7 +258,7 @@ void to_json(json& j, const Constant<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Constant<T, V>& p) {
-  p = Constant<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Constant<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -268,7 +268,7 @@ void to_json(json& j, const Add<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Add<T, V>& p) {
-  p = Add<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Add<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -278,7 +278,7 @@ void to_json(json& j, const LessThan<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, LessThan<T, V>& p) {
-  p = LessThan<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = LessThan<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -288,7 +288,7 @@ void to_json(json& j, const EqualTo<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, EqualTo<T, V>& p) {
-  p = EqualTo<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = EqualTo<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -298,7 +298,7 @@ void to_json(json& j, const Variable<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Variable<T, V>& p) {
-  p = Variable<T, V>(j["id"].get<string>(), j.value("value", V(0)));
+  p = Variable<T, V>(j.at("id").get<string>(), j.value("value", V(0)));
 }
 
 template <class T, class V>
@@ -308,7 +308,7 @@ void to_json(json& j, const TimeShift<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, TimeShift<T, V>& p) {
-  p = TimeShift<T, V>(j["id"].get<string>(), j.value("dt", 1), j.value("times", 1));
+  p = TimeShift<T, V>(j.at("id").get<string>(), j.value("dt", 1), j.value("times", 1));
 }
 
 template <class T, class V>
@@ -318,7 +318,7 @@ void to_json(json& j, const CumulativeSum<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, CumulativeSum<T, V>& p) {
-  p = CumulativeSum<T, V>(j["id"].get<string>());
+  p = CumulativeSum<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -328,7 +328,7 @@ void to_json(json& j, const Count<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Count<T, V>& p) {
-  p = Count<T, V>(j["id"].get<string>());
+  p = Count<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -338,7 +338,7 @@ void to_json(json& j, const Scale<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Scale<T, V>& p) {
-  p = Scale<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Scale<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -348,7 +348,7 @@ void to_json(json& j, const Power<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Power<T, V>& p) {
-  p = Power<T, V>(j["id"].get<string>(), j["value"].get<V>());
+  p = Power<T, V>(j.at("id").get<string>(), j.at("value").get<V>());
 }
 
 template <class T, class V>
@@ -358,7 +358,7 @@ void to_json(json& j, const Difference<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Difference<T, V>& p) {
-  p = Difference<T, V>(j["id"].get<string>(), j.value("useOldestTime", true));
+  p = Difference<T, V>(j.at("id").get<string>(), j.value("useOldestTime", true));
 }
 
 template <class T, class V>
@@ -368,7 +368,7 @@ void to_json(json& j, const Demultiplexer<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Demultiplexer<T, V>& p) {
-  p = Demultiplexer<T, V>(j["id"].get<string>(), j.value("numPorts", 1));
+  p = Demultiplexer<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
 }
 
 template <class T, class V>
@@ -378,7 +378,7 @@ void to_json(json& j, const Identity<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Identity<T, V>& p) {
-  p = Identity<T, V>(j["id"].get<string>());
+  p = Identity<T, V>(j.at("id").get<string>());
 }
 
 template <class T, class V>
@@ -388,7 +388,7 @@ void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, RelativeStrengthIndex<T, V>& p) {
-  p = RelativeStrengthIndex<T, V>(j["id"].get<string>(), j["n"].get<size_t>());
+  p = RelativeStrengthIndex<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
 }
 
 template <class T, class V>
@@ -408,7 +408,7 @@ void to_json(json& j, const ConstantResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, ConstantResampler<T, V>& p) {
-  p = ConstantResampler<T, V>(j["id"].get<string>(), j["interval"].get<T>());
+  p = ConstantResampler<T, V>(j.at("id").get<string>(), j.at("interval").get<T>());
 }
 
 template <class T, class V>
@@ -423,10 +423,10 @@ void to_json(json& j, const Function<T, V>& p) {
 template <class T, class V>
 void from_json(const json& j, Function<T, V>& p) {
   vector<pair<V, V>> points;
-  for (const auto& point : j["points"]) {
-    points.push_back({point[0].get<V>(), point[1].get<V>()});
+  for (const auto& point : j.at("points")) {
+    points.push_back({point.at(0).get<V>(), point.at(1).get<V>()});
   }
-  p = Function<T, V>(j["id"].get<string>(), points, j.value("type", "linear"));
+  p = Function<T, V>(j.at("id").get<string>(), points, j.value("type", "linear"));
 }
 
 /* Operators serialization - deserialization - end */
diff --git a/libs/api/src/Pipeline.cpp b/libs/api/src/Pipeline.cpp
index dccf6ea..6688242 100644
--- a/libs/api/src/Pipeline.cpp
+++ b/libs/api/src/Pipeline.cpp
@@ -28,7 +28,7 @@ inline void to_json(json& j, const OpConnection& p) {
 }
 
 inline void from_json(const json& j, OpConnection& p) {
-  p = OpConnection(j["from"].get<string>(), j["to"].get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
+  p = OpConnection(j.at("from").get<string>(), j.at("to").get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
 }
 
 template<class T, class V>
@@ -41,7 +41,7 @@ Pipeline<T,V>::Pipeline(string const& id, const string& json_prog_)
 
     for (const json& x : j.at("operators")) {
       pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
-      it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+      it = all_op.emplace(x.at("id"), FactoryOp::readOp(x.dump().c_str()));
     }
 
     // make connections, save the used in/out ports
diff --git a/libs/api/src/Program.cpp b/libs/api/src/Program.cpp
index a761c5f..b53b928 100644
--- a/libs/api/src/Program.cpp
+++ b/libs/api/src/Program.cpp
@@ -30,7 +30,7 @@ inline void to_json(json& j, const OpConnection& p) {
 }
 
 inline void from_json(const json& j, OpConnection& p) {
-  p = OpConnection(j["from"].get<string>(), j["to"].get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
+  p = OpConnection(j.at("from").get<string>(), j.at("to").get<string>(), j.value("toPort", ""), j.value("fromPort", ""));
 }
 
 Program::Program(const string& json_string) {
@@ -51,7 +51,7 @@ void Program::init() {
 
   for (const json& x : j.at("operators")) {
     pair<map<string, Op_ptr<uint64_t, double>>::iterator, bool> it;
-    it = all_op.emplace(x["id"], FactoryOp::readOp(x.dump().c_str()));
+    it = all_op.emplace(x.at("id"), FactoryOp::readOp(x.dump().c_str()));
   }
 
   // connections
-- 
2.43.0


From eb5b682d6d28586d2a5e869b589d803ca38b0f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 16/56] fix: deleting a program drops its buffered messages

---
 libs/api/include/rtbot/FactoryOp.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 9449778..0b0f8e8 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -63,7 +63,10 @@ class FactoryOp {
 
   string createProgram(string const& id, string const& json_program);
 
-  bool deleteProgram(string const& id) { return (programs.erase(id) == 1) ? true : false; }
+  bool deleteProgram(string const& id) {
+    this->messageBuffer.erase(id);
+    return (programs.erase(id) == 1) ? true : false;
+  }
 
   bool addToMessageBuffer(const string& apId, const string& portId, Message<uint64_t, double> msg) {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
-- 
2.43.0


From ecc4883495ad70e418fa6a53df960ee114cce76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:09 +0000
Subject: [PATCH 17/56] fix: a message buffer that failed to process is not
 processed again

---
 libs/api/include/rtbot/FactoryOp.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 0b0f8e8..33d67d5 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -78,9 +78,10 @@ class FactoryOp {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
     if (this->messageBuffer.count(apId) > 0) {
       if (!this->messageBuffer.at(apId).empty()) {
-        auto result = processMessageMap(apId, this->messageBuffer.at(apId));
-        this->messageBuffer.at(apId).clear();
+        // empty the buffer first, the messages must not be seen again if processing them fails
+        auto messages = std::move(this->messageBuffer.at(apId));
         this->messageBuffer.erase(apId);
+        auto result = processMessageMap(apId, messages);
         if (!result.empty()) return result;
       }
     }
@@ -91,9 +92,10 @@ class FactoryOp {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
     if (this->messageBuffer.count(apId) > 0) {
       if (!this->messageBuffer.at(apId).empty()) {
-        auto result = processMessageMapDebug(apId, this->messageBuffer.at(apId));
-        this->messageBuffer.at(apId).clear();
+        // empty the buffer first, the messages must not be seen again if processing them fails
+        auto messages = std::move(this->messageBuffer.at(apId));
         this->messageBuffer.erase(apId);
+        auto result = processMessageMapDebug(apId, messages);
         if (!result.empty()) return result;
       }
     }
-- 
2.43.0


From 9ba23a9fcc020f02786723ed98e757cb352ae570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:10 +0000
Subject: [PATCH 18/56] fix: processing a message map of an unknown program is
 an error

---
 libs/api/include/rtbot/FactoryOp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index 33d67d5..d8eef82 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -120,14 +120,14 @@ class FactoryOp {
   ProgramMessage<uint64_t, double> processMessageMap(string const& apId,
                                                      const OperatorMessage<uint64_t, double>& messagesMap) {
     auto it = programs.find(apId);
-    if (it == programs.end()) return {};
+    if (it == programs.end()) throw runtime_error("Program " + apId + " was not found");
     return it->second.receive(messagesMap);
   }
 
   ProgramMessage<uint64_t, double> processMessageMapDebug(string const& apId,
                                                           const OperatorMessage<uint64_t, double>& messagesMap) {
     auto it = programs.find(apId);
-    if (it == programs.end()) return {};
+    if (it == programs.end()) throw runtime_error("Program " + apId + " was not found");
     return it->second.receiveDebug(messagesMap);
   }
 };
-- 
2.43.0


From b136d8485eb7bc4d4ccccc5c1db4765f2566813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 19/56] fix: refuse messages for an unknown entry port before
 they take any effect

---
 libs/api/include/rtbot/FactoryOp.h |  8 +++++++-
 libs/api/include/rtbot/Program.h   | 13 +++++++++++++
 libs/api/src/bindings.cpp          |  3 +++
 3 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/libs/api/include/rtbot/FactoryOp.h b/libs/api/include/rtbot/FactoryOp.h
index d8eef82..d9c006e 100644
--- a/libs/api/include/rtbot/FactoryOp.h
+++ b/libs/api/include/rtbot/FactoryOp.h
@@ -68,8 +68,14 @@ class FactoryOp {
     return (programs.erase(id) == 1) ? true : false;
   }
 
-  bool addToMessageBuffer(const string& apId, const string& portId, Message<uint64_t, double> msg) {
+  void checkEntryPort(const string& apId, const string& portId) {
     if (this->programs.count(apId) == 0) throw runtime_error("Program " + apId + " was not found");
+    if (!this->programs.at(apId).hasEntryPort(portId))
+      throw runtime_error("Program " + apId + " has no entry port " + portId);
+  }
+
+  bool addToMessageBuffer(const string& apId, const string& portId, Message<uint64_t, double> msg) {
+    checkEntryPort(apId, portId);
     this->messageBuffer[apId][portId].push_back(msg);
     return true;
   }
diff --git a/libs/api/include/rtbot/Program.h b/libs/api/include/rtbot/Program.h
index d3d2f61..649aa6e 100644
--- a/libs/api/include/rtbot/Program.h
+++ b/libs/api/include/rtbot/Program.h
@@ -65,6 +65,14 @@ struct Program {
     return this->all_op.at(entryOperator)->getDataInputs();
   }
 
+  /// whether messages can be sent to the given port of the entry operator,
+  /// the port can be left out if there is only one
+  bool hasEntryPort(string const& port) {
+    auto ports = getProgramEntryPorts();
+    if (port.empty()) return ports.size() == 1;
+    return find(ports.begin(), ports.end(), port) != ports.end();
+  }
+
   map<string, vector<string>> getProgramOutputFilter() { return this->outputFilter; }
 
   /// return a list of output ports from the output operator that emitted: id, output message
@@ -102,6 +110,11 @@ struct Program {
     if (this->all_op.count(this->entryOperator) == 0)
       throw runtime_error("Entry operator " + this->entryOperator + " was not found");
 
+    // refuse the messages as a whole, before any of them takes effect
+    for (auto it = messagesMap.begin(); it != messagesMap.end(); ++it)
+      if (!hasEntryPort(it->first))
+        throw runtime_error("Entry operator " + this->entryOperator + " has no port " + it->first);
+
     ProgramMessage<uint64_t, double> opResults;
 
     for (auto it = messagesMap.begin(); it != messagesMap.end(); ++it) {
diff --git a/libs/api/src/bindings.cpp b/libs/api/src/bindings.cpp
index be89eb0..f66d139 100644
--- a/libs/api/src/bindings.cpp
+++ b/libs/api/src/bindings.cpp
@@ -158,6 +158,9 @@ void addBatchToMessageBuffers(string const& programId, vector<uint64_t> times, v
   if (times.size() != values.size() || times.size() != ports.size() || values.size() != ports.size())
     throw std::runtime_error("vectors passed to processBatch are not of the same length");
 
+  // refuse the batch as a whole, before any of its messages is buffered
+  for (auto const& portId : ports) factory.checkEntryPort(programId, portId);
+
   // fill the message buffers
   for (size_t i = 0; i < times.size(); i++) {
     auto time = times[i];
-- 
2.43.0


From ed683938fd60b6ff5f40283b5cb55492e66b9649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 20/56] fix: name Function's interpolation type apart from the
 operator type in JSON

---
 libs/api/src/FactoryOp.cpp             | 4 ++--
 libs/std/include/rtbot/std/Function.md | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 3e3b81c..2a110e5 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -417,7 +417,7 @@ void to_json(json& j, const Function<T, V>& p) {
   for (const auto& point : p.getPoints()) {
     points_array.push_back({point.first, point.second});
   }
-  j = json{{"type", p.typeName()}, {"id", p.id}, {"points", points_array}, {"type", p.getInterpolationType()}};
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"points", points_array}, {"interpolationType", p.getInterpolationType()}};
 }
 
 template <class T, class V>
@@ -426,7 +426,7 @@ void from_json(const json& j, Function<T, V>& p) {
   for (const auto& point : j.at("points")) {
     points.push_back({point.at(0).get<V>(), point.at(1).get<V>()});
   }
-  p = Function<T, V>(j.at("id").get<string>(), points, j.value("type", "linear"));
+  p = Function<T, V>(j.at("id").get<string>(), points, j.value("interpolationType", "linear"));
 }
 
 /* Operators serialization - deserialization - end */
diff --git a/libs/std/include/rtbot/std/Function.md b/libs/std/include/rtbot/std/Function.md
index 233e237..698f06b 100644
--- a/libs/std/include/rtbot/std/Function.md
+++ b/libs/std/include/rtbot/std/Function.md
@@ -23,7 +23,7 @@ jsonschema:
         maxItems: 2
         items:
           type: number
-    type:
+    interpolationType:
       type: string
       enum: ["linear", "hermite"]
       default: "linear"
-- 
2.43.0


From bdd6d8e5b38d54c396f4d934c8f9da63d4eb3c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 21/56] fix: a Join without numPorts has the documented two
 ports

---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 2a110e5..ad12bca 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -118,7 +118,7 @@ void to_json(json& j, const Join<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Join<T, V>& p) {
-  p = Join<T, V>(j.at("id").get<string>(), j.at("numPorts").get<size_t>());
+  p = Join<T, V>(j.at("id").get<string>(), j.value("numPorts", size_t(2)));
 }
 
 template <class T, class V>
-- 
2.43.0


From 8429d272be2ce6688d4d84dee6683abb1d6218ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 22/56] fix: refuse window sizes, coefficient lists and time
 steps that an operator cannot work with

---
 libs/finance/include/rtbot/finance/RelativeStrengthIndex.h | 2 ++
 libs/std/include/rtbot/std/AutoRegressive.h                | 2 ++
 libs/std/include/rtbot/std/CosineResampler.h               | 2 ++
 libs/std/include/rtbot/std/CosineResampler.md              | 1 +
 libs/std/include/rtbot/std/FiniteImpulseResponse.h         | 2 ++
 libs/std/include/rtbot/std/FiniteImpulseResponse.md        | 1 +
 libs/std/include/rtbot/std/HermiteResampler.h              | 2 ++
 libs/std/include/rtbot/std/HermiteResampler.md             | 1 +
 libs/std/include/rtbot/std/Linear.md                       | 2 +-
 libs/std/include/rtbot/std/MovingAverage.h                 | 2 ++
 libs/std/include/rtbot/std/MovingAverage.md                | 1 +
 libs/std/include/rtbot/std/PeakDetector.h                  | 2 ++
 libs/std/include/rtbot/std/PeakDetector.md                 | 1 +
 libs/std/include/rtbot/std/StandardDeviation.h             | 2 ++
 libs/std/include/rtbot/std/StandardDeviation.md            | 3 ++-
 15 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
index 552a210..a1ba67d 100644
--- a/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
+++ b/libs/finance/include/rtbot/finance/RelativeStrengthIndex.h
@@ -14,6 +14,8 @@ struct RelativeStrengthIndex : public Operator<T, V> {
   RelativeStrengthIndex() = default;
 
   RelativeStrengthIndex(string const& id, size_t n) : Operator<T, V>(id), initialized(false) {
+    if (n < 1) throw runtime_error(typeName() + ": the window size has to be greater than or equal 1");
+
     this->addDataInput("i1", n + 1);
     this->addOutput("o1");
   }
diff --git a/libs/std/include/rtbot/std/AutoRegressive.h b/libs/std/include/rtbot/std/AutoRegressive.h
index ae996ee..b2abfe9 100644
--- a/libs/std/include/rtbot/std/AutoRegressive.h
+++ b/libs/std/include/rtbot/std/AutoRegressive.h
@@ -14,6 +14,8 @@ struct AutoRegressive : public Operator<T, V> {
   AutoRegressive() = default;
 
   AutoRegressive(string const& id, vector<V> const& coeff) : Operator<T, V>(id) {
+    if (coeff.empty()) throw runtime_error(typeName() + ": at least 1 coefficient is required");
+
     this->coeff = coeff;
     this->addDataInput("i1", this->coeff.size());
     this->addOutput("o1");
diff --git a/libs/std/include/rtbot/std/CosineResampler.h b/libs/std/include/rtbot/std/CosineResampler.h
index b599ff5..7928ed0 100644
--- a/libs/std/include/rtbot/std/CosineResampler.h
+++ b/libs/std/include/rtbot/std/CosineResampler.h
@@ -20,6 +20,8 @@ struct CosineResampler : public Operator<T, V> {
   CosineResampler() = default;
 
   CosineResampler(string const &id, T dt) : Operator<T, V>(id) {
+    if (dt <= 0) throw runtime_error(typeName() + ": time interval must be positive");
+
     this->dt = dt;
     this->carryOver = 0;
     this->addDataInput("i1", CosineResampler::size);
diff --git a/libs/std/include/rtbot/std/CosineResampler.md b/libs/std/include/rtbot/std/CosineResampler.md
index d0749b0..dd28152 100644
--- a/libs/std/include/rtbot/std/CosineResampler.md
+++ b/libs/std/include/rtbot/std/CosineResampler.md
@@ -15,6 +15,7 @@ jsonschema:
       description: The id of the operator
     dt:
       type: integer
+      minimum: 1
       examples:
         - 5
       description: The size to transform the input grid steps, if any, on dt steps
diff --git a/libs/std/include/rtbot/std/FiniteImpulseResponse.h b/libs/std/include/rtbot/std/FiniteImpulseResponse.h
index 22a2296..e16dc00 100644
--- a/libs/std/include/rtbot/std/FiniteImpulseResponse.h
+++ b/libs/std/include/rtbot/std/FiniteImpulseResponse.h
@@ -12,6 +12,8 @@ struct FiniteImpulseResponse : public Operator<T, V> {
   FiniteImpulseResponse() = default;
 
   FiniteImpulseResponse(string const& id, vector<V> coeff) : Operator<T, V>(id) {
+    if (coeff.empty()) throw runtime_error(typeName() + ": at least 1 coefficient is required");
+
     this->addDataInput("i1", coeff.size());
     this->addOutput("o1");
     this->coeff = coeff;
diff --git a/libs/std/include/rtbot/std/FiniteImpulseResponse.md b/libs/std/include/rtbot/std/FiniteImpulseResponse.md
index c66ebe9..1ad51f5 100644
--- a/libs/std/include/rtbot/std/FiniteImpulseResponse.md
+++ b/libs/std/include/rtbot/std/FiniteImpulseResponse.md
@@ -18,6 +18,7 @@ jsonschema:
       examples: 
         - [1, 0, -1]
       description: The vector of coefficients to be combined with the buffered message values.
+      minItems: 1
       items:
         type: number
   required: ["id", "coeff"]
diff --git a/libs/std/include/rtbot/std/HermiteResampler.h b/libs/std/include/rtbot/std/HermiteResampler.h
index e64ebb5..be6c6bb 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.h
+++ b/libs/std/include/rtbot/std/HermiteResampler.h
@@ -21,6 +21,8 @@ struct HermiteResampler : public Operator<T, V> {
   HermiteResampler() = default;
 
   HermiteResampler(string const& id, T dt) : Operator<T, V>(id) {
+    if (dt <= 0) throw runtime_error(typeName() + ": time interval must be positive");
+
     this->dt = dt;
     this->carryOver = 0;
     this->addDataInput("i1", HermiteResampler::size);
diff --git a/libs/std/include/rtbot/std/HermiteResampler.md b/libs/std/include/rtbot/std/HermiteResampler.md
index c295e73..5fe288d 100644
--- a/libs/std/include/rtbot/std/HermiteResampler.md
+++ b/libs/std/include/rtbot/std/HermiteResampler.md
@@ -15,6 +15,7 @@ jsonschema:
       description: The id of the operator
     dt:
       type: integer
+      minimum: 1
       examples:
         - 5
       description: The size to transform the input grid steps, if any, on dt steps
diff --git a/libs/std/include/rtbot/std/Linear.md b/libs/std/include/rtbot/std/Linear.md
index 3652d7c..6ed2f90 100644
--- a/libs/std/include/rtbot/std/Linear.md
+++ b/libs/std/include/rtbot/std/Linear.md
@@ -21,7 +21,7 @@ jsonschema:
       minItems: 2
       items:
         type: number
-  required: ["id"]
+  required: ["id", "coeff"]
 ---
 
 # Linear
diff --git a/libs/std/include/rtbot/std/MovingAverage.h b/libs/std/include/rtbot/std/MovingAverage.h
index 4d26cca..981da8b 100644
--- a/libs/std/include/rtbot/std/MovingAverage.h
+++ b/libs/std/include/rtbot/std/MovingAverage.h
@@ -12,6 +12,8 @@ struct MovingAverage : public Operator<T, V> {
   MovingAverage() = default;
 
   MovingAverage(string const& id, size_t n) : Operator<T, V>(id) {
+    if (n < 1) throw runtime_error(typeName() + ": the window size has to be greater than or equal 1");
+
     this->addDataInput("i1", n);
     this->addOutput("o1");
   }
diff --git a/libs/std/include/rtbot/std/MovingAverage.md b/libs/std/include/rtbot/std/MovingAverage.md
index 6a1b2f6..8d0115c 100644
--- a/libs/std/include/rtbot/std/MovingAverage.md
+++ b/libs/std/include/rtbot/std/MovingAverage.md
@@ -15,6 +15,7 @@ jsonschema:
       description: The id of the operator
     n:
       type: integer
+      minimum: 1
       examples:
         - 20
       description: The window size, in grid steps, to be used in the computation.
diff --git a/libs/std/include/rtbot/std/PeakDetector.h b/libs/std/include/rtbot/std/PeakDetector.h
index 5259bdb..ccd6f65 100644
--- a/libs/std/include/rtbot/std/PeakDetector.h
+++ b/libs/std/include/rtbot/std/PeakDetector.h
@@ -12,6 +12,8 @@ struct PeakDetector : Operator<T, V> {
   PeakDetector() = default;
 
   PeakDetector(string const& id, size_t n) : Operator<T, V>(id) {
+    if (n < 1) throw runtime_error(typeName() + ": the window size has to be greater than or equal 1");
+
     this->addDataInput("i1", n);
     this->addOutput("o1");
   }
diff --git a/libs/std/include/rtbot/std/PeakDetector.md b/libs/std/include/rtbot/std/PeakDetector.md
index 6efd6b0..624eaf2 100644
--- a/libs/std/include/rtbot/std/PeakDetector.md
+++ b/libs/std/include/rtbot/std/PeakDetector.md
@@ -15,6 +15,7 @@ jsonschema:
       description: The id of the operator
     n:
       type: integer
+      minimum: 1
       examples:
         - 3.0
       description: The window size, in grid steps, to be used in the computation.
diff --git a/libs/std/include/rtbot/std/StandardDeviation.h b/libs/std/include/rtbot/std/StandardDeviation.h
index 05d7c15..66bfef5 100644
--- a/libs/std/include/rtbot/std/StandardDeviation.h
+++ b/libs/std/include/rtbot/std/StandardDeviation.h
@@ -16,6 +16,8 @@ struct StandardDeviation : public Operator<T, V> {
   StandardDeviation() = default;
 
   StandardDeviation(string const &id, size_t n) : Operator<T, V>(id) {
+    if (n < 1) throw runtime_error(typeName() + ": the window size has to be greater than or equal 1");
+
     this->addDataInput("i1", n);
     this->addOutput("o1");
   }
diff --git a/libs/std/include/rtbot/std/StandardDeviation.md b/libs/std/include/rtbot/std/StandardDeviation.md
index 6e1e0d2..e5fcfca 100644
--- a/libs/std/include/rtbot/std/StandardDeviation.md
+++ b/libs/std/include/rtbot/std/StandardDeviation.md
@@ -14,7 +14,8 @@ jsonschema:
       type: string
       description: The id of the operator
     n:
-      type: number
+      type: integer
+      minimum: 1
       examples:
         - 20
       description: The number of grid steps to use to compute the standard deviation.
-- 
2.43.0


From 36ab44de3735e6ba421522756fdf464ace4ffdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 23/56] fix: read large TimeShift steps from JSON without
 truncating them

---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index ad12bca..4d1dead 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -308,7 +308,7 @@ void to_json(json& j, const TimeShift<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, TimeShift<T, V>& p) {
-  p = TimeShift<T, V>(j.at("id").get<string>(), j.value("dt", 1), j.value("times", 1));
+  p = TimeShift<T, V>(j.at("id").get<string>(), j.value("dt", T(1)), j.value("times", 1));
 }
 
 template <class T, class V>
-- 
2.43.0


From b438927362371b2c9ce79392a190c37e441834ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 24/56] fix: write RelativeStrengthIndex's n as it was given

---
 libs/api/src/FactoryOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 4d1dead..34572e9 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -383,7 +383,7 @@ void from_json(const json& j, Identity<T, V>& p) {
 
 template <class T, class V>
 void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
-  j = json{{"type", p.typeName()}, {"id", p.id}, {"n", p.getDataInputMaxSize()}};
+  j = json{{"type", p.typeName()}, {"id", p.id}, {"n", p.getDataInputMaxSize() - 1}};
 }
 
 template <class T, class V>
-- 
2.43.0


From cad1909c35d5db01d7a86ebf04722a0cb5bfce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:43 +0000
Subject: [PATCH 25/56] fix: process a waiting message before another branch
 delivers to the same port

---
 libs/core/include/rtbot/Operator.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libs/core/include/rtbot/Operator.h b/libs/core/include/rtbot/Operator.h
index 90de551..859cd7b 100644
--- a/libs/core/include/rtbot/Operator.h
+++ b/libs/core/include/rtbot/Operator.h
@@ -478,9 +478,12 @@ class Operator {
         out.find(this->id)->second.emplace(outputPort, v);
       if (this->outputs.count(outputPort) > 0) {
         for (auto connection : outputs.find(outputPort)->second) {
-          if (connection.fOperator->isDataInput(connection.inputPort))
+          if (connection.fOperator->isDataInput(connection.inputPort)) {
+            // the port still holds a message that reached it through another connection: process that one first
+            if (connection.fOperator->toProcess.count(connection.inputPort) > 0)
+              mergeOutput(out, connection.fOperator->executeData());
             connection.fOperator->receiveData(msg, connection.inputPort);
-          else if (connection.fOperator->isControlInput(connection.inputPort)) {
+          } else if (connection.fOperator->isControlInput(connection.inputPort)) {
             connection.fOperator->receiveControl(msg, connection.inputPort);
           }
         }
-- 
2.43.0


From d08d64d7b10ca3f9251c05d73f6eec8e7f127e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:31 +0000
Subject: [PATCH 26/56] fix: an output port declared twice returns its messages
 once

---
 libs/api/include/rtbot/Program.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/libs/api/include/rtbot/Program.h b/libs/api/include/rtbot/Program.h
index 649aa6e..f0a5f60 100644
--- a/libs/api/include/rtbot/Program.h
+++ b/libs/api/include/rtbot/Program.h
@@ -87,12 +87,8 @@ struct Program {
         auto outResults = opResults.at(op->first);
         for (int i = 0; i < op->second.size(); i++) {
           if (outResults.count(op->second.at(i)) > 0) {
-            OperatorMessage<uint64_t, double> opReturn;
-            opReturn.emplace(op->second.at(i), outResults.at(op->second.at(i)));
-            if (toReturn.count(op->first) == 0)
-              toReturn.emplace(op->first, opReturn);
-            else
-              Operator<uint64_t, double>::mergeOutput(toReturn[op->first], opReturn);
+            // a port that is listed twice still returns its messages once
+            toReturn[op->first].emplace(op->second.at(i), outResults.at(op->second.at(i)));
           }
         }
       }
-- 
2.43.0


From 86baceb0f898a6faeb0945f07b4556c99035554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 27/56] fix: a pipeline names the ports that wait for
 processing as its caller does

---
 libs/api/include/rtbot/Pipeline.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/libs/api/include/rtbot/Pipeline.h b/libs/api/include/rtbot/Pipeline.h
index f3a6f01..789d4c4 100644
--- a/libs/api/include/rtbot/Pipeline.h
+++ b/libs/api/include/rtbot/Pipeline.h
@@ -56,19 +56,17 @@ struct Pipeline : public Operator<T, V> {
   string typeName() const override { return "Pipeline"; }
 
   void receiveData(Message<T, V> msg, string inputPort = "") override {
-    if (inputPort.empty() && inputs.size() == 1)
-      inputPort = inputs.begin()->first;
-    else
-      inputPort = portsMap.at(inputPort);
-    auto [id, port] = split2(inputPort);
-    inputs.at(inputPort)->receiveData(msg, port);
+    if (inputPort.empty() && inputs.size() == 1) inputPort = this->getDataInputs().at(0);
+    string key = portsMap.at(inputPort);
+    auto [id, port] = split2(key);
+    inputs.at(key)->receiveData(msg, port);
     this->toProcess.insert(inputPort);
   }
 
   ProgramMessage<T, V> executeData() override {
     ProgramMessage<T, V> opResults;
-    for (auto id : this->toProcess) {
-      auto results = inputs.at(id)->executeData();
+    for (auto inputPort : this->toProcess) {
+      auto results = inputs.at(portsMap.at(inputPort))->executeData();
       Operator<T, V>::mergeOutput(opResults, results);
     }
     this->toProcess.clear();
-- 
2.43.0


From 1bd8a54d7fa0982947167e76011c91992df5a0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 28/56] fix: AutoRegressive processes every message that
 reaches it in one step

Like cad1909 for the operators that mark their ports: a message waiting at an
AutoRegressive is processed before another branch delivers the next one, instead
of being overwritten.
---
 libs/std/include/rtbot/std/AutoRegressive.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/std/include/rtbot/std/AutoRegressive.h b/libs/std/include/rtbot/std/AutoRegressive.h
index b2abfe9..edbb8bf 100644
--- a/libs/std/include/rtbot/std/AutoRegressive.h
+++ b/libs/std/include/rtbot/std/AutoRegressive.h
@@ -35,11 +35,14 @@ struct AutoRegressive : public Operator<T, V> {
         this->dataInputs.find(inputPort)->second.push_back(Message<T, V>(0, 0));  // boundary conditions=0
       // n + 1 added, so that processData can get the last one as a recipient
       this->dataInputs.find(inputPort)->second.push_back(msg);
+      this->toProcess.insert(inputPort);
     } else
       throw runtime_error(typeName() + ": " + inputPort + " refers to a non existing input port");
   }
 
   virtual ProgramMessage<T, V> executeData() override {
+    if (this->toProcess.empty()) return {};
+    this->toProcess.clear();
     string inputPort;
     auto in = this->getDataInputs();
     if (in.size() == 1)
-- 
2.43.0


From 6e599af516460f3cff29477b9004f45c8eddcc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 29/56] fix: deleting the pipelines of an input key does not
 wait for its own lock

---
 apps/rtbot-rs/src/pipelines_registry.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/apps/rtbot-rs/src/pipelines_registry.rs b/apps/rtbot-rs/src/pipelines_registry.rs
index 7eadfd7..0be8332 100644
--- a/apps/rtbot-rs/src/pipelines_registry.rs
+++ b/apps/rtbot-rs/src/pipelines_registry.rs
@@ -89,6 +89,15 @@ impl PipelinesRegistry {
     /// returns: Result<String, PipelineError>
     pub fn delete(&self, input_key: &str, output_key: &str) -> Result<String, PipelineError> {
         let mut pipeline = self.pipelines.lock().unwrap();
+        Self::delete_locked(&mut pipeline, input_key, output_key)
+    }
+
+    /// Same as `delete`, for callers that already hold the lock.
+    fn delete_locked(
+        pipeline: &mut BTreeMap<String, BTreeMap<String, String>>,
+        input_key: &str,
+        output_key: &str,
+    ) -> Result<String, PipelineError> {
         if let Some(outputs) = pipeline.get_mut(input_key) {
             if let Some(pipeline_id) = outputs.remove(output_key) {
                 let result = cxx_bindings::ffi::delete_pipeline(pipeline_id.to_string());
@@ -120,13 +129,15 @@ impl PipelinesRegistry {
     ///
     /// returns: Result<String, Err(String)>
     pub fn delete_by_input_key(&self, input_key: &str) -> Result<String, PipelineError> {
-        let pipeline = self.pipelines.lock().unwrap();
+        let mut pipeline = self.pipelines.lock().unwrap();
+        let output_keys: Vec<String> = pipeline
+            .get(input_key)
+            .map(|outputs| outputs.keys().cloned().collect())
+            .unwrap_or_default();
         let mut counter = 0;
-        if let Some(outputs) = pipeline.get(input_key) {
-            for (output_key, _) in outputs {
-                self.delete(input_key, output_key)?;
-                counter += 1;
-            }
+        for output_key in output_keys {
+            Self::delete_locked(&mut pipeline, input_key, &output_key)?;
+            counter += 1;
         }
         Ok(format!(
             "Deleted {} pipeline(s) associated with the input key {}",
-- 
2.43.0


From 890a2d7e67c5de1f980890af1d20f77b68bafbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:48 +0000
Subject: [PATCH 30/56] fix: refuse negative sizes, port counts and time steps
 instead of wrapping them

---
 libs/api/src/FactoryOp.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/libs/api/src/FactoryOp.cpp b/libs/api/src/FactoryOp.cpp
index 34572e9..5ccc2b9 100644
--- a/libs/api/src/FactoryOp.cpp
+++ b/libs/api/src/FactoryOp.cpp
@@ -51,6 +51,17 @@ using namespace std;
 
 /* Operators serialization - deserialization - begin */
 
+// sizes, numbers of ports and time steps can't be negative, converting them to an unsigned type would wrap around
+template <class N>
+N readUnsigned(const json& j) {
+  if (j.is_number() && j.get<double>() < 0) throw runtime_error("negative number found, expected a positive one: " + j.dump());
+  return j.get<N>();
+}
+
+size_t readNumPorts(const json& j, size_t defaultValue) {
+  return j.contains("numPorts") ? readUnsigned<size_t>(j.at("numPorts")) : defaultValue;
+}
+
 template <class T, class V>
 void to_json(json& j, const Input<T, V>& p) {
   j = json{{"type", p.typeName()}, {"id", p.id}, {"numPorts", p.getNumPorts()}};
@@ -58,7 +69,7 @@ void to_json(json& j, const Input<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Input<T, V>& p) {
-  p = Input<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
+  p = Input<T, V>(j.at("id").get<string>(), readNumPorts(j, 1));
 }
 
 template <class T, class V>
@@ -68,7 +79,7 @@ void to_json(json& j, const CosineResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, CosineResampler<T, V>& p) {
-  p = CosineResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
+  p = CosineResampler<T, V>(j.at("id").get<string>(), readUnsigned<T>(j.at("dt")));
 }
 
 template <class T, class V>
@@ -78,7 +89,7 @@ void to_json(json& j, const HermiteResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, HermiteResampler<T, V>& p) {
-  p = HermiteResampler<T, V>(j.at("id").get<string>(), j.at("dt").get<T>());
+  p = HermiteResampler<T, V>(j.at("id").get<string>(), readUnsigned<T>(j.at("dt")));
 }
 
 template <class T, class V>
@@ -88,7 +99,7 @@ void to_json(json& j, const StandardDeviation<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, StandardDeviation<T, V>& p) {
-  p = StandardDeviation<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
+  p = StandardDeviation<T, V>(j.at("id").get<string>(), readUnsigned<size_t>(j.at("n")));
 }
 
 template <class T, class V>
@@ -98,7 +109,7 @@ void to_json(json& j, const MovingAverage<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, MovingAverage<T, V>& p) {
-  p = MovingAverage<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
+  p = MovingAverage<T, V>(j.at("id").get<string>(), readUnsigned<size_t>(j.at("n")));
 }
 
 template <class T, class V>
@@ -118,7 +129,7 @@ void to_json(json& j, const Join<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Join<T, V>& p) {
-  p = Join<T, V>(j.at("id").get<string>(), j.value("numPorts", size_t(2)));
+  p = Join<T, V>(j.at("id").get<string>(), readNumPorts(j, 2));
 }
 
 template <class T, class V>
@@ -128,7 +139,7 @@ void to_json(json& j, const Output<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Output<T, V>& p) {
-  p = Output<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
+  p = Output<T, V>(j.at("id").get<string>(), readNumPorts(j, 1));
 }
 
 template <class T, class V>
@@ -138,7 +149,7 @@ void to_json(json& j, const PeakDetector<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, PeakDetector<T, V>& p) {
-  p = PeakDetector<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
+  p = PeakDetector<T, V>(j.at("id").get<string>(), readUnsigned<size_t>(j.at("n")));
 }
 
 template <class T, class V>
@@ -368,7 +379,7 @@ void to_json(json& j, const Demultiplexer<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, Demultiplexer<T, V>& p) {
-  p = Demultiplexer<T, V>(j.at("id").get<string>(), j.value("numPorts", 1));
+  p = Demultiplexer<T, V>(j.at("id").get<string>(), readNumPorts(j, 1));
 }
 
 template <class T, class V>
@@ -388,7 +399,7 @@ void to_json(json& j, const RelativeStrengthIndex<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, RelativeStrengthIndex<T, V>& p) {
-  p = RelativeStrengthIndex<T, V>(j.at("id").get<string>(), j.at("n").get<size_t>());
+  p = RelativeStrengthIndex<T, V>(j.at("id").get<string>(), readUnsigned<size_t>(j.at("n")));
 }
 
 template <class T, class V>
@@ -408,7 +419,7 @@ void to_json(json& j, const ConstantResampler<T, V>& p) {
 
 template <class T, class V>
 void from_json(const json& j, ConstantResampler<T, V>& p) {
-  p = ConstantResampler<T, V>(j.at("id").get<string>(), j.at("interval").get<T>());
+  p = ConstantResampler<T, V>(j.at("id").get<string>(), readUnsigned<T>(j.at("interval")));
 }
 
 template <class T, class V>
-- 
2.43.0


From 034e24db58bcf1bb4deaac0db515563e1f93c282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:04 +0000
Subject: [PATCH 31/56] fix: validate the ports of every operator in the output
 filter

---
 tools/generator/templates/jsonschema.hbs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tools/generator/templates/jsonschema.hbs b/tools/generator/templates/jsonschema.hbs
index bcdec24..f1f9b8b 100644
--- a/tools/generator/templates/jsonschema.hbs
+++ b/tools/generator/templates/jsonschema.hbs
@@ -33,13 +33,11 @@
     },
     "output": {
       "type": "object",
-      "patternProperties": {
-        "^[A-Z0-9a-t_-]+$": {
-          "type": "array",
-          "items": {
-            "type": "string",
-            "examples": ["o1","o2"]
-          }
+      "additionalProperties": {
+        "type": "array",
+        "items": {
+          "type": "string",
+          "examples": ["o1","o2"]
         }
       },
       "examples": ["join1","join2"]
-- 
2.43.0


From d8ef411e58d1555537e62785d21884b98632c9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 32/56] fix: validation answers with the error for texts that
 are not UTF-8 as well

---
 libs/api/src/bindings.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/libs/api/src/bindings.cpp b/libs/api/src/bindings.cpp
index f66d139..e4c28db 100644
--- a/libs/api/src/bindings.cpp
+++ b/libs/api/src/bindings.cpp
@@ -49,6 +49,11 @@ ProgramMessage<uint64_t, double> processMessageMapNative(string const& programId
   return factory.processMessageMap(programId, messagesMap);
 }
 
+// the error may quote the text that was refused, which doesn't have to be valid UTF-8
+static string refusal(string const& error) {
+  return nlohmann::json({{"valid", false}, {"error", error}}).dump(-1, ' ', false, json::error_handler_t::replace);
+}
+
 string validateOperator(string const& type, string const& json_op) {
   json_validator validator(nullptr, nlohmann::json_schema::default_string_format_check);  // create validator
 
@@ -64,18 +69,18 @@ string validateOperator(string const& type, string const& json_op) {
     if (schema)
       validator.set_root_schema(schema.value());
     else
-      return nlohmann::json({{"valid", false}, {"error", "Unknown operator type: " + type}}).dump();
+      return refusal("Unknown operator type: " + type);
 
   } catch (const exception& e) {
     cout << "Unable to set the rtbot schema as root: " << e.what() << "\n";
-    return nlohmann::json({{"valid", false}, {"error", e.what()}}).dump();
+    return refusal(e.what());
   }
 
   try {
     validator.validate(
         nlohmann::json::parse(json_op));  // validate the document - uses the default throwing error-handler
   } catch (const exception& e) {
-    return nlohmann::json({{"valid", false}, {"error", e.what()}}).dump();
+    return refusal(e.what());
   }
 
   return nlohmann::json({{"valid", true}}).dump();
@@ -88,14 +93,14 @@ string validate(string const& json_program) {
     validator.set_root_schema(rtbot_schema);  // insert root-schema
   } catch (const std::exception& e) {
     cout << "Unable to set the rtbot schema as root: " << e.what() << "\n";
-    return nlohmann::json({{"valid", false}, {"error", e.what()}}).dump();
+    return refusal(e.what());
   }
 
   try {
     validator.validate(
         nlohmann::json::parse(json_program));  // validate the document - uses the default throwing error-handler
   } catch (const exception& e) {
-    return nlohmann::json({{"valid", false}, {"error", e.what()}}).dump();
+    return refusal(e.what());
   }
 
   return nlohmann::json({{"valid", true}}).dump();
-- 
2.43.0


From 7632e8d4d761d134673a70d6c65d2f1a183cbd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 33/56] fix: do not HTML-escape the parameter types of the
 generated TypeScript classes

---
 tools/generator/templates/typescript.hbs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generator/templates/typescript.hbs b/tools/generator/templates/typescript.hbs
index dc7e0d3..a13be55 100644
--- a/tools/generator/templates/typescript.hbs
+++ b/tools/generator/templates/typescript.hbs
@@ -33,7 +33,7 @@ export type {{ name }} = {
 export class {{ type }} extends Operator {
   readonly type = "{{ type}}";
   constructor(
-{{ parametersBlock }}
+{{{ parametersBlock }}}
   ) {
     super(id);
     const schema = {{{ schema }}}
-- 
2.43.0


From e2e3ae2d5df71ddc30c6f3be97ba67ec4f1a6e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 34/56] fix: deleting a connection in JavaScript deletes
 exactly the connection named

---
 libs/wrappers/javascript/src/program.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/wrappers/javascript/src/program.ts b/libs/wrappers/javascript/src/program.ts
index 235cf55..10a0e17 100644
--- a/libs/wrappers/javascript/src/program.ts
+++ b/libs/wrappers/javascript/src/program.ts
@@ -62,7 +62,7 @@ export class Program {
   deleteConnection(opFrom: OperatorId, opTo: OperatorId, opFromPort: PortId = "o1", opToPort: PortId = "i1") {
     this.connections = this.connections.filter(
       ({ from, to, fromPort, toPort }) =>
-        !(from !== opFrom && to !== opTo && fromPort !== opFromPort && toPort !== opToPort)
+        !(from === opFrom && to === opTo && fromPort === opFromPort && toPort === opToPort)
     );
   }
 
-- 
2.43.0


From c61a34b597899e3564b8d639e231b0fa70a83855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 35/56] fix: concurrent JavaScript process calls do not mix
 their messages

---
 libs/wrappers/javascript/src/api.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libs/wrappers/javascript/src/api.ts b/libs/wrappers/javascript/src/api.ts
index a1866f0..3ce9d59 100644
--- a/libs/wrappers/javascript/src/api.ts
+++ b/libs/wrappers/javascript/src/api.ts
@@ -38,16 +38,20 @@ export class RtBot {
     programId: string,
     messages: { [portId: string]: { time: number; value: number }[] }
   ): Promise<RtBotIterationOutput> {
-    this.prepareInternalMessageBuffer(programId, messages, await this.rtbot);
-    return JSON.parse((await this.rtbot).processMessageBufferDebug(programId));
+    // buffer and process without yielding in between, concurrent calls must not mix their messages
+    const rtbot = await this.rtbot;
+    this.prepareInternalMessageBuffer(programId, messages, rtbot);
+    return JSON.parse(rtbot.processMessageBufferDebug(programId));
   }
 
   async process(
     programId: string,
     messages: { [portId: string]: { time: number; value: number }[] }
   ): Promise<RtBotIterationOutput> {
-    this.prepareInternalMessageBuffer(programId, messages, await this.rtbot);
-    return JSON.parse((await this.rtbot).processMessageBuffer(programId));
+    // buffer and process without yielding in between, concurrent calls must not mix their messages
+    const rtbot = await this.rtbot;
+    this.prepareInternalMessageBuffer(programId, messages, rtbot);
+    return JSON.parse(rtbot.processMessageBuffer(programId));
   }
 
   prepareInternalMessageBuffer(
-- 
2.43.0


From 74c9b3ba4bf132e6135df7e2ba45d7af97e2d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:18 +0000
Subject: [PATCH 36/56] fix: a refused JavaScript process call leaves no
 messages behind

---
 libs/wrappers/javascript/src/api.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/wrappers/javascript/src/api.ts b/libs/wrappers/javascript/src/api.ts
index 3ce9d59..d88b32c 100644
--- a/libs/wrappers/javascript/src/api.ts
+++ b/libs/wrappers/javascript/src/api.ts
@@ -59,6 +59,10 @@ export class RtBot {
     messages: { [portId: string]: { time: number; value: number }[] },
     rtbot: RtBotEmbindModule
   ) {
+    // refuse the call before any of its messages is buffered, they would be processed by a later one
+    const entryPorts: string[] = JSON.parse(rtbot.getProgramEntryPorts(programId));
+    const unknown = Object.keys(messages).find((p) => !entryPorts.includes(p) && (p || entryPorts.length > 1));
+    if (unknown !== undefined) throw new Error(`Program ${programId} has no entry port ${unknown}`);
     Object.entries(messages).map(([port, msgs]) =>
       msgs.map(({ time, value }) => rtbot.addToMessageBuffer(programId, port, time, value))
     );
-- 
2.43.0


From 085fc9b54693c455dfe3095cf00052aaec7b3b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:22 +0000
Subject: [PATCH 37/56] fix: a JavaScript run deletes its program also when a
 row fails

---
 libs/wrappers/javascript/src/api.ts | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/libs/wrappers/javascript/src/api.ts b/libs/wrappers/javascript/src/api.ts
index d88b32c..1a58727 100644
--- a/libs/wrappers/javascript/src/api.ts
+++ b/libs/wrappers/javascript/src/api.ts
@@ -117,6 +117,16 @@ export class RtBotRun {
       if (createProgramResponse.error) throw new Error(createProgramResponse.error);
     }
 
+    try {
+      await this.sendData();
+    } finally {
+      // also when a row fails, nobody else knows the program
+      await RtBot.getInstance().deleteProgram(this.program.programId);
+    }
+    if (this.verbose) console.log("Done!", this.outputs);
+  }
+
+  private async sendData() {
     if (this.verbose) console.log("Sending data...");
     const entryPorts: string[] = JSON.parse(await RtBot.getInstance().getProgramEntryPorts(this.program.programId));
     // iterate over the data passed and send it to the rtbot program
@@ -154,9 +164,6 @@ export class RtBotRun {
         }
       }
     }
-
-    await RtBot.getInstance().deleteProgram(this.program.programId);
-    if (this.verbose) console.log("Done!", this.outputs);
   }
 
   getOutputs() {
-- 
2.43.0


From f69f2a833f4853e99dca937e4e1a18ad921ba089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:07 +0000
Subject: [PATCH 38/56] fix: Python programs without a date keep their entry
 operator

---
 libs/wrappers/python/rtbot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index 0aa8100..75f21fb 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -107,7 +107,7 @@ class Program:
         if self.date:
             obj["date"] = self.date
 
-        if self.date:
+        if self.entryOperator:
             obj["entryOperator"] = self.entryOperator
 
         return json.dumps(obj)
-- 
2.43.0


From 5910dd5bc1b18a0a46185b915513f30ca849ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:07 +0000
Subject: [PATCH 39/56] fix: Python runs return nan for values that are not
 finite instead of failing

---
 libs/wrappers/python/rtbot.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index 75f21fb..fdaca9e 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -44,7 +44,9 @@ class Run(object):
                         result[key] = {"time": [], "value": []}
                     for msg in msgs:
                         result[key]["time"].append(int(msg.get("time")))
-                        result[key]["value"].append(float(msg.get("value")))
+                        # the engine writes values that are not finite as null
+                        value = msg.get("value")
+                        result[key]["value"].append(float("nan") if value is None else float(value))
 
         api.deleteProgram(self.program.id)
         return result
-- 
2.43.0


From 6d06b4de501e9d27438295a9c560f2c7926fbe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 40/56] fix: a Python run deletes its program also when a row
 fails

---
 libs/wrappers/python/rtbot.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/libs/wrappers/python/rtbot.py b/libs/wrappers/python/rtbot.py
index fdaca9e..0bd1b49 100644
--- a/libs/wrappers/python/rtbot.py
+++ b/libs/wrappers/python/rtbot.py
@@ -18,16 +18,23 @@ class Run(object):
 
     def exec(self):
         result = api.createProgram(self.program.id, self.program.toJson())
+
+        if result != "":
+            raise Exception(json.loads(result)["error"])
+
+        try:
+            return self._process()
+        finally:
+            # also when a row fails, nobody else knows the program
+            api.deleteProgram(self.program.id)
+
+    def _process(self):
         # TODO: here we assume that the data is a list of rows, which are a list
         # of numbers, where the first element of the row is the time and the remaining
         # ones correspond to the values passed to the ports and they have the order according
         # to the one obtained by `getProgramEntryPorts`.
         # Move this to receive a pandas dataframe instead
         ports = json.loads(api.getProgramEntryPorts(self.program.id))
-
-        if result != "":
-            raise Exception(json.loads(result)["error"])
-
         result = {}
 
         for row in self.data:
@@ -48,7 +55,6 @@ class Run(object):
                         value = msg.get("value")
                         result[key]["value"].append(float("nan") if value is None else float(value))
 
-        api.deleteProgram(self.program.id)
         return result
 
 
-- 
2.43.0


From e586994e7f48ac89d936740c2778f4d66db30a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:30 +0000
Subject: [PATCH 41/56] fix: quote the text defaults of the generated Python
 operators

---
 tools/generator/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generator/src/index.ts b/tools/generator/src/index.ts
index 62b1033..1ff8035 100644
--- a/tools/generator/src/index.ts
+++ b/tools/generator/src/index.ts
@@ -160,7 +160,7 @@ program
             .filter((p) => p !== "type")
             .map((k) => ({
               name: k,
-              init: s.required.indexOf(k) > -1 ? "" : ` = ${s.properties[k].default ?? "None"}`,
+              init: s.required.indexOf(k) > -1 ? "" : ` = ${s.properties[k].default === undefined ? "None" : JSON.stringify(s.properties[k].default)}`,
             })),
         })),
       });
-- 
2.43.0


From cffe5aced942bc6f2b7ace1ef6adf027f225347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 42/56] fix: pipelines accept inner operators whose id contains
 a colon

---
 libs/api/include/rtbot/Pipeline.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/libs/api/include/rtbot/Pipeline.h b/libs/api/include/rtbot/Pipeline.h
index 789d4c4..07b2700 100644
--- a/libs/api/include/rtbot/Pipeline.h
+++ b/libs/api/include/rtbot/Pipeline.h
@@ -1,8 +1,6 @@
 #ifndef PIPELINE_H
 #define PIPELINE_H
 
-#include <sstream>
-
 #include "rtbot/Operator.h"
 
 namespace rtbot {
@@ -85,11 +83,9 @@ struct Pipeline : public Operator<T, V> {
 
  private:
   static auto split2(string const& s, char delim = ':') {
-    std::istringstream is(s);
-    string word1, word2;
-    getline(is, word1, delim);
-    getline(is, word2, char(0));
-    return make_pair(word1, word2);
+    // the operator id may contain the delimiter, the port never does
+    auto pos = s.rfind(delim);
+    return make_pair(s.substr(0, pos), s.substr(pos + 1));
   }
 };
 
-- 
2.43.0


From 631ff00a16bc7f9494a820169a4b3a9111506824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:02 +0000
Subject: [PATCH 43/56] fix: the Redis module survives samples added before its
 first run

---
 apps/redis-module/src/commands/rtbot_xrun.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/apps/redis-module/src/commands/rtbot_xrun.rs b/apps/redis-module/src/commands/rtbot_xrun.rs
index d8dff59..d9108bd 100644
--- a/apps/redis-module/src/commands/rtbot_xrun.rs
+++ b/apps/redis-module/src/commands/rtbot_xrun.rs
@@ -31,7 +31,11 @@ pub fn on_generic_event(
         };
         // and send it to the pipelines registered for the key
         let binding = PIPELINES_REGISTRY.read().unwrap();
-        let registry = binding.as_ref().unwrap();
+        let registry = match binding.as_ref() {
+            Some(registry) => registry,
+            // no pipeline has been created yet
+            None => return Ok(RedisValue::from(())),
+        };
         let result = registry
             .receive(_key, *timestamp as u64, vec![value])
             .unwrap();
-- 
2.43.0


From d9e72733c0e06bfb223813a067b49ad609ba266b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:01 +0000
Subject: [PATCH 44/56] fix: a run that fails in Redis does not leave its
 pipeline registered

---
 apps/redis-module/src/commands/rtbot_run.rs | 30 ++++++++++++++-------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/apps/redis-module/src/commands/rtbot_run.rs b/apps/redis-module/src/commands/rtbot_run.rs
index ac9db75..f6dc94a 100644
--- a/apps/redis-module/src/commands/rtbot_run.rs
+++ b/apps/redis-module/src/commands/rtbot_run.rs
@@ -45,6 +45,24 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
 
     // create the pipeline
     let pipeline_id = registry.create(&get_program_result, &input_key, &output_key)?;
+    let result = send_input(ctx, registry, &program_key, &input_key, &output_key);
+
+    if result.is_ok() && persist_pipeline {
+        return Ok(pipeline_id.into());
+    }
+    // delete the pipeline, also if its run failed
+    registry.delete(&input_key, &output_key)?;
+    result
+}
+
+/// Sends the data existing at the input key to the pipeline and writes what it emits to the output key.
+fn send_input(
+    ctx: &Context,
+    registry: &PipelinesRegistry,
+    program_key: &str,
+    input_key: &str,
+    output_key: &str,
+) -> RedisResult {
     // get the data from the input key
     let input_ts = match ctx.call("ts.range", &[input_key.to_string().as_str(), "-", "+"])? {
         RedisValue::Array(s) => Ok(s),
@@ -54,7 +72,7 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
         ))),
     }?;
     // delete whatever is in the output key, if something
-    ctx.call("del", &[output_key.as_str()])?;
+    ctx.call("del", &[output_key])?;
     // create a new timeseries key
     // Notice that here we are using a policy that will replace the existing
     // value with the latest send in case of having two values with the same
@@ -62,7 +80,7 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
     // will be needed on this
     ctx.call(
         "ts.create",
-        &[output_key.as_str(), "DUPLICATE_POLICY", "LAST"],
+        &[output_key, "DUPLICATE_POLICY", "LAST"],
     )?;
     // send it to the pipeline
     for entry in input_ts {
@@ -105,11 +123,5 @@ pub fn run<'a>(ctx: &Context, args: Vec<RedisString>) -> RedisResult {
         }
     }
 
-    if persist_pipeline {
-        return Ok(pipeline_id.into());
-    } else {
-        // delete the pipeline
-        registry.delete(&input_key, &output_key)?;
-        Ok("OK".into())
-    }
+    Ok("OK".into())
 }
-- 
2.43.0


From a98feb50e734f41b9cc3b34da9fe67713587135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:50 +0000
Subject: [PATCH 45/56] fix: a run in Redis sends its input to its own pipeline
 only

---
 apps/redis-module/src/commands/rtbot_run.rs | 39 +++++++++++----------
 apps/rtbot-rs/src/pipelines_registry.rs     | 32 +++++++++++++++++
 2 files changed, 53 insertions(+), 18 deletions(-)

diff --git a/apps/redis-module/src/commands/rtbot_run.rs b/apps/redis-module/src/commands/rtbot_run.rs
index f6dc94a..7facad7 100644
--- a/apps/redis-module/src/commands/rtbot_run.rs
+++ b/apps/redis-module/src/commands/rtbot_run.rs
@@ -101,25 +101,28 @@ fn send_input(
         .unwrap()
         .parse::<f64>()
         .unwrap();
-        let result = registry.receive(&input_key, *timestamp as u64, vec![value])?;
-        // now for each of the registered outputs send the result
-        for (registered_output_key, message) in result {
-            if !message.is_empty() {
-                // println!("Sending message {:?} to {}", message, registered_output_key);
-                // notice that here we just consider the first element in the values as
-                // the value to consider as the output to store in the output timeseries
-                let timestamp = message[0].timestamp;
-                let value = message[0].values[0];
+        // the other pipelines of the input key have already received their data
+        let message = registry.receive_in_pipeline(
+            input_key,
+            output_key,
+            *timestamp as u64,
+            vec![value],
+        )?;
+        if !message.is_empty() {
+            // println!("Sending message {:?} to {}", message, output_key);
+            // notice that here we just consider the first element in the values as
+            // the value to consider as the output to store in the output timeseries
+            let timestamp = message[0].timestamp;
+            let value = message[0].values[0];
 
-                ctx.call(
-                    "ts.add",
-                    &[
-                        registered_output_key.as_str(),
-                        timestamp.to_string().as_str(),
-                        value.to_string().as_str(),
-                    ],
-                )?;
-            }
+            ctx.call(
+                "ts.add",
+                &[
+                    output_key,
+                    timestamp.to_string().as_str(),
+                    value.to_string().as_str(),
+                ],
+            )?;
         }
     }
 
diff --git a/apps/rtbot-rs/src/pipelines_registry.rs b/apps/rtbot-rs/src/pipelines_registry.rs
index 0be8332..4d7e825 100644
--- a/apps/rtbot-rs/src/pipelines_registry.rs
+++ b/apps/rtbot-rs/src/pipelines_registry.rs
@@ -182,4 +182,36 @@ impl PipelinesRegistry {
         }
         Ok(result)
     }
+
+    /// Sends a message to the pipeline between the input and output keys only.
+    /// If the returned vector is empty it means that there was no output for
+    /// the current rtbot iteration.
+    ///
+    /// # Arguments
+    ///
+    /// * `input_key`: The input key
+    /// * `output_key`: The output key.
+    /// * `timestamp`: The timestamp of the message
+    /// * `values`: The values of the message.
+    ///
+    /// returns: Result<Vec<RtBotMessage, Global>, PipelineError>
+    pub fn receive_in_pipeline(
+        &self,
+        input_key: &str,
+        output_key: &str,
+        timestamp: u64,
+        values: Vec<f64>,
+    ) -> Result<Vec<RtBotMessage>, PipelineError> {
+        let pipeline = self.pipelines.lock().unwrap();
+        match pipeline.get(input_key).and_then(|outputs| outputs.get(output_key)) {
+            Some(pipeline_id) => Ok(cxx_bindings::ffi::receive_message_in_pipeline(
+                pipeline_id.to_string(),
+                RtBotMessage { timestamp, values },
+            )),
+            None => Err(PipelineError::Generic(format!(
+                "There is no pipeline from key {} to key {}",
+                input_key, output_key
+            ))),
+        }
+    }
 }
-- 
2.43.0


From 76eafc72189c33100aa474f136a143f44c43d897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 46/56] fix: the debugger does not read past the last iteration

---
 apps/cli/src/tui/store.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 21eed9d..344c5c8 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -81,7 +81,7 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
           columns: [headers],
         };
 
-      for (let i = iteration - 1; i < Math.min(iteration, maxIteration) + 10; i++) {
+      for (let i = iteration - 1; i < Math.min(iteration + 10, maxIteration); i++) {
         const r = state.result![i]!;
         const row = opHeaders.map((h) => {
           const [opId, port] = h.split(":");
-- 
2.43.0


From f7d7347388c94a010553833265f58fa9bbcc067a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 47/56] fix: the debugger shows operators which emitted on
 another port only

---
 apps/cli/src/tui/store.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index 344c5c8..d877fca 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -85,9 +85,9 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
         const r = state.result![i]!;
         const row = opHeaders.map((h) => {
           const [opId, port] = h.split(":");
-          if (opId && r.out[opId]) {
-            const opOutput = r.out[opId]!;
-            return opOutput[port ?? "o1"]!.map(
+          const messages = opId ? r.out[opId]?.[port ?? "o1"] : undefined;
+          if (messages) {
+            return messages.map(
               ({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`
             ).join(", ");
           }
-- 
2.43.0


From fc712a35a7392ca3ec8eb68ec1e18d86eea9f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 48/56] fix: the debugger shows operators whose id contains a
 colon

---
 apps/cli/src/tui/store.ts | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/apps/cli/src/tui/store.ts b/apps/cli/src/tui/store.ts
index d877fca..d6c0278 100644
--- a/apps/cli/src/tui/store.ts
+++ b/apps/cli/src/tui/store.ts
@@ -69,12 +69,10 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
       const rows = [];
       const { iteration, maxIteration } = state;
 
-      const opHeaders = operators.reduce(
-        (acc: string[], op: DebuggerOperatorDef) =>
-          op.ports.length > 1 ? [...acc, ...op.ports.map((p) => `${op.id}:${p}`)] : [...acc, op.id],
-        []
+      const opColumns = operators.flatMap((op: DebuggerOperatorDef) =>
+        op.ports.map((port) => ({ opId: op.id, port, header: op.ports.length > 1 ? `${op.id}:${port}` : op.id }))
       );
-      const headers = ["iter", ...opHeaders];
+      const headers = ["iter", ...opColumns.map(({ header }) => header)];
 
       if (iteration === 0)
         return {
@@ -83,9 +81,8 @@ export const debuggerStore = createStore<DebuggerState & DebuggerStateActions>((
 
       for (let i = iteration - 1; i < Math.min(iteration + 10, maxIteration); i++) {
         const r = state.result![i]!;
-        const row = opHeaders.map((h) => {
-          const [opId, port] = h.split(":");
-          const messages = opId ? r.out[opId]?.[port ?? "o1"] : undefined;
+        const row = opColumns.map(({ opId, port }) => {
+          const messages = r.out[opId]?.[port];
           if (messages) {
             return messages.map(
               ({ time, value }: any) => `(${time}, ${Math.round(value * 100) / 100})`
-- 
2.43.0


From e63a8d324172f0299ce0b520ccac1363179c7a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 49/56] fix: the debug command passes verbose as such, not as
 the progress callback

---
 apps/cli/src/commands/debug.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/cli/src/commands/debug.ts b/apps/cli/src/commands/debug.ts
index 226b27a..8944d91 100644
--- a/apps/cli/src/commands/debug.ts
+++ b/apps/cli/src/commands/debug.ts
@@ -94,7 +94,7 @@ export const registerDebug = (program: Command) => {
           }
         })
         .filter((r) => r.length === 2);
-      const rtbotRun = new RtBotRun(rtBotProgram, preparedData, RtBotRunOutputFormat.EXTENDED, verbose);
+      const rtbotRun = new RtBotRun(rtBotProgram, preparedData, RtBotRunOutputFormat.EXTENDED, undefined, verbose);
       try {
         await rtbotRun.run();
       } catch (e: any) {
-- 
2.43.0


From c3f074f91b6858e11953aa3147d24373f9c60d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:29 +0000
Subject: [PATCH 50/56] fix: CumulativeSum's checkpoint includes a message
 received but not yet processed

---
 libs/std/include/rtbot/std/CumulativeSum.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/CumulativeSum.h b/libs/std/include/rtbot/std/CumulativeSum.h
index adfdefd..82c63ca 100644
--- a/libs/std/include/rtbot/std/CumulativeSum.h
+++ b/libs/std/include/rtbot/std/CumulativeSum.h
@@ -20,7 +20,7 @@ struct CumulativeSum : public Operator<T, V> {
   }
 
   virtual Bytes collect() {
-    Bytes bytes;
+    Bytes bytes = Operator<T, V>::collect();
 
     // Serialize accumulated
     bytes.insert(bytes.end(), reinterpret_cast<const unsigned char *>(&accumulated),
@@ -30,6 +30,8 @@ struct CumulativeSum : public Operator<T, V> {
   }
 
   virtual void restore(Bytes::const_iterator &it) {
+    Operator<T, V>::restore(it);
+
     // Deserialize accumulated
     accumulated = *reinterpret_cast<const V *>(&(*it));
     it += sizeof(accumulated);
-- 
2.43.0


From d3e3fda51d5afe61adbee4c52b39e49ce33274f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:31 +0000
Subject: [PATCH 51/56] fix: the Python and WebAssembly modules choose one of
 the two createProgram they could export

---
 libs/api/wasm/emscripten-bindings.cpp | 2 +-
 libs/wrappers/python/rtbot.cpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/api/wasm/emscripten-bindings.cpp b/libs/api/wasm/emscripten-bindings.cpp
index 8326827..5f228a5 100644
--- a/libs/api/wasm/emscripten-bindings.cpp
+++ b/libs/api/wasm/emscripten-bindings.cpp
@@ -56,7 +56,7 @@ EMSCRIPTEN_BINDINGS(RtBot) {
   emscripten::function("validate", &validate);
   emscripten::function("validateOperator", &validateOperator);
 
-  emscripten::function("createProgram", &createProgram);
+  emscripten::function("createProgram", select_overload<string(string const&, string const&)>(&createProgram));
   emscripten::function("deleteProgram", &deleteProgram);
 
   emscripten::function("addToMessageBuffer", &addToMessageBuffer);
diff --git a/libs/wrappers/python/rtbot.cpp b/libs/wrappers/python/rtbot.cpp
index ba9dbb5..18c5f65 100644
--- a/libs/wrappers/python/rtbot.cpp
+++ b/libs/wrappers/python/rtbot.cpp
@@ -20,7 +20,7 @@ PYBIND11_MODULE(rtbotapi, m) {
   m.def("validate", &validate, "Validates json representation of an rtbot program");
   m.def("validateOperator", &validateOperator, "Validates a json representation of an rtbot operator");
 
-  m.def("createProgram", &createProgram, "Register an rtbot program in memory");
+  m.def("createProgram", py::overload_cast<string const&, string const&>(&createProgram), "Register an rtbot program in memory");
   m.def("deleteProgram", &deleteProgram, "Deletes and frees the memory of a previsouly created rtbot program");
   
   m.def("addToMessageBuffer", &addToMessageBuffer);
-- 
2.43.0


From cb19a46211e165a1ed024bc4734ba906ed174320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:53 +0000
Subject: [PATCH 52/56] fix: rtbot-server: a feed message that cannot be read
 does not end the feed

A message of the input websocket without the configured timestamp or
value, or that is not JSON, made the task that forwards the feed panic:
from then on nothing reached Redis. Such messages are now logged and
skipped.
---
 apps/rtbot-server/src/main.rs | 40 ++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/apps/rtbot-server/src/main.rs b/apps/rtbot-server/src/main.rs
index 5e99164..20cc06d 100644
--- a/apps/rtbot-server/src/main.rs
+++ b/apps/rtbot-server/src/main.rs
@@ -142,14 +142,16 @@ async fn connect_to_input_ws_redis(input_ws: &InputWsConfig, redis_service: &mut
             trace!("Message {:#?}", payload);
             // compute the timestamp
             let timestamp: u64 = if let Some(mapping) = &input_ws.json_remap.timestamp {
-                let timestamp_finder = JsonPathFinder::from_str(&payload, mapping).unwrap().find();
-                timestamp_finder
-                    .as_array()
-                    .unwrap()
-                    .first()
-                    .unwrap()
-                    .as_u64()
-                    .unwrap()
+                match find_first(&payload, mapping).and_then(|v| v.as_u64()) {
+                    Some(timestamp) => timestamp,
+                    None => {
+                        warn!(
+                            "Unable to read the timestamp from message {:#?}, mapping {}",
+                            payload, mapping
+                        );
+                        continue;
+                    }
+                }
             } else {
                 SystemTime::now()
                     .duration_since(UNIX_EPOCH)
@@ -165,10 +167,7 @@ async fn connect_to_input_ws_redis(input_ws: &InputWsConfig, redis_service: &mut
                 .values
                 .iter()
                 .map(|mapping| {
-                    let value_finder = JsonPathFinder::from_str(&payload, mapping).unwrap().find();
-                    if let Value::String(value_str) =
-                        value_finder.as_array().unwrap().first().unwrap()
-                    {
+                    if let Some(Value::String(value_str)) = find_first(&payload, mapping) {
                         match value_str.parse::<f64>() {
                             Ok(v) => Some(v),
                             Err(_) => {
@@ -188,9 +187,20 @@ async fn connect_to_input_ws_redis(input_ws: &InputWsConfig, redis_service: &mut
             debug!("timestamp {:?}, values {:?}", timestamp, values);
 
             // Notice we are sending here only the first parsed value
-            if let Err(e) = redis_service.add(timestamp, vec![values[0].unwrap()]).await {
-                warn!("Unable to store the data in redis: {:#?}", e);
-            };
+            if let Some(Some(value)) = values.first() {
+                if let Err(e) = redis_service.add(timestamp, vec![*value]).await {
+                    warn!("Unable to store the data in redis: {:#?}", e);
+                };
+            } else {
+                warn!("No value to store in message {:#?}", payload);
+            }
         }
     }
 }
+
+// the first match of a json path in a message, none if the message
+// is not valid json or it doesn't have anything at the path
+fn find_first(payload: &str, mapping: &str) -> Option<Value> {
+    let found = JsonPathFinder::from_str(payload, mapping).ok()?.find();
+    found.as_array()?.first().cloned()
+}
-- 
2.43.0


From 0610a1c95b77bac9695198dccaa42e3c0be18a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 53/56] fix: generator: the examples of an operator page use
 the documented default or enumeration when there is no example

---
 libs/std/include/rtbot/std/Function.md |  2 ++
 tools/generator/src/index.ts           | 18 +++++++++---------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/libs/std/include/rtbot/std/Function.md b/libs/std/include/rtbot/std/Function.md
index 698f06b..033763b 100644
--- a/libs/std/include/rtbot/std/Function.md
+++ b/libs/std/include/rtbot/std/Function.md
@@ -16,6 +16,8 @@ jsonschema:
     points:
       type: array
       description: Array of (x,y) coordinates defining the function
+      examples:
+        - [[0, 0], [1, 2]]
       minItems: 2
       items:
         type: array
diff --git a/tools/generator/src/index.ts b/tools/generator/src/index.ts
index 1ff8035..03619af 100644
--- a/tools/generator/src/index.ts
+++ b/tools/generator/src/index.ts
@@ -71,16 +71,16 @@ program
             const frontMatter = parse(frontMatterStr);
             const schema = frontMatter.jsonschema;
             // cook up an example parameter object
-            const getExampleParameter = (k: string) => {
-              if (k === "id") return '"id"';
-              if (schema.properties[k].examples) {
-                if (schema.properties[k].type === "array") return `[${schema.properties[k].examples[0]}]`;
-                return schema.properties[k].examples[0];
-              }
-              if (schema.properties[k].type === "integer") return 2;
-              if (schema.properties[k].type === "numeric") return 2.0;
-              if (schema.properties[k].type === "string") return "some";
+            const getExample = ({ type, examples, enum: choices, default: byDefault, minimum, minItems, items }: any) => {
+              if (examples) return examples[0];
+              if (byDefault !== undefined) return byDefault;
+              if (choices) return choices[0];
+              if (type === "array") return Array(minItems ?? 1).fill(getExample(items));
+              if (type === "string") return "some";
+              return Math.max(2, minimum ?? 2);
             };
+            const getExampleParameter = (k: string) =>
+              JSON.stringify(k === "id" ? "id" : getExample(schema.properties[k]));
             const exampleParameters = Object.keys(schema.properties).reduce(
               (acc, k) => ({ ...acc, [`${k}`]: getExampleParameter(k) }),
               {}
-- 
2.43.0


From ba368c100675f192d7ddaf8958bb6971d7867929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 54/56] fix: generator: an operator page also shows a default
 or minimum of zero

---
 tools/generator/src/handlebars.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generator/src/handlebars.ts b/tools/generator/src/handlebars.ts
index f852609..1575c15 100644
--- a/tools/generator/src/handlebars.ts
+++ b/tools/generator/src/handlebars.ts
@@ -8,6 +8,6 @@ export const registerPartial = (template: string) =>
   Handlebars.registerPartial(template, fs.readFileSync(__dirname + `/../templates/${template}.hbs`).toString());
 
 Handlebars.registerHelper("defined", function (s) {
-  return !!s;
+  return s !== undefined;
 });
 
-- 
2.43.0


From 154e66e4f25b07692ba74085cc430bf1730291d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 55/56] fix: generator: the Python example of an operator page
 imports the class from where it is

---
 tools/generator/templates/usage-md.hbs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/generator/templates/usage-md.hbs b/tools/generator/templates/usage-md.hbs
index 5b653a0..752d280 100644
--- a/tools/generator/templates/usage-md.hbs
+++ b/tools/generator/templates/usage-md.hbs
@@ -19,10 +19,11 @@ program.addOperator(new {{op}}({{opParams}}));
 
 ```python
 import rtbot as rb
+from rtbot.operators import {{op}}
 
 {{{opParamsDefPy}}}
 program = rb.Program()
-program.addOperator(rb.{{op}}({{opParams}}))
+program.addOperator({{op}}({{opParams}}))
 ```
 
   </TabItem>
-- 
2.43.0


From 3022899042049af3421f290f24fd8ad24c75902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:17 +0000
Subject: [PATCH 56/56] fix: TimeShift.md: the example is a value the schema
 allows

---
 libs/std/include/rtbot/std/TimeShift.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/std/include/rtbot/std/TimeShift.md b/libs/std/include/rtbot/std/TimeShift.md
index b83a500..a5d4639 100644
--- a/libs/std/include/rtbot/std/TimeShift.md
+++ b/libs/std/include/rtbot/std/TimeShift.md
@@ -18,7 +18,7 @@ jsonschema:
       default: 1
       minimum: 1
       examples:
-        - -1
+        - 5
       description: The constant that defines the time grid.
     times:
       type: integer
-- 
2.43.0

