From 53ddc7097deeffd195b9f6c20ef03ebf426c8f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:11 +0000
Subject: [PATCH 01/35] fix: keep a pending outClock tick until the importer
 reads it

An activation of inClock1 or inClock2 that preempted another partition between
setting outClock and calling clockUpdate cleared the pending tick, so it was
never reported to the importer.
---
 Clocks/model.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Clocks/model.c b/Clocks/model.c
index 97d28f3..d994924 100644
--- a/Clocks/model.c
+++ b/Clocks/model.c
@@ -37,7 +37,9 @@ static void activateModelPartition1(ModelInstance* comp, double time) {
         M(inClock3_interval) = 0.0;
     }
 
-    M(outClock) = ((M(outClock) == false) && (M(totalInClockTicks) % 5 == 0));
+    if (M(totalInClockTicks) % 5 == 0) {
+        M(outClock) = true; // stays active until it is read by the importer
+    }
 
     if (M(inClock3_qualifier) == 2 || M(outClock)) {
         comp->clockUpdate(comp->componentEnvironment);
@@ -66,7 +68,9 @@ static void activateModelPartition2(ModelInstance* comp, double time) {
     M(input2) = 0;
 
     // set output clocks
-    M(outClock) = ((M(outClock) == false) && (M(totalInClockTicks) % 5 == 0));
+    if (M(totalInClockTicks) % 5 == 0) {
+        M(outClock) = true; // stays active until it is read by the importer
+    }
 
     if (comp->unlockPreemption) {
         comp->unlockPreemption();
@@ -105,7 +109,9 @@ static void activateModelPartition3(ModelInstance *comp, double time) {
     }
 
     M(totalInClockTicks)++;
-    M(outClock) = ((M(outClock) == false) && (M(totalInClockTicks) % 5 == 0));
+    if (M(totalInClockTicks) % 5 == 0) {
+        M(outClock) = true; // stays active until it is read by the importer
+    }
 
     if (comp->unlockPreemption) {
         comp->unlockPreemption();
-- 
2.43.0


From 403e017ba653bf398778c7d6c314df65dd452999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:24 +0000
Subject: [PATCH 02/35] fix: reset x0 of StateSpace to its start value

setStartValues() left the initial state vector as the importer had last set it,
so an instance that was reset differed from a new one.
---
 StateSpace/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index abc914d..6c4e8ed 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -27,7 +27,7 @@ Status setStartValues(ModelInstance *comp) {
     }
 
     for (int i = 0; i < N_MAX; i++) {
-        M(x)[i] = M(x0)[i];
+        M(x0)[i] = 0;
         M(x)[i] = 0;
     }
 
-- 
2.43.0


From 79a7589a145ccb299b7d5e733ec6685c22d13932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:24 +0000
Subject: [PATCH 03/35] fix: clear event, termination and step state on reset

reset() kept the event flags, the next event time, the stop time and the next
communication point of the previous simulation. After a simulation that had
asked to terminate, the first step after a reset reported termination again.
---
 src/cosimulation.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index eaddace..99a6cdb 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -161,9 +161,18 @@ Status reset(ModelInstance* comp) {
 
     comp->state = Instantiated;
     comp->startTime = 0.0;
+    comp->stopTime = 0.0;
     comp->time = 0.0;
+    comp->nextCommunicationPoint = 0.0;
     comp->nSteps = 0;
     comp->status = OK;
+    comp->newDiscreteStatesNeeded = false;
+    comp->terminateSimulation = false;
+    comp->nominalsOfContinuousStatesChanged = false;
+    comp->valuesOfContinuousStatesChanged = false;
+    comp->nextEventTimeDefined = false;
+    comp->nextEventTime = 0.0;
+    comp->clocksTicked = false;
     setStartValues(comp);
     comp->isDirtyValues = true;
 
-- 
2.43.0


From aa3c81f74ee436e42940e1cfd99ce4d1057e0e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:57 +0000
Subject: [PATCH 04/35] fix: do not report a handled event again in the next
 step

After the importer had handled a state event in Event Mode, the first
solver step in Step Mode compared the event indicators with their values
before the event and reported the same event a second time. Update the
stored event indicators when Step Mode is entered and when a pending event
is handled inside fmi3DoStep, and return the status of that event update.
---
 src/fmi3Functions.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 10af071..e1af0f5 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1161,6 +1161,10 @@ fmi3Status fmi3GetNumberOfContinuousStates(fmi3Instance instance,
 
 fmi3Status fmi3EnterStepMode(fmi3Instance instance) {
     BEGIN_FUNCTION(EnterStepMode);
+#if defined(EVENT_UPDATE) && MAX_EVENT_INDICATORS > 0
+    // events handled in Event Mode must not be detected again in the next step
+    CALL(getEventIndicators(S, S->prez, S->nz));
+#endif
     S->state = StepMode;
     END_FUNCTION();
 }
@@ -1240,7 +1244,10 @@ fmi3Status fmi3DoStep(fmi3Instance instance,
 
 #ifdef EVENT_UPDATE
         if (*eventHandlingNeeded) {
-            eventUpdate(S);
+            CALL(eventUpdate(S));
+#if MAX_EVENT_INDICATORS > 0
+            CALL(getEventIndicators(S, S->prez, S->nz));
+#endif
             *eventHandlingNeeded = fmi3False;
         }
 #endif
-- 
2.43.0


From 99d9701282474db6d5e4309752e0ee62c80b1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:05 +0000
Subject: [PATCH 05/35] fix: allow fmi3UpdateDiscreteStates only in Event Mode

The function was accepted in every mode, for example before
initialization, and changed the discrete states there.
---
 src/fmi3Functions.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index e1af0f5..566802b 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -169,7 +169,7 @@ END_FUNCTION()
 #define MASK_fmi3GetIntervalFraction       MASK_AnyState
 #define MASK_fmi3SetIntervalDecimal        MASK_AnyState
 #define MASK_fmi3SetIntervalFraction       MASK_AnyState
-#define MASK_fmi3NewDiscreteStates         MASK_AnyState
+#define MASK_fmi3NewDiscreteStates         EventMode
 
 /* Functions for Model Exchange */
 
-- 
2.43.0


From 509e5c46d27ea40c89e5de6b20921e5d5f7cef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:39 +0000
Subject: [PATCH 06/35] fix: reject NULL arrays in fmi2GetBoolean and
 fmi2SetBoolean

---
 src/fmi2Functions.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index ecf9f61..d47fba8 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -60,6 +60,9 @@ do { \
 
 #define GET_BOOLEAN_VARIABLES \
 do { \
+    if (nvr == 0) goto TERMINATE; \
+    ASSERT_NOT_NULL(vr); \
+    ASSERT_NOT_NULL(value); \
     for (size_t i = 0; i < nvr; i++) { \
         bool v; \
         size_t index = 0; \
@@ -70,6 +73,9 @@ do { \
 
 #define SET_BOOLEAN_VARIABLES \
 do { \
+    if (nvr == 0) goto TERMINATE; \
+    ASSERT_NOT_NULL(vr); \
+    ASSERT_NOT_NULL(value); \
     for (size_t i = 0; i < nvr; i++) { \
         const bool v = value[i]; \
         size_t index = 0; \
-- 
2.43.0


From b01e82aded2680a1ac4c4d8783adf88751267b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:16:19 +0000
Subject: [PATCH 07/35] fix: reject NULL arrays in fmi3GetBinary and
 fmi3SetBinary

---
 src/fmi3Functions.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 566802b..d31c0b7 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -560,6 +560,7 @@ fmi3Status fmi3GetBinary(fmi3Instance instance,
     }
 
     if (nValues > 0) {
+        ASSERT_NOT_NULL(valueSizes);
         ASSERT_NOT_NULL(values);
     }
 
@@ -701,6 +702,11 @@ fmi3Status fmi3SetBinary(fmi3Instance instance,
 
     ASSERT_NOT_NULL(valueReferences);
 
+    if (nValues > 0) {
+        ASSERT_NOT_NULL(valueSizes);
+        ASSERT_NOT_NULL(values);
+    }
+
     size_t index = 0;
 
     for (size_t i = 0; i < nValueReferences; i++) {
-- 
2.43.0


From f34a78231ada7197392d1e16e820ed2e9dff8fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:04 +0000
Subject: [PATCH 08/35] fix: reject a NULL values array in the fmi3Set
 functions

---
 src/fmi3Functions.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index d31c0b7..95279fd 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -69,6 +69,7 @@ END_FUNCTION()
 BEGIN_FUNCTION(Set ## T); \
 if (nValueReferences == 0) goto TERMINATE; \
 ASSERT_NOT_NULL(valueReferences); \
+if (nValues > 0) ASSERT_NOT_NULL(values); \
 size_t index = 0; \
 for (size_t i = 0; i < nValueReferences; i++) { \
     CALL(set ## T(S, (ValueReference)valueReferences[i], values, nValues, &index)); \
-- 
2.43.0


From 27c1bf7ae2a18867b77796f559164eae4d8322a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:33 +0000
Subject: [PATCH 09/35] fix: check the number of values before reading them in
 the setters

---
 Feedthrough/model.c | 8 ++++----
 Stair/model.c       | 3 ++-
 StateSpace/model.c  | 5 ++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Feedthrough/model.c b/Feedthrough/model.c
index e113dc6..bb1b504 100644
--- a/Feedthrough/model.c
+++ b/Feedthrough/model.c
@@ -648,11 +648,11 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
             break;
 #if FMI_VERSION == 2
         case vr_Enumeration_input:
+            ASSERT_NVALUES(1);
             if (values[*index] != Option1 && values[*index] != Option2) {
                 logError(comp, "%d is not a legal value for Enumeration_input.", values[*index]);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Enumeration_input) = values[(*index)++];
             break;
 #endif
@@ -698,11 +698,11 @@ Status setInt64(ModelInstance* comp, ValueReference vr, const int64_t values[],
             break;
 #if FMI_VERSION == 3
         case vr_Enumeration_input:
+            ASSERT_NVALUES(1);
             if (values[*index] != Option1 && values[*index] != Option2) {
                 logError(comp, "%llu is not a legal value for Enumeration_input.", values[*index]);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Enumeration_input) = values[(*index)++];
             break;
 #endif
@@ -767,11 +767,11 @@ Status setString(ModelInstance* comp, ValueReference vr, const char *const value
 
     switch (vr) {
         case vr_String_input:
+            ASSERT_NVALUES(1);
             if (strlen(values[*index]) >= STRING_MAX_LEN) {
                 logError(comp, "Max. string length is %d bytes.", STRING_MAX_LEN);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             strcpy(M(String_input), values[(*index)++]);
             break;
         default:
@@ -791,11 +791,11 @@ Status setBinary(ModelInstance* comp, ValueReference vr, const size_t size[], co
 
     switch (vr) {
         case vr_Binary_input:
+            ASSERT_NVALUES(1);
             if (size[*index] > BINARY_MAX_LEN) {
                 logError(comp, "Max. binary size is %d bytes.", BINARY_MAX_LEN);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Binary_input_size) = size[*index];
             memcpy((void *)M(Binary_input), values[(*index)++], M(Binary_input_size));
             break;
diff --git a/Stair/model.c b/Stair/model.c
index 97716ec..19c5df6 100644
--- a/Stair/model.c
+++ b/Stair/model.c
@@ -64,12 +64,13 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
             return Error;
         }
 
+        ASSERT_NVALUES(1);
+
         if (values[*index] >= 10) {
             logError(comp, "The maximum value for variable \"counter\" is 10.");
             return Error;
         }
 
-        ASSERT_NVALUES(1);
         M(counter) = values[(*index)++];
 
         break;
diff --git a/StateSpace/model.c b/StateSpace/model.c
index 6c4e8ed..c890311 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -262,6 +262,8 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
         return Error;
     }
 
+    ASSERT_NVALUES(1);
+
     const uint64_t v = values[(*index)++];
 
     switch (vr) {
@@ -270,7 +272,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable m must not be greater than " xstr(M_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(m) = v;
             break;
         case vr_n:
@@ -278,7 +279,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable n must not be greater than " xstr(N_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(n) = v;
             break;
         case vr_r:
@@ -286,7 +286,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable r must not be greater than " xstr(R_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(r) = v;
             break;
         default:
-- 
2.43.0


From 97ea42785faab71f7e5c57a34060a1627231555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:40 +0000
Subject: [PATCH 10/35] fix: reject surplus values in fmi3GetBinary

---
 src/fmi3Functions.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 95279fd..7a4b653 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -576,6 +576,11 @@ fmi3Status fmi3GetBinary(fmi3Instance instance,
         CALL(getBinary(S, (ValueReference)valueReferences[i], valueSizes, (const char**)values, nValues, &index));
     }
 
+    if (index != nValues) {
+        logError(S, "Expected nValues = %zu but was %zu.", index, nValues);
+        CALL(Error);
+    }
+
     END_FUNCTION();
 }
 
-- 
2.43.0


From f7ee0cf08ec49dc4813812a442920559f942e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:04 +0000
Subject: [PATCH 11/35] fix: multiply B with all inputs in StateSpace

---
 StateSpace/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index c890311..6523054 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -51,7 +51,7 @@ Status calculateValues(ModelInstance *comp) {
 
     for (size_t i = 0; i < M(n); i++) {
 
-        for (size_t j = 0; j < M(r); j++) {
+        for (size_t j = 0; j < M(m); j++) {
             M(der_x)[i] += M(B)[i][j] * M(u)[j];
         }
     }
-- 
2.43.0


From d41b47d7bad550365f4cd20bcb891d3ff3ab8295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:21 +0000
Subject: [PATCH 12/35] fix: start StateSpace at x0

---
 StateSpace/model.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index 6523054..71967e6 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -201,6 +201,12 @@ Status setFloat64(ModelInstance* comp, ValueReference vr, const double values[],
         for (size_t i = 0; i < M(n); i++) {
             M(x0)[i] = values[(*index)++];
         }
+        // until the end of the initialization x0 is the state
+        if (comp->state == Instantiated || comp->state == ConfigurationMode || comp->state == InitializationMode) {
+            for (size_t i = 0; i < M(n); i++) {
+                M(x)[i] = M(x0)[i];
+            }
+        }
         break;
     case vr_u:
         ASSERT_NVALUES((size_t)M(m));
-- 
2.43.0


From 167c6045f4a930b1c20201ccb2aacb6da524f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:25:37 +0000
Subject: [PATCH 13/35] fix: read B of StateSpace with n rows and m columns

---
 StateSpace/model.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index 71967e6..c292afe 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -99,9 +99,9 @@ Status getFloat64(ModelInstance* comp, ValueReference vr, double values[], size_
             }
             return OK;
         case vr_B:
-            ASSERT_NVALUES((size_t)(M(m) * M(n)));
-            for (size_t i = 0; i < M(m); i++) {
-                for (size_t j = 0; j < M(n); j++) {
+            ASSERT_NVALUES((size_t)(M(n) * M(m)));
+            for (size_t i = 0; i < M(n); i++) {
+                for (size_t j = 0; j < M(m); j++) {
                     values[(*index)++] = M(B)[i][j];
                 }
             }
-- 
2.43.0


From b31870887ec99d41a1efb971bf1f61eef7693e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:17 +0000
Subject: [PATCH 14/35] fix: report an error when the resource file cannot be
 read

---
 Resource/model.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/Resource/model.c b/Resource/model.c
index fbf5163..0fa3364 100644
--- a/Resource/model.c
+++ b/Resource/model.c
@@ -27,7 +27,7 @@ Status calculateValues(ModelInstance *comp) {
 
     FILE *file = NULL;
     char path[MAX_PATH_LENGTH] = "";
-    char c = '\0';
+    int c = EOF;
 
     if (!comp->resourceLocation) {
         logError(comp, "Resource location must not be NULL.");
@@ -109,14 +109,19 @@ Status calculateValues(ModelInstance *comp) {
     }
 
     // read the first character
-    c = (char)fgetc(file);
-
-    // assign it to y
-    M(y) = c;
+    c = fgetc(file);
 
     // close the file
     fclose(file);
 
+    if (c == EOF) {
+        logError(comp, "Failed to read resource file %s.", path);
+        return Error;
+    }
+
+    // assign it to y
+    M(y) = (char)c;
+
     comp->isDirtyValues = false;
 
     return OK;
-- 
2.43.0


From 11b616400c1a92f6cdd0cb581bc6770d4bb07ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:35 +0000
Subject: [PATCH 15/35] fix: refuse resource locations that do not fit into the
 path buffer

---
 Resource/model.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Resource/model.c b/Resource/model.c
index 0fa3364..3cb5725 100644
--- a/Resource/model.c
+++ b/Resource/model.c
@@ -34,6 +34,11 @@ Status calculateValues(ModelInstance *comp) {
         return Error;
     }
 
+    if (strlen(comp->resourceLocation) + strlen("/y.txt") >= MAX_PATH_LENGTH) {
+        logError(comp, "Resource location is too long.");
+        return Error;
+    }
+
 #ifdef _WIN32
 
 #if FMI_VERSION < 3
-- 
2.43.0


From d250193b4e26be7d166327d430a89a9fb3801ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:25 +0000
Subject: [PATCH 16/35] fix: drop a log message when there is no memory for it

---
 src/cosimulation.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 99a6cdb..23b5bd9 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -293,8 +293,13 @@ static void logMessage(ModelInstance *comp, int status, const char *category, co
         return;
     }
 
-    va_copy(args1, args);
     buf = (char *)calloc(len + 1, sizeof(char));
+
+    if (!buf) {
+        return;
+    }
+
+    va_copy(args1, args);
     len = vsnprintf(buf, len + 1, message, args);
     va_end(args1);
 
-- 
2.43.0


From e6d217c6c5191233856729235eb47e49d5a64e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:32:43 +0000
Subject: [PATCH 17/35] fix: free a partly created instance when memory runs
 out

---
 src/cosimulation.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 23b5bd9..3c73105 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -86,6 +86,7 @@ ModelInstance *createModelInstance(
 
     if (!comp || !comp->instanceName) {
         logError(comp, "Out of memory.");
+        freeModelInstance(comp);
         return NULL;
     }
 
-- 
2.43.0


From 54b1d80145743ce3d62160ebeb5f16831d04407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:03 +0000
Subject: [PATCH 18/35] fix: fail instantiation when the resource location
 cannot be stored

---
 src/cosimulation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 3c73105..04073a9 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -84,7 +84,7 @@ ModelInstance *createModelInstance(
         comp->eventModeUsed        = false;
     }
 
-    if (!comp || !comp->instanceName) {
+    if (!comp || !comp->instanceName || (resourceLocation && !comp->resourceLocation)) {
         logError(comp, "Out of memory.");
         freeModelInstance(comp);
         return NULL;
-- 
2.43.0


From 2d018feb77e74efd9a4c5c2ec07d6aa4386f02c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:33:34 +0000
Subject: [PATCH 19/35] fix: report failures of fmi2GetFMUstate and
 fmi2SetFMUstate

---
 src/fmi2Functions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index d47fba8..7174173 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -373,13 +373,13 @@ fmi2Status fmi2SetString (fmi2Component c, const fmi2ValueReference vr[], size_t
 
 fmi2Status fmi2GetFMUstate (fmi2Component c, fmi2FMUstate* FMUstate) {
     BEGIN_FUNCTION(GetFMUstate);
-    getFMUState(S, FMUstate);
+    CALL(getFMUState(S, FMUstate));
     END_FUNCTION();
 }
 
 fmi2Status fmi2SetFMUstate(fmi2Component c, fmi2FMUstate FMUstate) {
     BEGIN_FUNCTION(SetFMUstate);
-    setFMUState(S, FMUstate);
+    CALL(setFMUState(S, FMUstate));
     END_FUNCTION();
 }
 
-- 
2.43.0


From 61eac672e8df1dfd0e6fceac132a2128517274ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:53 +0000
Subject: [PATCH 20/35] fix: report a failed allocation in
 fmi2DeSerializeFMUstate

---
 src/fmi2Functions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index 7174173..24663e9 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -423,6 +423,10 @@ fmi2Status fmi2DeSerializeFMUstate (fmi2Component c, const fmi2Byte serializedSt
 
     if (*FMUstate == NULL) {
         *FMUstate = calloc(1, sizeof(ModelInstance));
+        if (*FMUstate == NULL) {
+            logError(S, "Failed to allocate memory.");
+            CALL(Error);
+        }
     }
 
     memcpy(*FMUstate, serializedState, sizeof(ModelInstance));
-- 
2.43.0


From 1d74f10cbd1eaad8bcf8d04e3697257096c7677c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:29 +0000
Subject: [PATCH 21/35] fix: log an error when a Clock function is not
 supported

---
 src/cosimulation.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 04073a9..4f02390 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -571,6 +571,7 @@ Status getPartialDerivative(ModelInstance* comp, ValueReference unknown, ValueRe
 Status activateClock(ModelInstance* comp, ValueReference vr) {
     UNUSED(comp);
     UNUSED(vr);
+    logError(comp, "Activating Clocks is not supported.");
     return Error;
 }
 #endif
@@ -580,6 +581,7 @@ Status getClock(ModelInstance* comp, ValueReference vr, bool* value) {
     UNUSED(comp);
     UNUSED(vr);
     UNUSED(value);
+    logError(comp, "Getting Clocks is not supported.");
     return Error;
 }
 #endif
@@ -590,6 +592,7 @@ Status getInterval(ModelInstance* comp, ValueReference vr, double* interval, int
     UNUSED(vr);
     UNUSED(interval);
     UNUSED(qualifier);
+    logError(comp, "Getting intervals is not supported.");
     return Error;
 }
 #endif
@@ -599,6 +602,7 @@ Status activateModelPartition(ModelInstance* comp, ValueReference vr, double act
     UNUSED(comp);
     UNUSED(vr);
     UNUSED(activationTime);
+    logError(comp, "Activating model partitions is not supported.");
     return Error;
 }
 #endif
-- 
2.43.0


From b21c860b63946962eaff142be8c92d8e3723e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:11 +0000
Subject: [PATCH 22/35] fix: log the arguments of fmi2SetDebugLogging and
 fmi3SetDebugLogging

---
 src/FMI2.c | 2 +-
 src/FMI3.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index 32991d6..b73f9fd 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -123,7 +123,7 @@ FMIStatus FMI2SetDebugLogging(FMIInstance *instance, fmi2Boolean loggingOn, size
 
     if (instance->logFunctionCall) {
         FMIClearLogMessageBuffer(instance);
-        FMIAppendToLogMessageBuffer(instance, "fmi2SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={");
+        FMIAppendToLogMessageBuffer(instance, "fmi2SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={", loggingOn, nCategories);
         FMIAppendArrayToLogMessageBuffer(instance, categories, nCategories, NULL, FMIStringType);
         FMIAppendToLogMessageBuffer(instance, "})");
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
diff --git a/src/FMI3.c b/src/FMI3.c
index 3458960..0bc5339 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -110,7 +110,7 @@ FMIStatus FMI3SetDebugLogging(FMIInstance *instance,
 
     if (instance->logFunctionCall) {
         FMIClearLogMessageBuffer(instance);
-        FMIAppendToLogMessageBuffer(instance, "fmi3SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={");
+        FMIAppendToLogMessageBuffer(instance, "fmi3SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={", loggingOn, nCategories);
         FMIAppendArrayToLogMessageBuffer(instance, categories, nCategories, NULL, FMIStringType);
         FMIAppendToLogMessageBuffer(instance, "})");
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
-- 
2.43.0


From 3f45dc7367bc2c4258c4f9c851a85bbe4088dfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:48:53 +0000
Subject: [PATCH 23/35] fix: log all sizes in FMI3GetBinary and FMI3SetBinary

---
 src/FMI3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FMI3.c b/src/FMI3.c
index 0bc5339..5d88d25 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -610,7 +610,7 @@ FMIStatus FMI3GetBinary(FMIInstance *instance,
         FMIAppendToLogMessageBuffer(instance, "fmi3GetBinary(valueReferences={");
         FMIAppendArrayToLogMessageBuffer(instance, valueReferences, nValueReferences, NULL, FMIValueReferenceType);
         FMIAppendToLogMessageBuffer(instance, "}, nValueReferences=%zu, sizes={", nValueReferences);
-        FMIAppendArrayToLogMessageBuffer(instance, sizes, nValueReferences, NULL, FMISizeTType);
+        FMIAppendArrayToLogMessageBuffer(instance, sizes, nValues, NULL, FMISizeTType);
         FMIAppendToLogMessageBuffer(instance, "}, values={");
         FMIAppendArrayToLogMessageBuffer(instance, values, nValues, sizes, FMIBinaryType);
         FMIAppendToLogMessageBuffer(instance, "}, nValues=%zu)", nValues);
@@ -750,7 +750,7 @@ FMIStatus FMI3SetBinary(FMIInstance *instance,
         FMIAppendToLogMessageBuffer(instance, "fmi3SetBinary(valueReferences={");
         FMIAppendArrayToLogMessageBuffer(instance, valueReferences, nValueReferences, NULL, FMIValueReferenceType);
         FMIAppendToLogMessageBuffer(instance, "}, nValueReferences=%zu, sizes={", nValueReferences);
-        FMIAppendArrayToLogMessageBuffer(instance, sizes, nValueReferences, NULL, FMISizeTType);
+        FMIAppendArrayToLogMessageBuffer(instance, sizes, nValues, NULL, FMISizeTType);
         FMIAppendToLogMessageBuffer(instance, "}, values={");
         FMIAppendArrayToLogMessageBuffer(instance, values, nValues, sizes, FMIBinaryType);
         FMIAppendToLogMessageBuffer(instance, "}, nValues=%zu)", nValues);
-- 
2.43.0


From 205cf9daa896a0a17bb128723ef0ef347ec36b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:50:38 +0000
Subject: [PATCH 24/35] fix: free the function table before it is allocated
 again

---
 src/FMI2.c | 2 ++
 src/FMI3.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/FMI2.c b/src/FMI2.c
index b73f9fd..6bd89a8 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -138,6 +138,8 @@ FMIStatus FMI2Instantiate(FMIInstance *instance, const char *fmuResourceLocation
 
     instance->fmiMajorVersion = FMIMajorVersion2;
 
+    FMIFree((void**)&instance->fmi2Functions);
+
     instance->fmi2Functions = calloc(1, sizeof(FMI2Functions));
 
     if (!instance->fmi2Functions) {
diff --git a/src/FMI3.c b/src/FMI3.c
index 5d88d25..b380099 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -123,6 +123,8 @@ static FMIStatus loadSymbols3(FMIInstance *instance) {
 
 #if !defined(FMI_VERSION) || FMI_VERSION == 3
 
+    FMIFree((void**)&instance->fmi3Functions);
+
     instance->fmi3Functions = calloc(1, sizeof(FMI3Functions));
 
     if (!instance->fmi3Functions) {
-- 
2.43.0


From c0f9679da89508e3eb6998573e61e6167eccef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:15 +0000
Subject: [PATCH 25/35] fix: do not log undefined strings and binaries of a
 failed call

---
 src/FMI2.c | 19 +++++++++++++++++--
 src/FMI3.c | 23 ++++++++++++++++++++---
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index 6bd89a8..39710bf 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -303,7 +303,21 @@ FMIStatus FMI2GetBoolean(FMIInstance *instance, const fmi2ValueReference vr[], s
 }
 
 FMIStatus FMI2GetString(FMIInstance *instance, const fmi2ValueReference vr[], size_t nvr, fmi2String value[]) {
-    CALL_ARRAY(Get, String);
+
+    const FMIStatus status = (FMIStatus)instance->fmi2Functions->fmi2GetString(instance->component, vr, nvr, value);
+
+    if (instance->logFunctionCall) {
+        FMIClearLogMessageBuffer(instance);
+        FMIAppendToLogMessageBuffer(instance, "fmi2GetString(vr={");
+        FMIAppendArrayToLogMessageBuffer(instance, vr, nvr, NULL, FMIValueReferenceType);
+        FMIAppendToLogMessageBuffer(instance, "}, nvr=%zu, value={", nvr);
+        // the pointers are undefined if the call failed
+        FMIAppendArrayToLogMessageBuffer(instance, value, status > FMIWarning ? 0 : nvr, NULL, FMIStringType);
+        FMIAppendToLogMessageBuffer(instance, "})");
+        instance->logFunctionCall(instance, status, instance->logMessageBuffer);
+    }
+
+    return status;
 }
 
 FMIStatus FMI2SetReal(FMIInstance *instance, const fmi2ValueReference vr[], size_t nvr, const fmi2Real value[]) {
@@ -601,7 +615,8 @@ FMIStatus FMI2GetStringStatus(FMIInstance *instance, const fmi2StatusKind s, fmi
 
     if (instance->logFunctionCall) {
         FMIClearLogMessageBuffer(instance);
-        FMIAppendToLogMessageBuffer(instance, "fmi2GetStringStatus(s=%d, value=\"%s\")", s, *value);
+        // the pointer is undefined if the call failed
+        FMIAppendToLogMessageBuffer(instance, "fmi2GetStringStatus(s=%d, value=\"%s\")", s, status > FMIWarning ? "" : *value);
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
     }
 
diff --git a/src/FMI3.c b/src/FMI3.c
index b380099..fb206f3 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -595,7 +595,23 @@ FMIStatus FMI3GetString(FMIInstance *instance,
     size_t nValueReferences,
     fmi3String values[],
     size_t nValues) {
-    CALL_ARRAY(Get, String);
+
+    const FMIStatus status = (FMIStatus)instance->fmi3Functions->fmi3GetString(instance->component, valueReferences, nValueReferences, values, nValues);
+
+    if (instance->logFunctionCall) {
+        FMIClearLogMessageBuffer(instance);
+        FMIAppendToLogMessageBuffer(instance, "fmi3GetString(valueReferences={");
+        FMIAppendArrayToLogMessageBuffer(instance, valueReferences, nValueReferences, NULL, FMIValueReferenceType);
+        FMIAppendToLogMessageBuffer(instance, "}, nValueReferences=%zu, values={", nValueReferences);
+        // the pointers are undefined if the call failed
+        FMIAppendArrayToLogMessageBuffer(instance, values, status > FMIWarning ? 0 : nValues, NULL, FMIStringType);
+        FMIAppendToLogMessageBuffer(instance, "}, nValues=%zu)", nValues);
+        instance->logFunctionCall(instance, status, instance->logMessageBuffer);
+    }
+
+    instance->status = status > instance->status ? status : instance->status;
+
+    return status;
 }
 
 FMIStatus FMI3GetBinary(FMIInstance *instance,
@@ -612,9 +628,10 @@ FMIStatus FMI3GetBinary(FMIInstance *instance,
         FMIAppendToLogMessageBuffer(instance, "fmi3GetBinary(valueReferences={");
         FMIAppendArrayToLogMessageBuffer(instance, valueReferences, nValueReferences, NULL, FMIValueReferenceType);
         FMIAppendToLogMessageBuffer(instance, "}, nValueReferences=%zu, sizes={", nValueReferences);
-        FMIAppendArrayToLogMessageBuffer(instance, sizes, nValues, NULL, FMISizeTType);
+        // the sizes and pointers are undefined if the call failed
+        FMIAppendArrayToLogMessageBuffer(instance, sizes, status > FMIWarning ? 0 : nValues, NULL, FMISizeTType);
         FMIAppendToLogMessageBuffer(instance, "}, values={");
-        FMIAppendArrayToLogMessageBuffer(instance, values, nValues, sizes, FMIBinaryType);
+        FMIAppendArrayToLogMessageBuffer(instance, values, status > FMIWarning ? 0 : nValues, sizes, FMIBinaryType);
         FMIAppendToLogMessageBuffer(instance, "}, nValues=%zu)", nValues);
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
     }
-- 
2.43.0


From e9dfcaebc8fc89efd7b71542251e79933dcf5f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:21 +0000
Subject: [PATCH 26/35] fix: grow the log message buffer when a message fills
 it exactly

---
 src/FMI.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FMI.c b/src/FMI.c
index 465dc09..08a13a0 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -206,7 +206,7 @@ void FMIAppendToLogMessageBuffer(FMIInstance* instance, const char* format, ...)
 
     } else {
 
-        while (instance->logMessageBufferSize < instance->logMessageBufferPosition + length) {
+        while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + length) {
             instance->logMessageBufferSize *= 2;
         }
 
@@ -319,7 +319,7 @@ void FMIAppendArrayToLogMessageBuffer(FMIInstance* instance, const void* values,
 
         } else {
 
-            while (instance->logMessageBufferSize < instance->logMessageBufferPosition + requiredCharacters) {
+            while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + requiredCharacters) {
                 instance->logMessageBufferSize *= 2;
             }
 
-- 
2.43.0


From 9a5839d8987763e82bbb78422949214cc7f23322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:55:52 +0000
Subject: [PATCH 27/35] fix: load fmi3SetShiftDecimal and fmi3SetShiftFraction

---
 src/FMI3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FMI3.c b/src/FMI3.c
index fb206f3..9234de3 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -211,6 +211,8 @@ static FMIStatus loadSymbols3(FMIInstance *instance) {
     LOAD_SYMBOL(GetShiftFraction);
     LOAD_SYMBOL(SetIntervalDecimal);
     LOAD_SYMBOL(SetIntervalFraction);
+    LOAD_SYMBOL(SetShiftDecimal);
+    LOAD_SYMBOL(SetShiftFraction);
     LOAD_SYMBOL(EvaluateDiscreteStates);
     LOAD_SYMBOL(UpdateDiscreteStates);
 
-- 
2.43.0


From 5057db942e0f3a0a377ece0eea6ccdde040dbd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:11 +0000
Subject: [PATCH 28/35] fix: log the number of event indicators and continuous
 states instead of its address

---
 src/FMI3.c | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/FMI3.c b/src/FMI3.c
index 9234de3..276ce16 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -1148,12 +1148,34 @@ FMIStatus FMI3GetNominalsOfContinuousStates(FMIInstance *instance,
 
 FMIStatus FMI3GetNumberOfEventIndicators(FMIInstance *instance,
     size_t* nEventIndicators) {
-    CALL_ARGS(GetNumberOfEventIndicators, "nEventIndicators=%zu", nEventIndicators);
+
+    const FMIStatus status = (FMIStatus)instance->fmi3Functions->fmi3GetNumberOfEventIndicators(instance->component, nEventIndicators);
+
+    if (instance->logFunctionCall) {
+        FMIClearLogMessageBuffer(instance);
+        FMIAppendToLogMessageBuffer(instance, "fmi3GetNumberOfEventIndicators(nEventIndicators=%zu)", *nEventIndicators);
+        instance->logFunctionCall(instance, status, instance->logMessageBuffer);
+    }
+
+    instance->status = status > instance->status ? status : instance->status;
+
+    return status;
 }
 
 FMIStatus FMI3GetNumberOfContinuousStates(FMIInstance *instance,
     size_t* nContinuousStates) {
-    CALL_ARGS(GetNumberOfContinuousStates, "nContinuousStates=%zu", nContinuousStates);
+
+    const FMIStatus status = (FMIStatus)instance->fmi3Functions->fmi3GetNumberOfContinuousStates(instance->component, nContinuousStates);
+
+    if (instance->logFunctionCall) {
+        FMIClearLogMessageBuffer(instance);
+        FMIAppendToLogMessageBuffer(instance, "fmi3GetNumberOfContinuousStates(nContinuousStates=%zu)", *nContinuousStates);
+        instance->logFunctionCall(instance, status, instance->logMessageBuffer);
+    }
+
+    instance->status = status > instance->status ? status : instance->status;
+
+    return status;
 }
 
 /***************************************************
-- 
2.43.0


From 52f4c3c6e038b2cbd7f3b59d0cb75f999544e928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:40 +0000
Subject: [PATCH 29/35] fix: fail FMICreateInstance when memory runs out

---
 src/FMI.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/FMI.c b/src/FMI.c
index 08a13a0..1c68402 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -108,6 +108,11 @@ FMIInstance *FMICreateInstance(const char *instanceName, FMILogMessage *logMessa
 
     instance->name = strdup(instanceName);
 
+    if (!instance->logMessageBuffer || !instance->name) {
+        FMIFreeInstance(instance);
+        return NULL;
+    }
+
     instance->status = FMIOK;
 
     return instance;
-- 
2.43.0


From a84772604b79d90d76cc8f413436c1812c88942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:12 +0000
Subject: [PATCH 30/35] fix: fail FMI3InstantiateModelExchange when the symbols
 cannot be loaded

---
 src/FMI3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/FMI3.c b/src/FMI3.c
index 276ce16..52d7fdf 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -266,6 +266,10 @@ FMIStatus FMI3InstantiateModelExchange(
 
     const FMIStatus status = loadSymbols3(instance);
 
+    if (status != FMIOK) {
+        return status;
+    }
+
     fmi3LogMessageCallback logMessage = instance->logMessage ? cb_logMessage3 : NULL;
 
     instance->component = instance->fmi3Functions->fmi3InstantiateModelExchange(instance->name, instantiationToken, resourcePath, visible, loggingOn, instance, logMessage);
-- 
2.43.0


From d8e420ce5d1512f5afcb4382974eecb8f356bccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:49 +0000
Subject: [PATCH 31/35] fix: do not call a missing log callback when a symbol
 is missing

---
 src/FMI2.c | 8 ++++++--
 src/FMI3.c | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index 39710bf..2029cac 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -44,7 +44,9 @@ do { \
 do { \
     instance->fmi2Functions->fmi2 ## f = (fmi2 ## f ## TYPE*)GetProcAddress(instance->libraryHandle, "fmi2" #f); \
     if (!instance->fmi2Functions->fmi2 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        if (instance->logMessage) { \
+            instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        } \
         return FMIFatal; \
     }\
 } while (0)
@@ -53,7 +55,9 @@ do { \
 do { \
     instance->fmi2Functions->fmi2 ## f = (fmi2 ## f ## TYPE*)dlsym(instance->libraryHandle, "fmi2" #f); \
     if (!instance->fmi2Functions->fmi2 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        if (instance->logMessage) { \
+            instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        } \
         return FMIFatal; \
     } \
 } while (0)
diff --git a/src/FMI3.c b/src/FMI3.c
index 52d7fdf..9a43618 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -36,7 +36,9 @@ do { \
 do { \
     instance->fmi3Functions->fmi3 ## f = (fmi3 ## f ## TYPE*)GetProcAddress(instance->libraryHandle, "fmi3" #f); \
     if (!instance->fmi3Functions->fmi3 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        if (instance->logMessage) { \
+            instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        } \
         return FMIFatal; \
     } \
 } while (0)
@@ -45,7 +47,9 @@ do { \
 do { \
     instance->fmi3Functions->fmi3 ## f = (fmi3 ## f ## TYPE*)dlsym(instance->libraryHandle, "fmi3" #f); \
     if (!instance->fmi3Functions->fmi3 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        if (instance->logMessage) { \
+            instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        } \
         return FMIFatal; \
     } \
 } while (0)
-- 
2.43.0


From cc7abdb96d16c0a8695c0d91695fabf0db15f40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:25 +0000
Subject: [PATCH 32/35] fix: keep the size of the log message buffer when it
 cannot grow

---
 src/FMI.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/FMI.c b/src/FMI.c
index 1c68402..29d7cf0 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -211,14 +211,18 @@ void FMIAppendToLogMessageBuffer(FMIInstance* instance, const char* format, ...)
 
     } else {
 
-        while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + length) {
-            instance->logMessageBufferSize *= 2;
+        size_t size = instance->logMessageBufferSize;
+
+        while (size <= instance->logMessageBufferPosition + length) {
+            size *= 2;
         }
 
-        if (FMIRealloc((void**)&instance->logMessageBuffer, instance->logMessageBufferSize) != FMIOK) {
+        if (FMIRealloc((void**)&instance->logMessageBuffer, size) != FMIOK) {
             return;
         }
 
+        instance->logMessageBufferSize = size;
+
         va_start(args, format);
         instance->logMessageBufferPosition += vsnprintf(&instance->logMessageBuffer[instance->logMessageBufferPosition], instance->logMessageBufferSize - instance->logMessageBufferPosition, format, args);
         va_end(args);
@@ -324,14 +328,18 @@ void FMIAppendArrayToLogMessageBuffer(FMIInstance* instance, const void* values,
 
         } else {
 
-            while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + requiredCharacters) {
-                instance->logMessageBufferSize *= 2;
+            size_t size = instance->logMessageBufferSize;
+
+            while (size <= instance->logMessageBufferPosition + requiredCharacters) {
+                size *= 2;
             }
 
-            if (FMIRealloc((void**)&instance->logMessageBuffer, instance->logMessageBufferSize) != FMIOK) {
+            if (FMIRealloc((void**)&instance->logMessageBuffer, size) != FMIOK) {
                 return;
             }
 
+            instance->logMessageBufferSize = size;
+
             continue;
         }
 
-- 
2.43.0


From 2c5355a40696a7db67048832f9f548c98cc4bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:48:29 +0000
Subject: [PATCH 33/35] fix: reject NaN as communication step size

DoStep compared the step size with <= 0, which is false for NaN, and then
never reached the next communication point.
---
 src/fmi2Functions.c | 2 +-
 src/fmi3Functions.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index 24663e9..092c84b 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -520,7 +520,7 @@ fmi2Status fmi2DoStep(fmi2Component c, fmi2Real currentCommunicationPoint,
         CALL(Error);
     }
 
-    if (communicationStepSize <= 0) {
+    if (!(communicationStepSize > 0)) {  // also rejects NaN
         logError(S, "Communication step size must be > 0 but was %g.", communicationStepSize);
         CALL(Error);
     }
diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 7a4b653..18f8298 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1225,7 +1225,7 @@ fmi3Status fmi3DoStep(fmi3Instance instance,
         CALL(Error);
     }
 
-    if (communicationStepSize <= 0) {
+    if (!(communicationStepSize > 0)) {  // also rejects NaN
         logError(S, "Communication step size must be > 0 but was %.16g.", communicationStepSize);
         CALL(Error);
     }
-- 
2.43.0


From 70d1e17cf4e52dbffb8c293a7a22f78e66f08ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:48:30 +0000
Subject: [PATCH 34/35] fix: do not consider every number close to infinity

DoStep accepted an infinite communication point, and an infinite step size
with a stop time, and did not return.
---
 src/cosimulation.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 4f02390..61cf138 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -1,5 +1,6 @@
 #include <stdlib.h>  // for calloc(), free()
 #include <float.h>   // for DBL_EPSILON
+#include <math.h>    // for isinf()
 #include <stdio.h>
 #include <stdarg.h>
 #include <string.h>
@@ -192,6 +193,11 @@ static double fmiMax(double a, double b) {
 
 bool isClose(double a, double b) {
 
+    // the difference to an infinite value is infinite and would be within the relative tolerance
+    if (isinf(a) || isinf(b)) {
+        return a == b;
+    }
+
     if (fmiAbs(a - b) <= EPSILON) {
         return true;
     }
-- 
2.43.0


From 6616881a5a70703089ba213e9533b6e4e9daf1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 13:39:57 +0000
Subject: [PATCH 35/35] fix: do not use log messages as format strings in FMI 2

The message of the FMI 2 logger is a format string. A message that quotes text
of the importer, for example an unknown log category with a %, made the logger
read arguments that do not exist.
---
 src/cosimulation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 61cf138..763de1b 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -311,9 +311,9 @@ static void logMessage(ModelInstance *comp, int status, const char *category, co
     va_end(args1);
 
     if (len >= 0) {
-        // no need to distinguish between FMI versions since we're not using variadic arguments
 #if FMI_VERSION < 3
-        comp->logger(comp->componentEnvironment, comp->instanceName, status, category, buf);
+        // the message is a format string in FMI 2
+        comp->logger(comp->componentEnvironment, comp->instanceName, status, category, "%s", buf);
 #else
         comp->logger(comp->componentEnvironment, status, category, buf);
 #endif
-- 
2.43.0

