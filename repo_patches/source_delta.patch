From 8ced5a14cbf4353231659370fc1d7a7076d0efdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:40 +0000
Subject: [PATCH 01/38] fix: refuse setting Boolean_output of the Feedthrough
 model

Boolean_output is a calculated output. Setting it was accepted, although the
value was lost with the next calculation and all other outputs refuse it.
---
 Feedthrough/model.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/Feedthrough/model.c b/Feedthrough/model.c
index e113dc6..5bd611e 100644
--- a/Feedthrough/model.c
+++ b/Feedthrough/model.c
@@ -746,10 +746,6 @@ Status setBoolean(ModelInstance* comp, ValueReference vr, const bool values[], s
             ASSERT_NVALUES(1);
             M(Boolean_input) = values[(*index)++];
             break;
-        case vr_Boolean_output:
-            ASSERT_NVALUES(1);
-            M(Boolean_output) = values[(*index)++];
-            break;
         default:
             logError(comp, "Set Boolean is not allowed for value reference %u.", vr);
             return Error;
-- 
2.43.0


From 116a903e3bd56b1c97587917b6823a7bac1b1912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:39 +0000
Subject: [PATCH 02/38] fix: allow setting a single structural parameter of
 StateSpace

The number of values was checked after the index had been advanced, so that
setting the last structural parameter of a call always failed, and the value
was read before the check.
---
 StateSpace/model.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index abc914d..181b267 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -262,6 +262,8 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
         return Error;
     }
 
+    ASSERT_NVALUES(1);
+
     const uint64_t v = values[(*index)++];
 
     switch (vr) {
@@ -270,7 +272,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable m must not be greater than " xstr(M_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(m) = v;
             break;
         case vr_n:
@@ -278,7 +279,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable n must not be greater than " xstr(N_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(n) = v;
             break;
         case vr_r:
@@ -286,7 +286,6 @@ Status setUInt64(ModelInstance* comp, ValueReference vr, const uint64_t values[]
                 logError(comp, "Variable r must not be greater than " xstr(R_MAX) ".");
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(r) = v;
             break;
         default:
-- 
2.43.0


From a9fd0e417dd19ca672bdcb2b86adab44d0b7890b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:39 +0000
Subject: [PATCH 03/38] fix: check the number of values before reading them

Stair and Feedthrough validated the value to be set before checking that it
is part of the array passed by the caller.
---
 Feedthrough/model.c | 8 ++++----
 Stair/model.c       | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/Feedthrough/model.c b/Feedthrough/model.c
index 5bd611e..18d847e 100644
--- a/Feedthrough/model.c
+++ b/Feedthrough/model.c
@@ -648,11 +648,11 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
             break;
 #if FMI_VERSION == 2
         case vr_Enumeration_input:
+            ASSERT_NVALUES(1);
             if (values[*index] != Option1 && values[*index] != Option2) {
                 logError(comp, "%d is not a legal value for Enumeration_input.", values[*index]);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Enumeration_input) = values[(*index)++];
             break;
 #endif
@@ -698,11 +698,11 @@ Status setInt64(ModelInstance* comp, ValueReference vr, const int64_t values[],
             break;
 #if FMI_VERSION == 3
         case vr_Enumeration_input:
+            ASSERT_NVALUES(1);
             if (values[*index] != Option1 && values[*index] != Option2) {
                 logError(comp, "%llu is not a legal value for Enumeration_input.", values[*index]);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Enumeration_input) = values[(*index)++];
             break;
 #endif
@@ -763,11 +763,11 @@ Status setString(ModelInstance* comp, ValueReference vr, const char *const value
 
     switch (vr) {
         case vr_String_input:
+            ASSERT_NVALUES(1);
             if (strlen(values[*index]) >= STRING_MAX_LEN) {
                 logError(comp, "Max. string length is %d bytes.", STRING_MAX_LEN);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             strcpy(M(String_input), values[(*index)++]);
             break;
         default:
@@ -787,11 +787,11 @@ Status setBinary(ModelInstance* comp, ValueReference vr, const size_t size[], co
 
     switch (vr) {
         case vr_Binary_input:
+            ASSERT_NVALUES(1);
             if (size[*index] > BINARY_MAX_LEN) {
                 logError(comp, "Max. binary size is %d bytes.", BINARY_MAX_LEN);
                 return Error;
             }
-            ASSERT_NVALUES(1);
             M(Binary_input_size) = size[*index];
             memcpy((void *)M(Binary_input), values[(*index)++], M(Binary_input_size));
             break;
diff --git a/Stair/model.c b/Stair/model.c
index 97716ec..19c5df6 100644
--- a/Stair/model.c
+++ b/Stair/model.c
@@ -64,12 +64,13 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
             return Error;
         }
 
+        ASSERT_NVALUES(1);
+
         if (values[*index] >= 10) {
             logError(comp, "The maximum value for variable \"counter\" is 10.");
             return Error;
         }
 
-        ASSERT_NVALUES(1);
         M(counter) = values[(*index)++];
 
         break;
-- 
2.43.0


From 7e449488b5df8964d597ec607f14c4852cd9fbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:39 +0000
Subject: [PATCH 04/38] fix: validate the arrays passed to the FMI 3 setters
 and fmi3GetBinary

The setters did not check for missing values and sizes, and fmi3GetBinary
accepted a number of values that differs from the number of variables.
---
 src/fmi3Functions.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 10af071..cbc2752 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -69,6 +69,7 @@ END_FUNCTION()
 BEGIN_FUNCTION(Set ## T); \
 if (nValueReferences == 0) goto TERMINATE; \
 ASSERT_NOT_NULL(valueReferences); \
+if (nValues > 0) ASSERT_NOT_NULL(values); \
 size_t index = 0; \
 for (size_t i = 0; i < nValueReferences; i++) { \
     CALL(set ## T(S, (ValueReference)valueReferences[i], values, nValues, &index)); \
@@ -560,6 +561,7 @@ fmi3Status fmi3GetBinary(fmi3Instance instance,
     }
 
     if (nValues > 0) {
+        ASSERT_NOT_NULL(valueSizes);
         ASSERT_NOT_NULL(values);
     }
 
@@ -574,6 +576,11 @@ fmi3Status fmi3GetBinary(fmi3Instance instance,
         CALL(getBinary(S, (ValueReference)valueReferences[i], valueSizes, (const char**)values, nValues, &index));
     }
 
+    if (index != nValues) {
+        logError(S, "Expected nValues = %zu but was %zu.", index, nValues);
+        CALL(Error);
+    }
+
     END_FUNCTION();
 }
 
@@ -701,6 +708,11 @@ fmi3Status fmi3SetBinary(fmi3Instance instance,
 
     ASSERT_NOT_NULL(valueReferences);
 
+    if (nValues > 0) {
+        ASSERT_NOT_NULL(valueSizes);
+        ASSERT_NOT_NULL(values);
+    }
+
     size_t index = 0;
 
     for (size_t i = 0; i < nValueReferences; i++) {
-- 
2.43.0


From 9a80151207805cb44d927dd41c4dd63bacd7a966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:39 +0000
Subject: [PATCH 05/38] fix: validate the arrays passed to fmi2GetBoolean and
 fmi2SetBoolean

Missing arrays were dereferenced instead of reported, unlike in the functions
for all other types, and setting did not mark the values as outdated.
---
 src/fmi2Functions.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index ecf9f61..1980288 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -60,6 +60,9 @@ do { \
 
 #define GET_BOOLEAN_VARIABLES \
 do { \
+    if (nvr == 0) goto TERMINATE; \
+    ASSERT_NOT_NULL(vr); \
+    ASSERT_NOT_NULL(value); \
     for (size_t i = 0; i < nvr; i++) { \
         bool v; \
         size_t index = 0; \
@@ -70,11 +73,15 @@ do { \
 
 #define SET_BOOLEAN_VARIABLES \
 do { \
+    if (nvr == 0) goto TERMINATE; \
+    ASSERT_NOT_NULL(vr); \
+    ASSERT_NOT_NULL(value); \
     for (size_t i = 0; i < nvr; i++) { \
         const bool v = value[i]; \
         size_t index = 0; \
         CALL(setBoolean(S, vr[i], &v, nvr, &index)); \
     } \
+    S->isDirtyValues = true; \
 } while (false)
 
 #ifndef DT_EVENT_DETECT
-- 
2.43.0


From fea08cf3ba5514fcbadc3679d9c5cf0f33b95e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:19 +0000
Subject: [PATCH 06/38] fix: refuse Co-Simulation instances of models without
 that interface

fmi3InstantiateCoSimulation returned an instance of the Clocks model, which
only supports Scheduled Execution.
---
 src/fmi3Functions.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index cbc2752..4991117 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -303,6 +303,19 @@ fmi3Instance fmi3InstantiateCoSimulation(
     UNUSED(requiredIntermediateVariables);
     UNUSED(nRequiredIntermediateVariables);
 
+#ifndef CO_SIMULATION
+    UNUSED(instanceName);
+    UNUSED(instantiationToken);
+    UNUSED(resourcePath);
+    UNUSED(loggingOn);
+    UNUSED(eventModeUsed);
+    UNUSED(earlyReturnAllowed);
+    UNUSED(instanceEnvironment);
+    UNUSED(logMessage);
+    UNUSED(intermediateUpdate);
+
+    return NULL;
+#else
 #ifndef EVENT_UPDATE
     if (eventModeUsed) {
         if (logMessage) {
@@ -329,6 +342,7 @@ fmi3Instance fmi3InstantiateCoSimulation(
     }
 
     return instance;
+#endif
 }
 
 fmi3Instance fmi3InstantiateScheduledExecution(
-- 
2.43.0


From 3f164a1b8a6b4c99457192847f60c24e329b1ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:33 +0000
Subject: [PATCH 07/38] fix: report errors of fmi2GetFMUstate and
 fmi2SetFMUstate

The status of the underlying functions was discarded, so that restoring a
missing state or failing to save one was reported as success.
---
 src/fmi2Functions.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index 1980288..e81ef41 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -374,13 +374,13 @@ fmi2Status fmi2SetString (fmi2Component c, const fmi2ValueReference vr[], size_t
 
 fmi2Status fmi2GetFMUstate (fmi2Component c, fmi2FMUstate* FMUstate) {
     BEGIN_FUNCTION(GetFMUstate);
-    getFMUState(S, FMUstate);
+    CALL(getFMUState(S, FMUstate));
     END_FUNCTION();
 }
 
 fmi2Status fmi2SetFMUstate(fmi2Component c, fmi2FMUstate FMUstate) {
     BEGIN_FUNCTION(SetFMUstate);
-    setFMUState(S, FMUstate);
+    CALL(setFMUState(S, FMUstate));
     END_FUNCTION();
 }
 
-- 
2.43.0


From fc92ce8768577ccf6b712b156eecac19c4fdf0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:36 +0000
Subject: [PATCH 08/38] fix: reset the event information of an instance

A reset kept the request to terminate the simulation, so that a simulation of
the Stair model after a reset stopped in its first step.
---
 src/cosimulation.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index eaddace..79e66dc 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -164,6 +164,12 @@ Status reset(ModelInstance* comp) {
     comp->time = 0.0;
     comp->nSteps = 0;
     comp->status = OK;
+    comp->newDiscreteStatesNeeded = false;
+    comp->terminateSimulation = false;
+    comp->nominalsOfContinuousStatesChanged = false;
+    comp->valuesOfContinuousStatesChanged = false;
+    comp->nextEventTimeDefined = false;
+    comp->nextEventTime = 0;
     setStartValues(comp);
     comp->isDirtyValues = true;
 
-- 
2.43.0


From df229c532466e13e71dafea77c2d17bb518cc787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:38 +0000
Subject: [PATCH 09/38] fix: reset the initial state vector of StateSpace

x0 kept its value when the instance was reset.
---
 StateSpace/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index 181b267..984da69 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -27,8 +27,8 @@ Status setStartValues(ModelInstance *comp) {
     }
 
     for (int i = 0; i < N_MAX; i++) {
+        M(x0)[i] = 0;
         M(x)[i] = M(x0)[i];
-        M(x)[i] = 0;
     }
 
     comp->isDirtyValues = true;
-- 
2.43.0


From fe56829a8471a1c81847a9558c27b2d948f34669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:58:08 +0000
Subject: [PATCH 10/38] fix: refuse steps to a communication point that is not
 finite

A step size of NaN or infinity, or an infinite communication point, passed
the argument checks of fmi2DoStep and fmi3DoStep and made the step loop run
forever. Return an error instead.
---
 src/fmi2Functions.c | 6 ++++++
 src/fmi3Functions.c | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index e81ef41..3f072d3 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -524,6 +524,12 @@ fmi2Status fmi2DoStep(fmi2Component c, fmi2Real currentCommunicationPoint,
 
     const fmi2Real nextCommunicationPoint = currentCommunicationPoint + communicationStepSize;
 
+    if (!isfinite(nextCommunicationPoint)) {
+        logError(S, "The communication point and step size must be finite but were %.16g and %.16g.",
+            currentCommunicationPoint, communicationStepSize);
+        CALL(Error);
+    }
+
     if (nextCommunicationPoint > S->stopTime && !isClose(nextCommunicationPoint, S->stopTime)) {
         logError(S, "At communication point %.16g a step size of %.16g was requested but stop time is %.16g.",
             currentCommunicationPoint, communicationStepSize, S->stopTime);
diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 4991117..748f184 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1242,6 +1242,12 @@ fmi3Status fmi3DoStep(fmi3Instance instance,
 
     const fmi3Float64 nextCommunicationPoint = currentCommunicationPoint + communicationStepSize;
 
+    if (!isfinite(nextCommunicationPoint)) {
+        logError(S, "The communication point and step size must be finite but were %.16g and %.16g.",
+            currentCommunicationPoint, communicationStepSize);
+        CALL(Error);
+    }
+
     if (nextCommunicationPoint > S->stopTime && !isClose(nextCommunicationPoint, S->stopTime)) {
         logError(S, "At communication point %.16g a step size of %.16g was requested but stop time is %.16g.",
             currentCommunicationPoint, communicationStepSize, S->stopTime);
-- 
2.43.0


From 8d08b292c842d59fc08c3e58599020ac90753cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:14:30 +0000
Subject: [PATCH 11/38] fix: do not report a state event again after it was
 handled

The event indicators remembered for the detection of zero-crossings were
not updated when an event was handled at the beginning of an internal step
or in Event Mode, so the next step reported the same event once more. The
status of eventUpdate() was ignored there, too.
---
 src/fmi3Functions.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/fmi3Functions.c b/src/fmi3Functions.c
index 748f184..2e60ebf 100644
--- a/src/fmi3Functions.c
+++ b/src/fmi3Functions.c
@@ -1187,6 +1187,14 @@ fmi3Status fmi3GetNumberOfContinuousStates(fmi3Instance instance,
 
 fmi3Status fmi3EnterStepMode(fmi3Instance instance) {
     BEGIN_FUNCTION(EnterStepMode);
+
+#if MAX_EVENT_INDICATORS > 0
+    // the event indicators may have been changed in Event Mode
+    if (S->nz > 0) {
+        CALL(getEventIndicators(S, S->prez, S->nz));
+    }
+#endif
+
     S->state = StepMode;
     END_FUNCTION();
 }
@@ -1272,7 +1280,10 @@ fmi3Status fmi3DoStep(fmi3Instance instance,
 
 #ifdef EVENT_UPDATE
         if (*eventHandlingNeeded) {
-            eventUpdate(S);
+            CALL(eventUpdate(S));
+#if MAX_EVENT_INDICATORS > 0
+            CALL(getEventIndicators(S, S->prez, S->nz));
+#endif
             *eventHandlingNeeded = fmi3False;
         }
 #endif
-- 
2.43.0


From 529ceddd6f4e73a765746f046b46908779296128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:30:33 +0000
Subject: [PATCH 12/38] fix: return the input matrix of StateSpace with n rows
 and m columns

---
 StateSpace/model.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index 984da69..5dcc29e 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -99,9 +99,9 @@ Status getFloat64(ModelInstance* comp, ValueReference vr, double values[], size_
             }
             return OK;
         case vr_B:
-            ASSERT_NVALUES((size_t)(M(m) * M(n)));
-            for (size_t i = 0; i < M(m); i++) {
-                for (size_t j = 0; j < M(n); j++) {
+            ASSERT_NVALUES((size_t)(M(n) * M(m)));
+            for (size_t i = 0; i < M(n); i++) {
+                for (size_t j = 0; j < M(m); j++) {
                     values[(*index)++] = M(B)[i][j];
                 }
             }
-- 
2.43.0


From 5b7d6d861070207213c819944a89ce2ec70309fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:30:33 +0000
Subject: [PATCH 13/38] fix: sum over all inputs of StateSpace in the
 derivatives

---
 StateSpace/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index 5dcc29e..1dbc8fd 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -51,7 +51,7 @@ Status calculateValues(ModelInstance *comp) {
 
     for (size_t i = 0; i < M(n); i++) {
 
-        for (size_t j = 0; j < M(r); j++) {
+        for (size_t j = 0; j < M(m); j++) {
             M(der_x)[i] += M(B)[i][j] * M(u)[j];
         }
     }
-- 
2.43.0


From 1fde6be17a393515d71b56785dc5f9c865812259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:30:33 +0000
Subject: [PATCH 14/38] fix: start StateSpace from the initial state vector x0

---
 StateSpace/model.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/StateSpace/model.c b/StateSpace/model.c
index 1dbc8fd..b3847cb 100644
--- a/StateSpace/model.c
+++ b/StateSpace/model.c
@@ -200,6 +200,9 @@ Status setFloat64(ModelInstance* comp, ValueReference vr, const double values[],
         ASSERT_NVALUES((size_t)M(n));
         for (size_t i = 0; i < M(n); i++) {
             M(x0)[i] = values[(*index)++];
+            if (comp->state == Instantiated || comp->state == ConfigurationMode || comp->state == InitializationMode) {
+                M(x)[i] = M(x0)[i];
+            }
         }
         break;
     case vr_u:
-- 
2.43.0


From a904012e06a1c1b5ebf4e02a6ce58df4387bc822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:56:12 +0000
Subject: [PATCH 15/38] fix: keep the terminator when a log message exactly
 fills the buffer

A message that needed exactly the remaining space did not enlarge the buffer, so its last character was lost and the next text started behind the end.
---
 src/FMI.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FMI.c b/src/FMI.c
index 465dc09..147e7ae 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -206,7 +206,7 @@ void FMIAppendToLogMessageBuffer(FMIInstance* instance, const char* format, ...)
 
     } else {
 
-        while (instance->logMessageBufferSize < instance->logMessageBufferPosition + length) {
+        while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + length) {
             instance->logMessageBufferSize *= 2;
         }
 
-- 
2.43.0


From 2c10360b9b282e53b893f040744c2b95737cd1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:56:12 +0000
Subject: [PATCH 16/38] fix: enlarge the log buffer when a value exactly fills
 it

A value that needed exactly the remaining space neither fitted nor enlarged the buffer, so logging it never returned.
---
 src/FMI.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FMI.c b/src/FMI.c
index 147e7ae..08a13a0 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -319,7 +319,7 @@ void FMIAppendArrayToLogMessageBuffer(FMIInstance* instance, const void* values,
 
         } else {
 
-            while (instance->logMessageBufferSize < instance->logMessageBufferPosition + requiredCharacters) {
+            while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + requiredCharacters) {
                 instance->logMessageBufferSize *= 2;
             }
 
-- 
2.43.0


From 9bfd08102f3b9ff9989c4f8d92a90bd057270a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:04:06 +0000
Subject: [PATCH 17/38] fix: encode control and non-ASCII characters in file
 URIs correctly

Characters below 0x10 were encoded with a blank and bytes above 0x7F with eight digits, which also overran the space reserved for them.
---
 src/FMI.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FMI.c b/src/FMI.c
index 08a13a0..9ceb3e3 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -383,7 +383,7 @@ FMIStatus FMIPathToURI(const char *path, char *uri, const size_t uriLength) {
         }
 
         if (encode) {
-            sprintf(&uri[p], "%%%2X", c);
+            sprintf(&uri[p], "%%%02X", (unsigned char)c);
             p += 3;
         } else {
             uri[p++] = c;
-- 
2.43.0


From c5e5bd5237cbb1f3b592cb1c26f55f6391bd8fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:09:21 +0000
Subject: [PATCH 18/38] fix: do not read before an empty unzip directory

The platform binary path looked at the character before an empty directory name. An empty name now gives a path relative to the current directory.
---
 src/FMI.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FMI.c b/src/FMI.c
index 9ceb3e3..513feee 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -400,9 +400,9 @@ FMIStatus FMIPlatformBinaryPath(const char *unzipdir, const char *modelIdentifie
 
     char* separator = ""; // optional separator after the unzipdir
 
-    const char last = unzipdir[strlen(unzipdir) - 1];
+    const size_t length = strlen(unzipdir);
 
-    if (last != '/' && last != '\\') {
+    if (length > 0 && unzipdir[length - 1] != '/' && unzipdir[length - 1] != '\\') {
         separator = FMI_FILE_SEPARATOR;
     }
 
-- 
2.43.0


From 8c4c7095abda4424b764dd5c44038a78574c265b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:12:47 +0000
Subject: [PATCH 19/38] fix: pass the arguments of fmi2SetDebugLogging to its
 log message

The format had two conversions but no arguments, so logging the call printed whatever was in the argument registers.
---
 src/FMI2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index 32991d6..b73f9fd 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -123,7 +123,7 @@ FMIStatus FMI2SetDebugLogging(FMIInstance *instance, fmi2Boolean loggingOn, size
 
     if (instance->logFunctionCall) {
         FMIClearLogMessageBuffer(instance);
-        FMIAppendToLogMessageBuffer(instance, "fmi2SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={");
+        FMIAppendToLogMessageBuffer(instance, "fmi2SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={", loggingOn, nCategories);
         FMIAppendArrayToLogMessageBuffer(instance, categories, nCategories, NULL, FMIStringType);
         FMIAppendToLogMessageBuffer(instance, "})");
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
-- 
2.43.0


From a4e0e382a8db828ea8b45e9ea41c9d9e4045ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:12:47 +0000
Subject: [PATCH 20/38] fix: pass the arguments of fmi3SetDebugLogging to its
 log message

The format had two conversions but no arguments, so logging the call printed whatever was in the argument registers.
---
 src/FMI3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FMI3.c b/src/FMI3.c
index 3458960..0bc5339 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -110,7 +110,7 @@ FMIStatus FMI3SetDebugLogging(FMIInstance *instance,
 
     if (instance->logFunctionCall) {
         FMIClearLogMessageBuffer(instance);
-        FMIAppendToLogMessageBuffer(instance, "fmi3SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={");
+        FMIAppendToLogMessageBuffer(instance, "fmi3SetDebugLogging(loggingOn=%d, nCategories=%zu, categories={", loggingOn, nCategories);
         FMIAppendArrayToLogMessageBuffer(instance, categories, nCategories, NULL, FMIStringType);
         FMIAppendToLogMessageBuffer(instance, "})");
         instance->logFunctionCall(instance, status, instance->logMessageBuffer);
-- 
2.43.0


From 0486bbff8778993b78a657b69ded3257f85065bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:16:59 +0000
Subject: [PATCH 21/38] fix: track the step mode in FMI3EnterStepMode

All other mode changes update the state of the importer instance, entering step mode did not.
---
 src/FMI3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FMI3.c b/src/FMI3.c
index 0bc5339..067faf8 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -1142,6 +1142,7 @@ Types for Functions for Co-Simulation
 /* Simulating the FMU */
 
 FMIStatus FMI3EnterStepMode(FMIInstance *instance) {
+    instance->state = FMIStepModeState;
     CALL(EnterStepMode);
 }
 
-- 
2.43.0


From 6efcdf050139695aeae24916e3c002e03848d189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:20:33 +0000
Subject: [PATCH 22/38] fix: load fmi3SetShiftDecimal and fmi3SetShiftFraction

The importer offers both functions but never looked them up, so calling them jumped to address zero.
---
 src/FMI3.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/FMI3.c b/src/FMI3.c
index 067faf8..80e62b6 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -209,6 +209,8 @@ static FMIStatus loadSymbols3(FMIInstance *instance) {
     LOAD_SYMBOL(GetShiftFraction);
     LOAD_SYMBOL(SetIntervalDecimal);
     LOAD_SYMBOL(SetIntervalFraction);
+    LOAD_SYMBOL(SetShiftDecimal);
+    LOAD_SYMBOL(SetShiftFraction);
     LOAD_SYMBOL(EvaluateDiscreteStates);
     LOAD_SYMBOL(UpdateDiscreteStates);
 
-- 
2.43.0


From be6dc96551e58f7a91d47f498ff13c63a8939734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:20:33 +0000
Subject: [PATCH 23/38] fix: do not instantiate for model exchange if functions
 are missing

The result of loading the functions was only looked at after calling one of them.
---
 src/FMI3.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/FMI3.c b/src/FMI3.c
index 80e62b6..db10482 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -262,7 +262,9 @@ FMIStatus FMI3InstantiateModelExchange(
     fmi3Boolean  visible,
     fmi3Boolean  loggingOn) {
 
-    const FMIStatus status = loadSymbols3(instance);
+    if (loadSymbols3(instance) != FMIOK) {
+        return FMIError;
+    }
 
     fmi3LogMessageCallback logMessage = instance->logMessage ? cb_logMessage3 : NULL;
 
@@ -296,7 +298,7 @@ FMIStatus FMI3InstantiateModelExchange(
     instance->interfaceType = FMIModelExchange;
     instance->state = FMIInstantiatedState;
 
-    return status;
+    return FMIOK;
 }
 
 FMIStatus FMI3InstantiateCoSimulation(
-- 
2.43.0


From 791682c6c841e9fe9fc045560750cd784bf4fb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:20:33 +0000
Subject: [PATCH 24/38] fix: report missing functions without a log callback

The log callback of an importer instance is optional, but a function missing in the shared library was logged without checking for it.
---
 src/FMI2.c | 4 ++--
 src/FMI3.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FMI2.c b/src/FMI2.c
index b73f9fd..f32a4e1 100644
--- a/src/FMI2.c
+++ b/src/FMI2.c
@@ -44,7 +44,7 @@ do { \
 do { \
     instance->fmi2Functions->fmi2 ## f = (fmi2 ## f ## TYPE*)GetProcAddress(instance->libraryHandle, "fmi2" #f); \
     if (!instance->fmi2Functions->fmi2 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        if (instance->logMessage) instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
         return FMIFatal; \
     }\
 } while (0)
@@ -53,7 +53,7 @@ do { \
 do { \
     instance->fmi2Functions->fmi2 ## f = (fmi2 ## f ## TYPE*)dlsym(instance->libraryHandle, "fmi2" #f); \
     if (!instance->fmi2Functions->fmi2 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
+        if (instance->logMessage) instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi2" #f " is missing in shared library."); \
         return FMIFatal; \
     } \
 } while (0)
diff --git a/src/FMI3.c b/src/FMI3.c
index db10482..f60c7b1 100644
--- a/src/FMI3.c
+++ b/src/FMI3.c
@@ -36,7 +36,7 @@ do { \
 do { \
     instance->fmi3Functions->fmi3 ## f = (fmi3 ## f ## TYPE*)GetProcAddress(instance->libraryHandle, "fmi3" #f); \
     if (!instance->fmi3Functions->fmi3 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        if (instance->logMessage) instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
         return FMIFatal; \
     } \
 } while (0)
@@ -45,7 +45,7 @@ do { \
 do { \
     instance->fmi3Functions->fmi3 ## f = (fmi3 ## f ## TYPE*)dlsym(instance->libraryHandle, "fmi3" #f); \
     if (!instance->fmi3Functions->fmi3 ## f) { \
-        instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
+        if (instance->logMessage) instance->logMessage(instance, FMIFatal, "fatal", "Symbol fmi3" #f " is missing in shared library."); \
         return FMIFatal; \
     } \
 } while (0)
-- 
2.43.0


From 3ea66ff5c158260270cbebcdb81fbed75c348df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:28:15 +0000
Subject: [PATCH 25/38] fix: include the dependency of y3 on the states in the
 Jacobian of Roberts

With dae = false the model eliminates y3 = 1 - y1 - y2. The partial
derivatives were still those of the DAE, so the directional and adjoint
derivatives did not match the derivatives the model computes.
---
 Roberts/model.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Roberts/model.c b/Roberts/model.c
index acba211..94e629b 100644
--- a/Roberts/model.c
+++ b/Roberts/model.c
@@ -195,6 +195,13 @@ Status getPartialDerivative(ModelInstance* comp, ValueReference unknown, ValueRe
         *partialDerivative = 0.0;
     }
 
+    // y3 = 1 - y1 - y2 is eliminated from the ODE
+    if (!M(dae) && (known == vr_y1 || known == vr_y2)) {
+        double dy3 = 0.0;
+        getPartialDerivative(comp, unknown, vr_y3, &dy3);
+        *partialDerivative -= dy3;
+    }
+
     return OK;
 }
 
-- 
2.43.0


From a9c0aed9ea0ed5f184203f113253de62aafc98b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:04:16 +0000
Subject: [PATCH 26/38] fix: refuse a resource location that exceeds the path
 buffer

A location of 4096 or more characters left the path unterminated with
FMI 3 and opened a truncated path with FMI 2.
---
 Resource/model.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Resource/model.c b/Resource/model.c
index fbf5163..1beb531 100644
--- a/Resource/model.c
+++ b/Resource/model.c
@@ -34,6 +34,11 @@ Status calculateValues(ModelInstance *comp) {
         return Error;
     }
 
+    if (strlen(comp->resourceLocation) + strlen("/y.txt") >= MAX_PATH_LENGTH) {
+        logError(comp, "Resource location is too long.");
+        return Error;
+    }
+
 #ifdef _WIN32
 
 #if FMI_VERSION < 3
-- 
2.43.0


From 650cf89bc4ff1484724daea3885ec731f80890be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:04:16 +0000
Subject: [PATCH 27/38] fix: report the failure to read the resource file when
 y is read

The status of the calculation was ignored, so a file that could not be
read any more went unnoticed.
---
 Resource/model.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Resource/model.c b/Resource/model.c
index 1beb531..2682c93 100644
--- a/Resource/model.c
+++ b/Resource/model.c
@@ -152,7 +152,9 @@ Status getInt32(ModelInstance* comp, ValueReference vr, int32_t values[], size_t
     ASSERT_NOT_NULL2(values);
     ASSERT_NOT_NULL2(index);
 
-    calculateValues(comp);
+    const Status status = calculateValues(comp);
+
+    if (status > Warning) return status;
 
     switch (vr) {
         case vr_y:
-- 
2.43.0


From 908c2fdfbf1c689fcbd8e0f3675cc9a4e8bb6584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:39:34 +0000
Subject: [PATCH 28/38] fix: pass log messages as an argument to the FMI 2
 logger

The FMI 2 logger takes a format string. Messages that contain a percent
sign, e.g. from a path or a category name, were interpreted as a format
without arguments.
---
 src/cosimulation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 79e66dc..4f4d4d4 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -296,9 +296,9 @@ static void logMessage(ModelInstance *comp, int status, const char *category, co
     va_end(args1);
 
     if (len >= 0) {
-        // no need to distinguish between FMI versions since we're not using variadic arguments
 #if FMI_VERSION < 3
-        comp->logger(comp->componentEnvironment, comp->instanceName, status, category, buf);
+        // the message is a format string in FMI 2
+        comp->logger(comp->componentEnvironment, comp->instanceName, status, category, "%s", buf);
 #else
         comp->logger(comp->componentEnvironment, status, category, buf);
 #endif
-- 
2.43.0


From 76c1c8758b38249f92741b23a190b542b9307343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:40:20 +0000
Subject: [PATCH 29/38] fix: free the instance if its strings cannot be copied

The instance leaked when the instance name could not be copied. A
resource location that could not be copied went unnoticed.
---
 src/cosimulation.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index 4f4d4d4..ecad858 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -84,8 +84,9 @@ ModelInstance *createModelInstance(
         comp->eventModeUsed        = false;
     }
 
-    if (!comp || !comp->instanceName) {
+    if (!comp || !comp->instanceName || (resourceLocation && !comp->resourceLocation)) {
         logError(comp, "Out of memory.");
+        freeModelInstance(comp);
         return NULL;
     }
 
-- 
2.43.0


From 39272d80bf32d520c05a1edc80fd9a7dd1bbe4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:40:20 +0000
Subject: [PATCH 30/38] fix: do not format a log message without memory for it

---
 src/cosimulation.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cosimulation.c b/src/cosimulation.c
index ecad858..38057db 100644
--- a/src/cosimulation.c
+++ b/src/cosimulation.c
@@ -293,6 +293,12 @@ static void logMessage(ModelInstance *comp, int status, const char *category, co
 
     va_copy(args1, args);
     buf = (char *)calloc(len + 1, sizeof(char));
+
+    if (!buf) {
+        va_end(args1);
+        return;
+    }
+
     len = vsnprintf(buf, len + 1, message, args);
     va_end(args1);
 
-- 
2.43.0


From 7593910af87e4d4960b25ca7c0a27abff7094aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:40:20 +0000
Subject: [PATCH 31/38] fix: report missing memory in fmi2DeSerializeFMUstate

---
 src/fmi2Functions.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fmi2Functions.c b/src/fmi2Functions.c
index 3f072d3..4db3855 100644
--- a/src/fmi2Functions.c
+++ b/src/fmi2Functions.c
@@ -424,6 +424,10 @@ fmi2Status fmi2DeSerializeFMUstate (fmi2Component c, const fmi2Byte serializedSt
 
     if (*FMUstate == NULL) {
         *FMUstate = calloc(1, sizeof(ModelInstance));
+        if (*FMUstate == NULL) {
+            logError(S, "Failed to allocate memory for FMUstate.");
+            return fmi2Error;
+        }
     }
 
     memcpy(*FMUstate, serializedState, sizeof(ModelInstance));
-- 
2.43.0


From f6105163bbdbaa7a4970d17fc76c3b415a0805ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:40:20 +0000
Subject: [PATCH 32/38] fix: check the allocations of FMICreateInstance

---
 src/FMI.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/FMI.c b/src/FMI.c
index 513feee..a1e4cbd 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -108,6 +108,11 @@ FMIInstance *FMICreateInstance(const char *instanceName, FMILogMessage *logMessa
 
     instance->name = strdup(instanceName);
 
+    if (!instance->logMessageBuffer || !instance->name) {
+        FMIFreeInstance(instance);
+        return NULL;
+    }
+
     instance->status = FMIOK;
 
     return instance;
-- 
2.43.0


From d7c4593b00c72bad1d68a335c5b6a3e4af4cd518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:41:01 +0000
Subject: [PATCH 33/38] fix: keep the size of the log buffer if it cannot be
 enlarged

The new size was stored before the memory was there, so the next message
was written beyond the buffer.
---
 src/FMI.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/FMI.c b/src/FMI.c
index a1e4cbd..beebb82 100644
--- a/src/FMI.c
+++ b/src/FMI.c
@@ -211,14 +211,18 @@ void FMIAppendToLogMessageBuffer(FMIInstance* instance, const char* format, ...)
 
     } else {
 
-        while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + length) {
-            instance->logMessageBufferSize *= 2;
+        size_t size = instance->logMessageBufferSize;
+
+        while (size <= instance->logMessageBufferPosition + length) {
+            size *= 2;
         }
 
-        if (FMIRealloc((void**)&instance->logMessageBuffer, instance->logMessageBufferSize) != FMIOK) {
+        if (FMIRealloc((void**)&instance->logMessageBuffer, size) != FMIOK) {
             return;
         }
 
+        instance->logMessageBufferSize = size;
+
         va_start(args, format);
         instance->logMessageBufferPosition += vsnprintf(&instance->logMessageBuffer[instance->logMessageBufferPosition], instance->logMessageBufferSize - instance->logMessageBufferPosition, format, args);
         va_end(args);
@@ -324,14 +328,18 @@ void FMIAppendArrayToLogMessageBuffer(FMIInstance* instance, const void* values,
 
         } else {
 
-            while (instance->logMessageBufferSize <= instance->logMessageBufferPosition + requiredCharacters) {
-                instance->logMessageBufferSize *= 2;
+            size_t size = instance->logMessageBufferSize;
+
+            while (size <= instance->logMessageBufferPosition + requiredCharacters) {
+                size *= 2;
             }
 
-            if (FMIRealloc((void**)&instance->logMessageBuffer, instance->logMessageBufferSize) != FMIOK) {
+            if (FMIRealloc((void**)&instance->logMessageBuffer, size) != FMIOK) {
                 return;
             }
 
+            instance->logMessageBufferSize = size;
+
             continue;
         }
 
-- 
2.43.0


From 6235ba787ddb7ad6b3f4e5f80a8345e61e903b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:53:16 +0000
Subject: [PATCH 34/38] fix: calculate the event indicator variables g1 and g2
 of Roberts

Both variables always read as zero although the model description
declares them as the event indicators.
---
 Roberts/model.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Roberts/model.c b/Roberts/model.c
index 94e629b..3da5fd1 100644
--- a/Roberts/model.c
+++ b/Roberts/model.c
@@ -30,6 +30,9 @@ Status calculateValues(ModelInstance *comp) {
 
     M(r) = M(y1) + M(y2) + M(y3) - 1.0;
 
+    M(g1) = M(y1) - 0.0001;
+    M(g2) = M(y3) - 0.01;
+
     comp->isDirtyValues = false;
 
     return OK;
-- 
2.43.0


From 4fc83674a563d2ad65b0708354016a5cc25efea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:49:34 +0000
Subject: [PATCH 35/38] fix: declare the internal step size that StateSpace and
 Roberts use

---
 Roberts/FMI3.xml    | 2 +-
 StateSpace/FMI3.xml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Roberts/FMI3.xml b/Roberts/FMI3.xml
index ef5db34..9451bbb 100644
--- a/Roberts/FMI3.xml
+++ b/Roberts/FMI3.xml
@@ -21,7 +21,7 @@
     providesIntermediateUpdate="true"
     mightReturnEarlyFromDoStep="true"
     canReturnEarlyAfterIntermediateUpdate="true"
-    fixedInternalStepSize="1e-3"
+    fixedInternalStepSize="1e-6"
     hasEventMode="true"/>
 
   <LogCategories>
diff --git a/StateSpace/FMI3.xml b/StateSpace/FMI3.xml
index 8d2e4d9..7533a9b 100644
--- a/StateSpace/FMI3.xml
+++ b/StateSpace/FMI3.xml
@@ -18,7 +18,7 @@
       canHandleVariableCommunicationStepSize="true"
       providesIntermediateUpdate="true"
       canReturnEarlyAfterIntermediateUpdate="true"
-      fixedInternalStepSize="1"
+      fixedInternalStepSize="1e-3"
       hasEventMode="true"/>
 
     <LogCategories>
-- 
2.43.0


From 7982b8a0aad0e67e78c03827f5d7922d8a443061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:49:34 +0000
Subject: [PATCH 36/38] fix: do not declare an event mode for co-simulation of
 Roberts

---
 Roberts/FMI3.xml | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Roberts/FMI3.xml b/Roberts/FMI3.xml
index 9451bbb..bad7185 100644
--- a/Roberts/FMI3.xml
+++ b/Roberts/FMI3.xml
@@ -21,8 +21,7 @@
     providesIntermediateUpdate="true"
     mightReturnEarlyFromDoStep="true"
     canReturnEarlyAfterIntermediateUpdate="true"
-    fixedInternalStepSize="1e-6"
-    hasEventMode="true"/>
+    fixedInternalStepSize="1e-6"/>
 
   <LogCategories>
     <Category name="logEvents" description="Log events"/>
-- 
2.43.0


From d1a664d40c7342e347557df5f809a202f38881fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:49:34 +0000
Subject: [PATCH 37/38] fix: declare that output y3 of Roberts depends on the
 states

---
 Roberts/FMI3.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Roberts/FMI3.xml b/Roberts/FMI3.xml
index bad7185..1601b22 100644
--- a/Roberts/FMI3.xml
+++ b/Roberts/FMI3.xml
@@ -47,7 +47,7 @@
   <ModelStructure>
     <Output valueReference="2" dependencies=""/>
     <Output valueReference="4" dependencies=""/>
-    <Output valueReference="6" dependencies=""/>
+    <Output valueReference="6" dependencies="2 4" dependenciesKind="constant constant"/>
     <ContinuousStateDerivative valueReference="3" dependencies="2 4" dependenciesKind="dependent dependent"/>
     <ContinuousStateDerivative valueReference="5" dependencies="2 4" dependenciesKind="dependent dependent"/>
     <InitialUnknown valueReference="3" dependencies="2 4" dependenciesKind="dependent dependent"/>
-- 
2.43.0


From a073bc64a032b563ce311b77b94633932043eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:49:34 +0000
Subject: [PATCH 38/38] fix: accept the declared maximum 10 as start value of
 the Stair counter

---
 Stair/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Stair/model.c b/Stair/model.c
index 19c5df6..86462e6 100644
--- a/Stair/model.c
+++ b/Stair/model.c
@@ -66,7 +66,7 @@ Status setInt32(ModelInstance* comp, ValueReference vr, const int32_t values[],
 
         ASSERT_NVALUES(1);
 
-        if (values[*index] >= 10) {
+        if (values[*index] > 10) {
             logError(comp, "The maximum value for variable \"counter\" is 10.");
             return Error;
         }
-- 
2.43.0

