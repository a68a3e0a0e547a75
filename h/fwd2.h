/* generated by tools/gen_fwd.py */
#if VP_F == 0
#define FN SetDebugLogging
static fmi2Boolean e1;
static size_t e2 = 1;
static fmi2String e3[4];
static void arguments(void) { e1 = (fmi2Boolean)in_i32(); for (int i = 0; i < 4; i++) e3[i] = "s"; }
static fmi2Status recorder(fmi2Component a0, fmi2Boolean a1, size_t a2, const fmi2String a3[]) { return received(a0 == COMPONENT && SAME(a1, e1) && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI2SetDebugLogging(m, e1, e2, e3); }
#elif VP_F == 1
#define FN SetupExperiment
static fmi2Boolean e1;
static fmi2Real e2;
static fmi2Real e3;
static fmi2Boolean e4;
static fmi2Real e5;
static void arguments(void) { e1 = (fmi2Boolean)in_i32(); e2 = in_f64(); e3 = in_f64(); e4 = (fmi2Boolean)in_i32(); e5 = in_f64(); }
static fmi2Status recorder(fmi2Component a0, fmi2Boolean a1, fmi2Real a2, fmi2Real a3, fmi2Boolean a4, fmi2Real a5) { return received(a0 == COMPONENT && SAME(a1, e1) && SAME(a2, e2) && SAME(a3, e3) && SAME(a4, e4) && SAME(a5, e5)); }
static FMIStatus forward(FMIInstance *m) { return FMI2SetupExperiment(m, e1, e2, e3, e4, e5); }
#elif VP_F == 2
#define FN EnterInitializationMode
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0) { return received(a0 == COMPONENT); }
static FMIStatus forward(FMIInstance *m) { return FMI2EnterInitializationMode(m); }
#elif VP_F == 3
#define FN ExitInitializationMode
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0) { return received(a0 == COMPONENT); }
static FMIStatus forward(FMIInstance *m) { return FMI2ExitInitializationMode(m); }
#elif VP_F == 4
#define FN Terminate
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0) { return received(a0 == COMPONENT); }
static FMIStatus forward(FMIInstance *m) { return FMI2Terminate(m); }
#elif VP_F == 5
#define FN Reset
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0) { return received(a0 == COMPONENT); }
static FMIStatus forward(FMIInstance *m) { return FMI2Reset(m); }
#elif VP_F == 6
#define FN GetReal
static fmi2ValueReference e1[4];
static size_t e2 = 1;
static fmi2Real e3[4];
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, const fmi2ValueReference a1[], size_t a2, fmi2Real a3[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI2GetReal(m, e1, e2, e3); }
#elif VP_F == 7
#define FN GetInteger
static fmi2ValueReference e1[4];
static size_t e2 = 1;
static fmi2Integer e3[4];
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, const fmi2ValueReference a1[], size_t a2, fmi2Integer a3[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI2GetInteger(m, e1, e2, e3); }
#elif VP_F == 8
#define FN GetBoolean
static fmi2ValueReference e1[4];
static size_t e2 = 1;
static fmi2Boolean e3[4];
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, const fmi2ValueReference a1[], size_t a2, fmi2Boolean a3[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI2GetBoolean(m, e1, e2, e3); }
#elif VP_F == 9
#define FN GetString
static fmi2ValueReference e1[4];
static size_t e2 = 1;
static fmi2String e3[4];
static void arguments(void) { for (int i = 0; i < 4; i++) e3[i] = "s"; }
static fmi2Status recorder(fmi2Component a0, const fmi2ValueReference a1[], size_t a2, fmi2String a3[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI2GetString(m, e1, e2, e3); }
#elif VP_F == 10
#define FN SetReal
static fmi2ValueReference e1[4];
static size_t e2 = 1;
static fmi2Real e3[4];
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, const fmi2ValueReference a1[], size_t a2, const fmi2Real a3[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI2SetReal(m, e1, e2, e3); }
#elif VP_F == 11
#define FN SetInteger
static fmi2ValueReference e1[4];
static size_t e2 = 1;
static fmi2Integer e3[4];
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, const fmi2ValueReference a1[], size_t a2, const fmi2Integer a3[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI2SetInteger(m, e1, e2, e3); }
#elif VP_F == 12
#define FN SetBoolean
static fmi2ValueReference e1[4];
static size_t e2 = 1;
static fmi2Boolean e3[4];
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, const fmi2ValueReference a1[], size_t a2, const fmi2Boolean a3[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI2SetBoolean(m, e1, e2, e3); }
#elif VP_F == 13
#define FN SetString
static fmi2ValueReference e1[4];
static size_t e2 = 1;
static fmi2String e3[4];
static void arguments(void) { for (int i = 0; i < 4; i++) e3[i] = "s"; }
static fmi2Status recorder(fmi2Component a0, const fmi2ValueReference a1[], size_t a2, const fmi2String a3[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI2SetString(m, e1, e2, e3); }
#elif VP_F == 14
#define FN GetFMUstate
static fmi2FMUstate e1[4];
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, fmi2FMUstate* a1) { return received(a0 == COMPONENT && a1 == e1); }
static FMIStatus forward(FMIInstance *m) { return FMI2GetFMUstate(m, e1); }
#elif VP_F == 15
#define FN SetFMUstate
static fmi2FMUstate e1 = bytes + 1;
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, fmi2FMUstate a1) { return received(a0 == COMPONENT && a1 == e1); }
static FMIStatus forward(FMIInstance *m) { return FMI2SetFMUstate(m, e1); }
#elif VP_F == 16
#define FN FreeFMUstate
static fmi2FMUstate e1[4];
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, fmi2FMUstate* a1) { return received(a0 == COMPONENT && a1 == e1); }
static FMIStatus forward(FMIInstance *m) { return FMI2FreeFMUstate(m, e1); }
#elif VP_F == 17
#define FN SerializedFMUstateSize
static fmi2FMUstate e1 = bytes + 1;
static size_t e2[4];
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, fmi2FMUstate a1, size_t* a2) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI2SerializedFMUstateSize(m, e1, e2); }
#elif VP_F == 18
#define FN SerializeFMUstate
static fmi2FMUstate e1 = bytes + 1;
static fmi2Byte e2[4];
static size_t e3 = 1;
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, fmi2FMUstate a1, fmi2Byte a2[], size_t a3) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI2SerializeFMUstate(m, e1, e2, e3); }
#elif VP_F == 19
#define FN DeSerializeFMUstate
static fmi2Byte e1[4];
static size_t e2 = 1;
static fmi2FMUstate e3[4];
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, const fmi2Byte a1[], size_t a2, fmi2FMUstate* a3) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI2DeSerializeFMUstate(m, e1, e2, e3); }
#elif VP_F == 20
#define FN GetDirectionalDerivative
static fmi2ValueReference e1[4];
static size_t e2 = 1;
static fmi2ValueReference e3[4];
static size_t e4 = 2;
static fmi2Real e5[4];
static fmi2Real e6[4];
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, const fmi2ValueReference a1[], size_t a2, const fmi2ValueReference a3[], size_t a4, const fmi2Real a5[], fmi2Real a6[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4 && a5 == e5 && a6 == e6); }
static FMIStatus forward(FMIInstance *m) { return FMI2GetDirectionalDerivative(m, e1, e2, e3, e4, e5, e6); }
#elif VP_F == 21
#define FN EnterEventMode
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0) { return received(a0 == COMPONENT); }
static FMIStatus forward(FMIInstance *m) { return FMI2EnterEventMode(m); }
#elif VP_F == 22
#define FN NewDiscreteStates
static fmi2EventInfo e1[4];
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, fmi2EventInfo* a1) { return received(a0 == COMPONENT && a1 == e1); }
static FMIStatus forward(FMIInstance *m) { return FMI2NewDiscreteStates(m, e1); }
#elif VP_F == 23
#define FN EnterContinuousTimeMode
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0) { return received(a0 == COMPONENT); }
static FMIStatus forward(FMIInstance *m) { return FMI2EnterContinuousTimeMode(m); }
#elif VP_F == 24
#define FN CompletedIntegratorStep
static fmi2Boolean e1;
static fmi2Boolean e2[4];
static fmi2Boolean e3[4];
static void arguments(void) { e1 = (fmi2Boolean)in_i32(); }
static fmi2Status recorder(fmi2Component a0, fmi2Boolean a1, fmi2Boolean* a2, fmi2Boolean* a3) { return received(a0 == COMPONENT && SAME(a1, e1) && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI2CompletedIntegratorStep(m, e1, e2, e3); }
#elif VP_F == 25
#define FN SetTime
static fmi2Real e1;
static void arguments(void) { e1 = in_f64(); }
static fmi2Status recorder(fmi2Component a0, fmi2Real a1) { return received(a0 == COMPONENT && SAME(a1, e1)); }
static FMIStatus forward(FMIInstance *m) { return FMI2SetTime(m, e1); }
#elif VP_F == 26
#define FN SetContinuousStates
static fmi2Real e1[4];
static size_t e2 = 1;
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, const fmi2Real a1[], size_t a2) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI2SetContinuousStates(m, e1, e2); }
#elif VP_F == 27
#define FN GetDerivatives
static fmi2Real e1[4];
static size_t e2 = 1;
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, fmi2Real a1[], size_t a2) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI2GetDerivatives(m, e1, e2); }
#elif VP_F == 28
#define FN GetEventIndicators
static fmi2Real e1[4];
static size_t e2 = 1;
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, fmi2Real a1[], size_t a2) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI2GetEventIndicators(m, e1, e2); }
#elif VP_F == 29
#define FN GetContinuousStates
static fmi2Real e1[4];
static size_t e2 = 1;
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, fmi2Real a1[], size_t a2) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI2GetContinuousStates(m, e1, e2); }
#elif VP_F == 30
#define FN GetNominalsOfContinuousStates
static fmi2Real e1[4];
static size_t e2 = 1;
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, fmi2Real a1[], size_t a2) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI2GetNominalsOfContinuousStates(m, e1, e2); }
#elif VP_F == 31
#define FN SetRealInputDerivatives
static fmi2ValueReference e1[4];
static size_t e2 = 1;
static fmi2Integer e3[4];
static fmi2Real e4[4];
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, const fmi2ValueReference a1[], size_t a2, const fmi2Integer a3[], const fmi2Real a4[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI2SetRealInputDerivatives(m, e1, e2, e3, e4); }
#elif VP_F == 32
#define FN GetRealOutputDerivatives
static fmi2ValueReference e1[4];
static size_t e2 = 1;
static fmi2Integer e3[4];
static fmi2Real e4[4];
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0, const fmi2ValueReference a1[], size_t a2, const fmi2Integer a3[], fmi2Real a4[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI2GetRealOutputDerivatives(m, e1, e2, e3, e4); }
#elif VP_F == 33
#define FN DoStep
static fmi2Real e1;
static fmi2Real e2;
static fmi2Boolean e3;
static void arguments(void) { e1 = in_f64(); e2 = in_f64(); e3 = (fmi2Boolean)in_i32(); }
static fmi2Status recorder(fmi2Component a0, fmi2Real a1, fmi2Real a2, fmi2Boolean a3) { return received(a0 == COMPONENT && SAME(a1, e1) && SAME(a2, e2) && SAME(a3, e3)); }
static FMIStatus forward(FMIInstance *m) { return FMI2DoStep(m, e1, e2, e3); }
#elif VP_F == 34
#define FN CancelStep
static void arguments(void) {  }
static fmi2Status recorder(fmi2Component a0) { return received(a0 == COMPONENT); }
static FMIStatus forward(FMIInstance *m) { return FMI2CancelStep(m); }
#elif VP_F == 35
#define FN GetStatus
static fmi2StatusKind e1;
static fmi2Status e2[4];
static void arguments(void) { e1 = (fmi2StatusKind)in_range(0, 3); }
static fmi2Status recorder(fmi2Component a0, const fmi2StatusKind a1, fmi2Status* a2) { return received(a0 == COMPONENT && SAME(a1, e1) && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI2GetStatus(m, e1, e2); }
#elif VP_F == 36
#define FN GetRealStatus
static fmi2StatusKind e1;
static fmi2Real e2[4];
static void arguments(void) { e1 = (fmi2StatusKind)in_range(0, 3); }
static fmi2Status recorder(fmi2Component a0, const fmi2StatusKind a1, fmi2Real* a2) { return received(a0 == COMPONENT && SAME(a1, e1) && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI2GetRealStatus(m, e1, e2); }
#elif VP_F == 37
#define FN GetIntegerStatus
static fmi2StatusKind e1;
static fmi2Integer e2[4];
static void arguments(void) { e1 = (fmi2StatusKind)in_range(0, 3); }
static fmi2Status recorder(fmi2Component a0, const fmi2StatusKind a1, fmi2Integer* a2) { return received(a0 == COMPONENT && SAME(a1, e1) && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI2GetIntegerStatus(m, e1, e2); }
#elif VP_F == 38
#define FN GetBooleanStatus
static fmi2StatusKind e1;
static fmi2Boolean e2[4];
static void arguments(void) { e1 = (fmi2StatusKind)in_range(0, 3); }
static fmi2Status recorder(fmi2Component a0, const fmi2StatusKind a1, fmi2Boolean* a2) { return received(a0 == COMPONENT && SAME(a1, e1) && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI2GetBooleanStatus(m, e1, e2); }
#elif VP_F == 39
#define FN GetStringStatus
static fmi2StatusKind e1;
static fmi2String e2[4];
static void arguments(void) { e1 = (fmi2StatusKind)in_range(0, 3); for (int i = 0; i < 4; i++) e2[i] = "s"; }
static fmi2Status recorder(fmi2Component a0, const fmi2StatusKind a1, fmi2String* a2) { return received(a0 == COMPONENT && SAME(a1, e1) && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI2GetStringStatus(m, e1, e2); }
#endif
#define FUNCTIONS 40
