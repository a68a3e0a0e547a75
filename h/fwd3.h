/* generated by tools/gen_fwd.py */
#if VP_F == 0
#define FN SetDebugLogging
static fmi3Boolean e1;
static size_t e2 = 1;
static fmi3String e3[4];
static void arguments(void) { e1 = in_bool(); for (int i = 0; i < 4; i++) e3[i] = "s"; }
static fmi3Status recorder(fmi3Instance a0, fmi3Boolean a1, size_t a2, const fmi3String a3[]) { return received(a0 == COMPONENT && SAME(a1, e1) && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetDebugLogging(m, e1, e2, e3); }
#elif VP_F == 1
#define FN EnterInitializationMode
static fmi3Boolean e1;
static fmi3Float64 e2;
static fmi3Float64 e3;
static fmi3Boolean e4;
static fmi3Float64 e5;
static void arguments(void) { e1 = in_bool(); e2 = in_f64(); e3 = in_f64(); e4 = in_bool(); e5 = in_f64(); }
static fmi3Status recorder(fmi3Instance a0, fmi3Boolean a1, fmi3Float64 a2, fmi3Float64 a3, fmi3Boolean a4, fmi3Float64 a5) { return received(a0 == COMPONENT && SAME(a1, e1) && SAME(a2, e2) && SAME(a3, e3) && SAME(a4, e4) && SAME(a5, e5)); }
static FMIStatus forward(FMIInstance *m) { return FMI3EnterInitializationMode(m, e1, e2, e3, e4, e5); }
#elif VP_F == 2
#define FN ExitInitializationMode
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0) { return received(a0 == COMPONENT); }
static FMIStatus forward(FMIInstance *m) { return FMI3ExitInitializationMode(m); }
#elif VP_F == 3
#define FN EnterEventMode
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0) { return received(a0 == COMPONENT); }
static FMIStatus forward(FMIInstance *m) { return FMI3EnterEventMode(m); }
#elif VP_F == 4
#define FN Terminate
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0) { return received(a0 == COMPONENT); }
static FMIStatus forward(FMIInstance *m) { return FMI3Terminate(m); }
#elif VP_F == 5
#define FN Reset
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0) { return received(a0 == COMPONENT); }
static FMIStatus forward(FMIInstance *m) { return FMI3Reset(m); }
#elif VP_F == 6
#define FN GetFloat32
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Float32 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3Float32 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetFloat32(m, e1, e2, e3, e4); }
#elif VP_F == 7
#define FN GetFloat64
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Float64 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3Float64 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetFloat64(m, e1, e2, e3, e4); }
#elif VP_F == 8
#define FN GetInt8
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Int8 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3Int8 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetInt8(m, e1, e2, e3, e4); }
#elif VP_F == 9
#define FN GetUInt8
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3UInt8 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3UInt8 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetUInt8(m, e1, e2, e3, e4); }
#elif VP_F == 10
#define FN GetInt16
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Int16 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3Int16 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetInt16(m, e1, e2, e3, e4); }
#elif VP_F == 11
#define FN GetUInt16
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3UInt16 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3UInt16 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetUInt16(m, e1, e2, e3, e4); }
#elif VP_F == 12
#define FN GetInt32
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Int32 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3Int32 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetInt32(m, e1, e2, e3, e4); }
#elif VP_F == 13
#define FN GetUInt32
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3UInt32 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3UInt32 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetUInt32(m, e1, e2, e3, e4); }
#elif VP_F == 14
#define FN GetInt64
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Int64 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3Int64 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetInt64(m, e1, e2, e3, e4); }
#elif VP_F == 15
#define FN GetUInt64
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3UInt64 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3UInt64 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetUInt64(m, e1, e2, e3, e4); }
#elif VP_F == 16
#define FN GetBoolean
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Boolean e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3Boolean a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetBoolean(m, e1, e2, e3, e4); }
#elif VP_F == 17
#define FN GetString
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3String e3[4];
static size_t e4 = 2;
static void arguments(void) { for (int i = 0; i < 4; i++) e3[i] = "s"; }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3String a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetString(m, e1, e2, e3, e4); }
#elif VP_F == 18
#define FN GetBinary
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static size_t e3[4];
static fmi3Binary e4[4];
static size_t e5 = 2;
static void arguments(void) { for (int i = 0; i < 4; i++) e3[i] = i % 3; for (int i = 0; i < 4; i++) e4[i] = bytes; }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, size_t a3[], fmi3Binary a4[], size_t a5) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4 && a5 == e5); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetBinary(m, e1, e2, e3, e4, e5); }
#elif VP_F == 19
#define FN GetClock
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Clock e3[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3Clock a3[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetClock(m, e1, e2, e3); }
#elif VP_F == 20
#define FN SetFloat32
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Float32 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3Float32 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetFloat32(m, e1, e2, e3, e4); }
#elif VP_F == 21
#define FN SetFloat64
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Float64 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3Float64 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetFloat64(m, e1, e2, e3, e4); }
#elif VP_F == 22
#define FN SetInt8
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Int8 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3Int8 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetInt8(m, e1, e2, e3, e4); }
#elif VP_F == 23
#define FN SetUInt8
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3UInt8 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3UInt8 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetUInt8(m, e1, e2, e3, e4); }
#elif VP_F == 24
#define FN SetInt16
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Int16 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3Int16 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetInt16(m, e1, e2, e3, e4); }
#elif VP_F == 25
#define FN SetUInt16
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3UInt16 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3UInt16 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetUInt16(m, e1, e2, e3, e4); }
#elif VP_F == 26
#define FN SetInt32
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Int32 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3Int32 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetInt32(m, e1, e2, e3, e4); }
#elif VP_F == 27
#define FN SetUInt32
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3UInt32 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3UInt32 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetUInt32(m, e1, e2, e3, e4); }
#elif VP_F == 28
#define FN SetInt64
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Int64 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3Int64 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetInt64(m, e1, e2, e3, e4); }
#elif VP_F == 29
#define FN SetUInt64
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3UInt64 e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3UInt64 a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetUInt64(m, e1, e2, e3, e4); }
#elif VP_F == 30
#define FN SetBoolean
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Boolean e3[4];
static size_t e4 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3Boolean a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetBoolean(m, e1, e2, e3, e4); }
#elif VP_F == 31
#define FN SetString
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3String e3[4];
static size_t e4 = 2;
static void arguments(void) { for (int i = 0; i < 4; i++) e3[i] = "s"; }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3String a3[], size_t a4) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetString(m, e1, e2, e3, e4); }
#elif VP_F == 32
#define FN SetBinary
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static size_t e3[4];
static fmi3Binary e4[4];
static size_t e5 = 2;
static void arguments(void) { for (int i = 0; i < 4; i++) e3[i] = i % 3; for (int i = 0; i < 4; i++) e4[i] = bytes; }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const size_t a3[], const fmi3Binary a4[], size_t a5) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4 && a5 == e5); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetBinary(m, e1, e2, e3, e4, e5); }
#elif VP_F == 33
#define FN SetClock
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Clock e3[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3Clock a3[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetClock(m, e1, e2, e3); }
#elif VP_F == 34
#define FN GetNumberOfVariableDependencies
static fmi3ValueReference e1;
static size_t e2[4];
static void arguments(void) { e1 = in_u32(); }
static fmi3Status recorder(fmi3Instance a0, fmi3ValueReference a1, size_t* a2) { return received(a0 == COMPONENT && SAME(a1, e1) && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetNumberOfVariableDependencies(m, e1, e2); }
#elif VP_F == 35
#define FN GetVariableDependencies
static fmi3ValueReference e1;
static size_t e2[4];
static fmi3ValueReference e3[4];
static size_t e4[4];
static fmi3DependencyKind e5[4];
static size_t e6 = 1;
static void arguments(void) { e1 = in_u32(); }
static fmi3Status recorder(fmi3Instance a0, fmi3ValueReference a1, size_t a2[], fmi3ValueReference a3[], size_t a4[], fmi3DependencyKind a5[], size_t a6) { return received(a0 == COMPONENT && SAME(a1, e1) && a2 == e2 && a3 == e3 && a4 == e4 && a5 == e5 && a6 == e6); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetVariableDependencies(m, e1, e2, e3, e4, e5, e6); }
#elif VP_F == 36
#define FN GetFMUState
static fmi3FMUState e1[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, fmi3FMUState* a1) { return received(a0 == COMPONENT && a1 == e1); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetFMUState(m, e1); }
#elif VP_F == 37
#define FN SetFMUState
static fmi3FMUState e1 = bytes + 1;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, fmi3FMUState a1) { return received(a0 == COMPONENT && a1 == e1); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetFMUState(m, e1); }
#elif VP_F == 38
#define FN FreeFMUState
static fmi3FMUState e1[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, fmi3FMUState* a1) { return received(a0 == COMPONENT && a1 == e1); }
static FMIStatus forward(FMIInstance *m) { return FMI3FreeFMUState(m, e1); }
#elif VP_F == 39
#define FN SerializedFMUStateSize
static fmi3FMUState e1 = bytes + 1;
static size_t e2[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, fmi3FMUState a1, size_t* a2) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI3SerializedFMUStateSize(m, e1, e2); }
#elif VP_F == 40
#define FN SerializeFMUState
static fmi3FMUState e1 = bytes + 1;
static fmi3Byte e2[4];
static size_t e3 = 1;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, fmi3FMUState a1, fmi3Byte a2[], size_t a3) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI3SerializeFMUState(m, e1, e2, e3); }
#elif VP_F == 41
#define FN DeserializeFMUState
static fmi3Byte e1[4];
static size_t e2 = 1;
static fmi3FMUState e3[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3Byte a1[], size_t a2, fmi3FMUState* a3) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI3DeserializeFMUState(m, e1, e2, e3); }
#elif VP_F == 42
#define FN GetDirectionalDerivative
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3ValueReference e3[4];
static size_t e4 = 2;
static fmi3Float64 e5[4];
static size_t e6 = 3;
static fmi3Float64 e7[4];
static size_t e8 = 4;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3ValueReference a3[], size_t a4, const fmi3Float64 a5[], size_t a6, fmi3Float64 a7[], size_t a8) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4 && a5 == e5 && a6 == e6 && a7 == e7 && a8 == e8); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetDirectionalDerivative(m, e1, e2, e3, e4, e5, e6, e7, e8); }
#elif VP_F == 43
#define FN GetAdjointDerivative
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3ValueReference e3[4];
static size_t e4 = 2;
static fmi3Float64 e5[4];
static size_t e6 = 3;
static fmi3Float64 e7[4];
static size_t e8 = 4;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3ValueReference a3[], size_t a4, const fmi3Float64 a5[], size_t a6, fmi3Float64 a7[], size_t a8) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4 && a5 == e5 && a6 == e6 && a7 == e7 && a8 == e8); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetAdjointDerivative(m, e1, e2, e3, e4, e5, e6, e7, e8); }
#elif VP_F == 44
#define FN EnterConfigurationMode
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0) { return received(a0 == COMPONENT); }
static FMIStatus forward(FMIInstance *m) { return FMI3EnterConfigurationMode(m); }
#elif VP_F == 45
#define FN ExitConfigurationMode
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0) { return received(a0 == COMPONENT); }
static FMIStatus forward(FMIInstance *m) { return FMI3ExitConfigurationMode(m); }
#elif VP_F == 46
#define FN GetIntervalDecimal
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Float64 e3[4];
static fmi3IntervalQualifier e4[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3Float64 a3[], fmi3IntervalQualifier a4[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetIntervalDecimal(m, e1, e2, e3, e4); }
#elif VP_F == 47
#define FN GetIntervalFraction
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3UInt64 e3[4];
static fmi3UInt64 e4[4];
static fmi3IntervalQualifier e5[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3UInt64 a3[], fmi3UInt64 a4[], fmi3IntervalQualifier a5[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4 && a5 == e5); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetIntervalFraction(m, e1, e2, e3, e4, e5); }
#elif VP_F == 48
#define FN GetShiftDecimal
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Float64 e3[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3Float64 a3[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetShiftDecimal(m, e1, e2, e3); }
#elif VP_F == 49
#define FN GetShiftFraction
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3UInt64 e3[4];
static fmi3UInt64 e4[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, fmi3UInt64 a3[], fmi3UInt64 a4[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetShiftFraction(m, e1, e2, e3, e4); }
#elif VP_F == 50
#define FN SetIntervalDecimal
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Float64 e3[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3Float64 a3[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetIntervalDecimal(m, e1, e2, e3); }
#elif VP_F == 51
#define FN SetIntervalFraction
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3UInt64 e3[4];
static fmi3UInt64 e4[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3UInt64 a3[], const fmi3UInt64 a4[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetIntervalFraction(m, e1, e2, e3, e4); }
#elif VP_F == 52
#define FN SetShiftDecimal
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Float64 e3[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3Float64 a3[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetShiftDecimal(m, e1, e2, e3); }
#elif VP_F == 53
#define FN SetShiftFraction
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3UInt64 e3[4];
static fmi3UInt64 e4[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3UInt64 a3[], const fmi3UInt64 a4[]) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetShiftFraction(m, e1, e2, e3, e4); }
#elif VP_F == 54
#define FN EvaluateDiscreteStates
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0) { return received(a0 == COMPONENT); }
static FMIStatus forward(FMIInstance *m) { return FMI3EvaluateDiscreteStates(m); }
#elif VP_F == 55
#define FN UpdateDiscreteStates
static fmi3Boolean e1[4];
static fmi3Boolean e2[4];
static fmi3Boolean e3[4];
static fmi3Boolean e4[4];
static fmi3Boolean e5[4];
static fmi3Float64 e6[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, fmi3Boolean* a1, fmi3Boolean* a2, fmi3Boolean* a3, fmi3Boolean* a4, fmi3Boolean* a5, fmi3Float64* a6) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4 && a5 == e5 && a6 == e6); }
static FMIStatus forward(FMIInstance *m) { return FMI3UpdateDiscreteStates(m, e1, e2, e3, e4, e5, e6); }
#elif VP_F == 56
#define FN EnterContinuousTimeMode
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0) { return received(a0 == COMPONENT); }
static FMIStatus forward(FMIInstance *m) { return FMI3EnterContinuousTimeMode(m); }
#elif VP_F == 57
#define FN CompletedIntegratorStep
static fmi3Boolean e1;
static fmi3Boolean e2[4];
static fmi3Boolean e3[4];
static void arguments(void) { e1 = in_bool(); }
static fmi3Status recorder(fmi3Instance a0, fmi3Boolean a1, fmi3Boolean* a2, fmi3Boolean* a3) { return received(a0 == COMPONENT && SAME(a1, e1) && a2 == e2 && a3 == e3); }
static FMIStatus forward(FMIInstance *m) { return FMI3CompletedIntegratorStep(m, e1, e2, e3); }
#elif VP_F == 58
#define FN SetTime
static fmi3Float64 e1;
static void arguments(void) { e1 = in_f64(); }
static fmi3Status recorder(fmi3Instance a0, fmi3Float64 a1) { return received(a0 == COMPONENT && SAME(a1, e1)); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetTime(m, e1); }
#elif VP_F == 59
#define FN SetContinuousStates
static fmi3Float64 e1[4];
static size_t e2 = 1;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3Float64 a1[], size_t a2) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI3SetContinuousStates(m, e1, e2); }
#elif VP_F == 60
#define FN GetContinuousStateDerivatives
static fmi3Float64 e1[4];
static size_t e2 = 1;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, fmi3Float64 a1[], size_t a2) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetContinuousStateDerivatives(m, e1, e2); }
#elif VP_F == 61
#define FN GetEventIndicators
static fmi3Float64 e1[4];
static size_t e2 = 1;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, fmi3Float64 a1[], size_t a2) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetEventIndicators(m, e1, e2); }
#elif VP_F == 62
#define FN GetContinuousStates
static fmi3Float64 e1[4];
static size_t e2 = 1;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, fmi3Float64 a1[], size_t a2) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetContinuousStates(m, e1, e2); }
#elif VP_F == 63
#define FN GetNominalsOfContinuousStates
static fmi3Float64 e1[4];
static size_t e2 = 1;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, fmi3Float64 a1[], size_t a2) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetNominalsOfContinuousStates(m, e1, e2); }
#elif VP_F == 64
#define FN GetNumberOfEventIndicators
static size_t e1[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, size_t* a1) { return received(a0 == COMPONENT && a1 == e1); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetNumberOfEventIndicators(m, e1); }
#elif VP_F == 65
#define FN GetNumberOfContinuousStates
static size_t e1[4];
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, size_t* a1) { return received(a0 == COMPONENT && a1 == e1); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetNumberOfContinuousStates(m, e1); }
#elif VP_F == 66
#define FN EnterStepMode
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0) { return received(a0 == COMPONENT); }
static FMIStatus forward(FMIInstance *m) { return FMI3EnterStepMode(m); }
#elif VP_F == 67
#define FN GetOutputDerivatives
static fmi3ValueReference e1[4];
static size_t e2 = 1;
static fmi3Int32 e3[4];
static fmi3Float64 e4[4];
static size_t e5 = 2;
static void arguments(void) {  }
static fmi3Status recorder(fmi3Instance a0, const fmi3ValueReference a1[], size_t a2, const fmi3Int32 a3[], fmi3Float64 a4[], size_t a5) { return received(a0 == COMPONENT && a1 == e1 && a2 == e2 && a3 == e3 && a4 == e4 && a5 == e5); }
static FMIStatus forward(FMIInstance *m) { return FMI3GetOutputDerivatives(m, e1, e2, e3, e4, e5); }
#elif VP_F == 68
#define FN DoStep
static fmi3Float64 e1;
static fmi3Float64 e2;
static fmi3Boolean e3;
static fmi3Boolean e4[4];
static fmi3Boolean e5[4];
static fmi3Boolean e6[4];
static fmi3Float64 e7[4];
static void arguments(void) { e1 = in_f64(); e2 = in_f64(); e3 = in_bool(); }
static fmi3Status recorder(fmi3Instance a0, fmi3Float64 a1, fmi3Float64 a2, fmi3Boolean a3, fmi3Boolean* a4, fmi3Boolean* a5, fmi3Boolean* a6, fmi3Float64* a7) { return received(a0 == COMPONENT && SAME(a1, e1) && SAME(a2, e2) && SAME(a3, e3) && a4 == e4 && a5 == e5 && a6 == e6 && a7 == e7); }
static FMIStatus forward(FMIInstance *m) { return FMI3DoStep(m, e1, e2, e3, e4, e5, e6, e7); }
#elif VP_F == 69
#define FN ActivateModelPartition
static fmi3ValueReference e1;
static fmi3Float64 e2;
static void arguments(void) { e1 = in_u32(); e2 = in_f64(); }
static fmi3Status recorder(fmi3Instance a0, fmi3ValueReference a1, fmi3Float64 a2) { return received(a0 == COMPONENT && SAME(a1, e1) && SAME(a2, e2)); }
static FMIStatus forward(FMIInstance *m) { return FMI3ActivateModelPartition(m, e1, e2); }
#endif
#define FUNCTIONS 70
