/* generated by tools/gen_fwd.py */
#define SYMS_COMMON(X) X(GetTypesPlatform) X(GetVersion) X(SetDebugLogging) X(Instantiate) X(FreeInstance) X(SetupExperiment) X(EnterInitializationMode) X(ExitInitializationMode) X(Terminate) X(Reset) X(GetReal) X(GetInteger) X(GetBoolean) X(GetString) X(SetReal) X(SetInteger) X(SetBoolean) X(SetString) X(GetFMUstate) X(SetFMUstate) X(FreeFMUstate) X(SerializedFMUstateSize) X(SerializeFMUstate) X(DeSerializeFMUstate) X(GetDirectionalDerivative)
#define SYMS_ME(X) X(EnterEventMode) X(NewDiscreteStates) X(EnterContinuousTimeMode) X(CompletedIntegratorStep) X(SetTime) X(SetContinuousStates) X(GetDerivatives) X(GetEventIndicators) X(GetContinuousStates) X(GetNominalsOfContinuousStates)
#define SYMS_CS(X) X(SetRealInputDerivatives) X(GetRealOutputDerivatives) X(DoStep) X(CancelStep) X(GetStatus) X(GetRealStatus) X(GetIntegerStatus) X(GetBooleanStatus) X(GetStringStatus)
