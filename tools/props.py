#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (python3 tools/props.py writes both)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = 'The existing tests build the FMUs, validate them once with default inputs and run each example once; '
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=TESTS + why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


F3, F2, COS = 'src/fmi3Functions.c', 'src/fmi2Functions.c', 'src/cosimulation.c'
MODELS = 'every model of the repository'

p('P01', 'FMI 3 calls succeed exactly in the modes that allow them',
  'For every FMI 3 FMU and every sequence of calls, a function of the instance\'s interface type called in a mode that allows it succeeds and moves the instance to the mode the FMI 3 state machine prescribes. A call in any other mode returns an error and leaves the instance terminated. A call without an instance returns an error.',
  ['histories', 'programs'], 'all modes reachable by legal calls x all symbolic call sequences (bounded length) x all interface types x all models',
  'they only ever make calls in the legal order, so no illegal transition is observed.',
  [F3], [('allowed-state masks and BEGIN_FUNCTION', F3), ('mode assignments in the mode-changing functions', F3)],
  ['status returned by each call', 'status of the following calls'], [('state', 'current mode of the instance', 'include/model.h')])

p('P02', 'FMI 2 calls succeed exactly in the states that allow them',
  'For every FMI 2 FMU and every sequence of calls, a function of the instance\'s interface type called in a state that allows it succeeds and moves the instance to the state the FMI 2 state machine prescribes. A call in any other state returns an error and leaves the instance terminated, so that stepping or setting inputs is refused afterwards. A call without an instance returns an error.',
  ['histories', 'programs'], 'all states reachable by legal calls x all symbolic call sequences (bounded length) x both interface types x all FMI 2 models',
  'they only ever make calls in the legal order.',
  [F2], [('state masks and the invalidState checks', F2)], ['status returned by each call'],
  [('state', 'current state of the instance', 'include/model.h')])

p('P03', 'Instantiation accepts exactly the valid arguments',
  'An FMU returns an instance if and only if the instance name is non-empty, the instantiation token (GUID) equals the one of the model, the requested interface type and event mode are supported by the model and, for FMI 2, the callbacks with a logger are given. A refused instantiation returns no instance and never crashes, with or without a logger. An accepted one is in its initial mode with every variable at its documented start value.',
  ['inputs', 'configurations'], 'every byte string (bounded length) as name and token, every combination of flags and absent pointers, all models, both FMI versions',
  'they instantiate with the right token only.',
  [COS, F2, F3] + ['*/model.c'], [('createModelInstance', COS), ('fmi2Instantiate', F2), ('fmi3InstantiateXXX', F3), ('setStartValues', '*/model.c')],
  ['returned instance', 'values read right after instantiation'])

p('P04', 'A settable variable returns what was set; all other variables keep theirs',
  'After a successful set of any settable variable to any value, in any mode where the set is allowed, reading the variable returns exactly that value. Every other variable that is not computed from it, and the time, keep their values. This holds for every variable type, element of an array and model, in FMI 2 and FMI 3.',
  ['inputs', 'histories'], 'every value of every type for every settable variable of every model, in every mode in which it may be set',
  'they set a handful of fixed values and never read back unrelated variables.',
  ['*/model.c', F2, F3], [('getXXX/setXXX value reference switches', '*/model.c'), ('GET_VARIABLES / SET_VARIABLES', F3)], ['fmiXGet* after fmiXSet*'])

p('P05', 'A rejected access is an error and changes nothing',
  'Reading or setting with a value reference the model does not define, with a type other than the variable\'s, or setting a variable that must not be set (in general or in the current mode), returns an error. No variable of the instance changes its value because of the rejected call.',
  ['inputs', 'histories'], 'all 2^32 value references x all access functions x all models x representative modes, both FMI versions',
  'they access existing variables with the right type only.',
  ['*/model.c', COS, F2, F3], [('default branches of the value reference switches', '*/model.c'), ('GET_NOT_ALLOWED / SET_NOT_ALLOWED', COS)], ['status', 'values of all variables before and after'])

p('P06', 'Variable access never touches memory outside the caller\'s arrays',
  'Whatever number of value references and values the caller passes, a get or set call reads and writes only the elements of the arrays it was given. If at least one variable is referenced and the number of values differs from the total number of elements of the referenced variables, FMI 3 calls return an error. Absent arrays are reported as errors, not dereferenced.',
  ['inputs'], 'every combination of list lengths (bounded) and value references, arrays allocated exactly as large as announced, all types and models',
  'they always pass matching lengths; an overrun by one element stays invisible without memory checking.',
  ['*/model.c', 'include/model.h', F2, F3], [('ASSERT_NVALUES', 'include/model.h'), ('index/nValues comparison', F3)], ['memory safety checks', 'status'])

p('P07', 'Restoring a saved FMU state restores the complete behaviour',
  'If the FMU state is saved and, after any further calls, restored, then every variable, the time, the event information and the current mode are those at the time of saving. Every later call behaves as if the calls in between had not been made. Saving does not disturb the instance, and one saved state can be restored any number of times. Restoring without a saved state is an error.',
  ['histories', 'inputs'], 'symbolic variable values and symbolic call histories between save and restore, followed by symbolic further calls; all models, both FMI versions',
  'none saves and restores a state in the middle of a simulation.',
  [COS, F2, F3], [('getFMUState / setFMUState', COS), ('fmi2GetFMUstate / fmi2SetFMUstate', F2)], ['values and statuses after restore'])

p('P08', 'A serialized FMU state is equivalent to the state it was made from',
  'Serializing a saved state and deserializing the bytes gives a state that restores the same behaviour as the original. The announced size is exactly the number of bytes written and read, and a different size is refused without touching the buffer.',
  ['histories', 'inputs'], 'symbolic variable values, symbolic sizes, all models, both FMI versions',
  'none serializes a state.',
  [F2, F3, COS], [('fmiXSerialize* / fmiXDeSerialize*', F2 + ', ' + F3)], ['values after restore', 'bytes touched in an exactly sized buffer', 'status'])

p('P09', 'A reset instance behaves like a new one',
  'After a reset following any history of calls, an instance answers every sequence of calls with the same statuses and values as a newly created instance: start values, time, event information and termination requests of the previous simulation are gone.',
  ['histories'], 'symbolic histories before the reset and symbolic calls after it, all models, both FMI versions',
  'none resets an instance after an event or a termination request.',
  [COS, '*/model.c', F2, F3], [('reset', COS), ('setStartValues', '*/model.c')], ['comparison with a fresh instance'])

p('P10', 'Instances of a model do not influence each other',
  'Calls made on one instance never change any value, status or later behaviour of another instance of the same model, whatever the interleaving.',
  ['histories', 'schedules'], 'symbolic interleavings (bounded) of calls on two instances with symbolic values, all models, both FMI versions',
  'each test uses a single instance.',
  [COS, '*/model.c', F2, F3], [('all state lives in the instance', 'include/model.h')], ['comparison with an instance that ran alone'])

p('P11', 'A co-simulation step is validated before the model advances',
  'A step succeeds only if the current communication point is the end of the previous step (within the documented tolerance), the step size is a positive finite number and the step does not lead beyond a defined stop time. Otherwise the call returns an error and neither the time nor any variable of the model has changed.',
  ['inputs', 'histories'], 'every pair of IEEE doubles for communication point and step size (including NaN and infinities), every stop time, all co-simulation models, both FMI versions',
  'they always pass consistent, finite arguments.',
  [F2, F3], [('argument checks at the beginning of fmiXDoStep', F2 + ', ' + F3)], ['status', 'time and values after the call'])

p('P12', 'A co-simulation step ends at the requested point and always terminates',
  'For every legal step size a step without early return finishes after finitely many internal steps with the internal time at the last solver grid point not beyond the end of the step, within the documented tolerance, and never advances beyond it by more. The reported last successful time is the time of the instance, time never runs backwards, and the next step is accepted at the end of this one.',
  ['inputs', 'histories'], 'symbolic step sizes (bounded multiple of the internal step), symbolic start times, several consecutive steps',
  'they use one fixed step size per example.',
  [F2, F3, COS], [('step loop', F2 + ', ' + F3), ('doFixedStep, isClose', COS)], ['time variable', 'last successful time'])

p('P13', 'Dividing a step into smaller steps gives the same result',
  'Without early return, stepping over an interval in several communication steps on the internal solver grid ends with bit-identical values of all variables and identical time as stepping over it at once.',
  ['inputs', 'histories'], 'symbolic states and parameters, all divisions of an interval of up to N internal steps, all co-simulation models, both FMI versions',
  'they use one fixed step size per example.',
  [F2, F3, COS], [('doFixedStep', COS), ('step loop', F2 + ', ' + F3)], ['values of all variables after the interval'])

p('P14', 'Co-simulation integrates the documented equations with forward Euler',
  'One internal step of the co-simulation solver changes the continuous states of each model to x + h f(x), where f is the right hand side documented for the model and h its internal step size, and advances the time by h; all other inputs and parameters are unchanged. This holds for every finite state, input and parameter value.',
  ['inputs'], 'all double values of states and parameters (bit-exact comparison), all models with continuous states, both FMI versions',
  'they compare nothing but completion of the run; only the default start values are simulated.',
  ['*/model.c', COS], [('getDerivatives', '*/model.c'), ('doFixedStep', COS)], ['states read after a step'])

p('P15', 'Co-simulation equals an importer integrating the Model Exchange interface',
  'Starting from equal variables, one co-simulation step and one forward Euler step done by an importer through the Model Exchange interface (derivatives, states, time, event indicators and event update) give bit-identical states, discrete variables and time.',
  ['inputs', 'histories'], 'symbolic states, inputs and parameters, all models offering both interfaces, both FMI versions',
  'the two interfaces are never compared.',
  ['*/model.c', COS, F2, F3], [('setContinuousStates / getDerivatives / eventUpdate', '*/model.c'), ('doFixedStep', COS)], ['variables of both instances'])

p('P16', 'Every value read reflects the current state of the model',
  'Whenever a variable, derivative, event indicator or continuous state is read, through whichever function and in whichever mode, it has the value that the documented model equations give for the current states, inputs, parameters and time. No earlier read, set, step or event leaves an outdated value behind.',
  ['inputs', 'histories'], 'symbolic sequences of sets, steps, state and time changes (bounded) with symbolic values, each followed by reading everything through every access path',
  'values are read once at fixed points of one trajectory.',
  ['*/model.c', COS, F2, F3], [('isDirtyValues and calculateValues', COS + ', */model.c')], ['all readable quantities'])

p('P17', 'The bouncing ball bounces exactly when and how it is documented to',
  'An event occurs exactly when the height indicator changes sign; handling it places the ball at the floor, inverts the velocity scaled by the coefficient of restitution, and lets the ball rest when the velocity falls below its documented minimum, reporting the changed states. In flight the event handling changes nothing. Restitution and minimum velocity never change, and gravity only becomes zero when the ball comes to rest.',
  ['inputs', 'histories'], 'all double values of height, velocity, gravity and restitution around an event, Co-Simulation and Model Exchange, both FMI versions',
  'one trajectory with default parameters is run and not compared.',
  ['BouncingBall/model.c', COS, F3], [('eventUpdate, getEventIndicators', 'BouncingBall/model.c'), ('zero crossing detection', COS)], ['h, v, event information'])

p('P18', 'The stair counter counts time events and stops at its limit',
  'The counter increases by exactly one at each scheduled time event and at no other time, each event schedules the next one second later, and at the documented limit the model requests termination. A counter start value outside the documented range is refused.',
  ['inputs', 'histories'], 'all counter values, all event times, symbolic step patterns, Co-Simulation and Model Exchange, both FMI versions',
  'one run with the default counter.',
  ['Stair/model.c', F2, F3, COS], [('eventUpdate', 'Stair/model.c'), ('time event detection', COS)], ['counter', 'event information', 'terminate request'])

p('P19', 'Directional and adjoint derivatives are the Jacobian of the model equations',
  'Wherever the model provides them, directional derivatives are the analytic Jacobian of the model\'s derivatives times the seed and adjoint derivatives its transpose times the seed, for every state, parameter and seed, and any selection and order of knowns and unknowns.',
  ['inputs'], 'all double values of states, parameters and seeds; symbolic selections of knowns and unknowns (bounded length), FMI 2 and FMI 3',
  'one Jacobian at one point is compared by an example.',
  ['VanDerPol/model.c', 'Roberts/model.c', F2, F3], [('getPartialDerivative', 'VanDerPol/model.c, Roberts/model.c'), ('seed loops', F2 + ', ' + F3)], ['sensitivities'])

p('P20', 'Every feedthrough output equals its input',
  'Whenever an output of the feedthrough model is read it equals, bit for bit, the last value set on its input, for every type, in every mode, after any sequence of sets, steps and event updates, and setting one input never influences the output of another.',
  ['inputs', 'histories'], 'all values of all types, symbolic order of sets, reads and steps, both FMI versions',
  'one CSV input with few values is fed and the outputs are not compared.',
  ['Feedthrough/model.c', F2, F3], [('calculateValues', 'Feedthrough/model.c'), ('dirty flag', F2 + ', ' + F3)], ['outputs'])

p('P21', 'Strings and binaries are copied completely within their limits',
  'A string or binary within the documented size limit is stored as an independent copy and read back with exactly its length and bytes; changing the caller\'s buffer afterwards has no effect. One that exceeds the limit is refused without writing out of bounds. Values are handed out as valid memory of the announced size.',
  ['inputs'], 'all byte contents for lengths up to and beyond the limit, both FMI versions',
  'two fixed values are used.',
  ['Feedthrough/model.c'], [('setString, setBinary, getString, getBinary', 'Feedthrough/model.c')], ['string and binary variables', 'memory safety checks'])

p('P22', 'Structural parameters of the state space model size all its arrays',
  'The dimensions of the state space model can be changed, each on its own and in any combination within the documented limits, exactly in configuration and reconfiguration mode; outside those modes or limits the change is refused and nothing changes. After the change the number of continuous states and the number of elements of every array variable are the ones the dimensions determine.',
  ['inputs', 'histories', 'configurations'], 'all dimension triples including out-of-range 64-bit values, in all modes',
  'the reconfiguration example is not among the passing tests and would use one triple.',
  ['StateSpace/model.c', F3, COS], [('setUInt64, getFloat64, getNumberOfContinuousStates', 'StateSpace/model.c'), ('configurate', COS)], ['array sizes accepted by get/set', 'number of states'])

p('P23', 'The state space model computes der(x)=Ax+Bu, y=Cx+Du for all dimensions',
  'For all dimensions within the limits and all matrix, input and state values, the derivative and output of the state space model are the documented linear combinations with matrices read and written in row-major order, and the states start at the documented initial values.',
  ['inputs', 'configurations'], 'all dimension triples (bounded), symbolic matrix, input and state values',
  'only the default square identity matrices are ever simulated.',
  ['StateSpace/model.c'], [('calculateValues, getDerivatives', 'StateSpace/model.c')], ['y, der(x), x'])

p('P24', 'Clock activations count ticks, update outputs and announce clock changes',
  'Each activation of a model partition increases its own tick counter and the total by exactly one and performs the documented computation of that partition; output clocks are active exactly once after they tick, intervals are announced exactly when they change, and the clock update callback is called exactly when there is something to announce. Activating an unknown partition is an error.',
  ['histories', 'schedules', 'inputs'], 'symbolic sequences of partition activations and clock reads with symbolic activation times and inputs',
  'no stable test activates model partitions.',
  ['Clocks/model.c', F3], [('activateModelPartition, getClock, getInterval', 'Clocks/model.c')], ['tick counters, results, clocks, intervals, callbacks'])

p('P25', 'Preemption locks are always released in the order they were taken',
  'During every activation of a model partition, calls to lock and unlock preemption alternate strictly starting with lock, every lock is released before the activation returns, and shared data is only touched by the partitions that need it while the lock is held.',
  ['schedules', 'histories', 'inputs'], 'symbolic sequences of partition activations, with and without the callbacks given',
  'no stable test activates model partitions.',
  ['Clocks/model.c', F3], [('lockPreemption / unlockPreemption around the critical sections', 'Clocks/model.c')], ['callback order'])

p('P26', 'The resource model reads its file from the given location',
  'The resource model opens exactly one file, the documented one inside the resource location it was given (for FMI 2 after removing the URI scheme and decoding percent-encoded characters), returns its first character, and closes the file again on every path. A missing, malformed or over-long location or a file that cannot be opened is an error and never a memory error.',
  ['inputs', 'fault_sequences'], 'all location strings (bounded length, plus the over-long class), all file contents, file open failure, both FMI versions',
  'one fixed location is used.',
  ['Resource/model.c'], [('calculateValues', 'Resource/model.c')], ['path passed to the file system', 'value of the variable', 'open/close balance'])

p('P27', 'Messages reach the logger exactly as configured and unaltered',
  'A message is passed to the logger if and only if its category is enabled, with the environment pointer (and for FMI 2 the instance name) given at instantiation, the category and status of the event, and the complete text as a plain string, whatever characters it contains. Enabling or disabling categories affects only those named, an unknown category is an error, and a missing logger is never called.',
  ['inputs', 'histories', 'configurations'], 'all combinations of logging flags and category lists (bounded), symbolic instance names, all message-producing calls of a model',
  'logging is never observed.',
  [COS, F2, F3], [('logError, logEvent, setDebugLogging', COS)], ['logger callback arguments'])

p('P28', 'Event mode and early return follow the configuration of the instance',
  'A step of an instance that uses event mode and allows early return stops exactly at an event, leaves it to the importer and reports it; without event mode every event is handled internally once and never reported. A step returns early only if early return is allowed, with the last successful time equal to the current time and the next step accepted there. An event that was handled is not reported again.',
  ['inputs', 'histories', 'configurations'], 'both flags, symbolic states that put an event at any internal step, all models with events, FMI 3',
  'two examples run one trajectory each.',
  [F3, COS], [('event branches of the step loop', F3)], ['outputs of the step', 'values'])

p('P29', 'Model Exchange vectors have the announced size and round-trip exactly',
  'The numbers of continuous states and event indicators are those of the model description; vectors of any other size are refused; continuous states that are set are read back bit-identically, both as a vector and as variables, in the documented order, derivatives correspond to states by position, and nominal values are positive and as documented.',
  ['inputs'], 'all double values, all sizes up to a bound with exactly sized arrays, all models, both FMI versions',
  'sizes are always right and values not compared.',
  ['*/model.c', F2, F3, COS], [('getContinuousStates, setContinuousStates, getDerivatives, getNominalsOfContinuousStates', '*/model.c, ' + COS)], ['vectors', 'memory safety checks', 'status'])

p('P30', 'The importer\'s log message buffer holds every message completely',
  'Messages and value lists appended to the importer\'s log buffer are stored completely and in order, terminated, whatever their length and wherever the current buffer ends, and the call always terminates and stays within the allocated buffer. Clearing the buffer makes it an empty string.',
  ['inputs', 'histories'], 'all piece lengths around every buffer boundary, all value types, symbolic fill level',
  'messages in the examples are shorter than the buffer.',
  ['src/FMI.c'], [('FMIAppendToLogMessageBuffer, FMIAppendArrayToLogMessageBuffer, FMIClearLogMessageBuffer', 'src/FMI.c')], ['buffer content', 'memory safety checks'])

p('P31', 'Paths are converted to well-formed, decodable file URIs',
  'Converting a path gives the file scheme followed by the path in which every character that is not legal in a URI is replaced by a percent sign and exactly two hexadecimal digits of its byte value, so that percent-decoding returns the original path. The result is terminated within the given buffer, and a buffer that is too small is reported as an error.',
  ['inputs'], 'all byte strings up to a bounded length, all buffer sizes',
  'one temporary directory name is converted.',
  ['src/FMI.c'], [('FMIPathToURI', 'src/FMI.c')], ['uri buffer', 'status'])

p('P32', 'The platform binary path is composed correctly or refused',
  'The path of the shared library is the unzip directory, one separator (none added if it is empty or already ends with one), the binaries directory of the platform for the FMI version, the model identifier and the library extension. A buffer too small for the whole path including its terminator is reported as an error; nothing is written beyond the buffer.',
  ['inputs'], 'all directory and model names up to a bounded length, all buffer sizes, all FMI versions',
  'one directory is used.',
  ['src/FMI.c'], [('FMIPlatformBinaryPath', 'src/FMI.c')], ['path buffer', 'status'])

p('P33', 'The FMI 2 importer forwards every call faithfully',
  'Each importer call for FMI 2 invokes exactly the corresponding function of the FMU once, with the arguments given, returns its status, delivers its results and tracks the state of the instance. If call logging is enabled the call is logged once with its function name and status; logging never changes what is forwarded and never fails by itself.',
  ['inputs', 'histories', 'configurations'], 'all argument values, all returned statuses, every importer function, with and without a log callback',
  'the examples use a few functions without logging and FMUs that always return OK.',
  ['src/FMI2.c', 'src/FMI.c'], [('FMI2XXX wrappers', 'src/FMI2.c')], ['calls received by a recording FMU', 'returned status', 'log callback'])

p('P34', 'The FMI 3 importer forwards every call faithfully',
  'Each importer call for FMI 3 invokes exactly the corresponding function of the FMU once, with the arguments given, returns its status, delivers its results and tracks the state of the instance. If call logging is enabled the call is logged once with its function name and status; logging never changes what is forwarded and never fails by itself.',
  ['inputs', 'histories', 'configurations'], 'all argument values, all returned statuses, every importer function, with and without a log callback',
  'the examples use a few functions and FMUs that always return OK.',
  ['src/FMI3.c', 'src/FMI.c'], [('FMI3XXX wrappers', 'src/FMI3.c')], ['calls received by a recording FMU', 'returned status', 'log callback'])

p('P35', 'The intermediate update callback sees every internal step once, in order',
  'If an intermediate update callback is given, a co-simulation step calls it exactly once per internal solver step with the environment pointer of the instance, strictly increasing times that equal the time of the model at that point, and the documented flags; the variables read inside the callback belong to that time. Without a callback nothing is called.',
  ['inputs', 'histories'], 'symbolic states and step sizes, all co-simulation models, FMI 3',
  'one example prints the values.',
  [COS, F3], [('intermediate update in doFixedStep', COS)], ['callback arguments', 'values read inside the callback'])

p('P36', 'Running out of memory is reported, never crashes or leaks',
  'If any memory allocation fails, at any point and any number of times, the call in progress reports the failure by its return value and no invalid memory is accessed; the instance, if any, can still be freed and everything allocated is released.',
  ['fault_sequences'], 'every subset of failing allocations in instantiation, state saving and deserialization, logging and the importer',
  'allocations never fail in tests.',
  [COS, F2, F3, 'src/FMI.c', 'src/FMI2.c', 'src/FMI3.c'], [('allocation checks', COS + ', src/FMI.c')], ['return values', 'memory safety and leak checks'])

p('P37', 'FMI 2 status queries report the state of the co-simulation',
  'After any history, the status queries of FMI 2 return the time of the last successful step and the termination flag exactly as they are, and every query the FMU does not support is answered with a discard status and leaves its output and the instance untouched.',
  ['inputs', 'histories'], 'all status kinds, symbolic step sequences, all FMI 2 models',
  'status queries are never called.',
  [F2], [('fmi2GetStatus, fmi2GetRealStatus, fmi2GetBooleanStatus ...', F2)], ['status and value of the query'])

p('P38', 'Freeing an instance releases everything exactly once',
  'After any history of calls, freeing all saved states and the instance releases every piece of memory the FMU allocated, exactly once, and never memory it does not own; freeing an absent instance is harmless.',
  ['histories'], 'symbolic call histories (bounded) including errors, state saving and deserialization, all models, both FMI versions',
  'leaks and double frees are not observed by the tests.',
  [COS, F2, F3], [('freeModelInstance, fmiXFreeFMUstate', COS)], ['leak and double-free checks'])

p('P39', 'An importer instance is created completely or not at all and freed cleanly',
  'Creating an importer instance and loading an FMU through it either yields an instance whose every FMI function is available, or reports an error; a missing mandatory function or library is always reported, whichever it is. Freeing the instance unloads the library exactly once and releases all memory.',
  ['fault_sequences', 'configurations'], 'every subset of missing symbols, library load failure, FMI 2 and FMI 3',
  'the examples load complete FMUs only.',
  ['src/FMI.c', 'src/FMI2.c', 'src/FMI3.c'], [('FMILoadPlatformBinary, loadSymbols, FMIFreeInstance', 'src/FMI.c, src/FMI2.c, src/FMI3.c')], ['returned status', 'calls through every function', 'library handle'])

p('P40', 'Derivatives of outputs are those of the model',
  'In co-simulation, the first derivative of each output of BouncingBall that is asked for through fmi2GetRealOutputDerivatives or fmi3GetOutputDerivatives is the derivative given by the model equations for the current state, for each requested output in the order of the request. Any other value reference or order, and any request to a model that does not offer output derivatives, is refused with an error.',
  ['inputs'], 'all values of states and parameters, all value references and orders, both FMI versions',
  'output derivatives are never requested by the tests.',
  [F2, F3, 'BouncingBall/model.c'], [('getOutputDerivative', 'BouncingBall/model.c'), ('fmi2GetRealOutputDerivatives', F2), ('fmi3GetOutputDerivatives', F3)], ['returned derivatives and status'])

p('P41', 'The model description describes the code',
  'Every variable listed in a model description can be read with its declared type and size and has its declared start value in initialization mode; every variable declared as input, parameter or initial value can be set to any value in its declared range and has it afterwards; the declared states, derivatives, nominal values and numbers of states and event indicators are those of the Model Exchange interface; the declared event mode, FMU state support and internal step size are those of the co-simulation; and an output, derivative or initial unknown is not influenced by any input, state or parameter missing from its declared dependencies.',
  ['inputs'], 'all values of all settable variables within their declared ranges, all models, both FMI versions',
  'the tests only check that the model descriptions are valid and that one run succeeds.',
  ['BouncingBall/FMI2.xml', 'BouncingBall/FMI3.xml', 'Roberts/FMI3.xml', 'StateSpace/FMI3.xml', 'Stair/FMI3.xml', 'Stair/model.c', F3, COS], [('getFloat64, setFloat64 and the like', 'model.c of each model'), ('ModelVariables and ModelStructure', 'FMI2.xml and FMI3.xml of each model'), ('fmi3InstantiateCoSimulation', F3)], ['returned values and status', 'times of the internal steps'])

NOT_APPLICABLE = {}


def main():
    import sys
    sys.path.insert(0, HERE)
    import specs
    with open(f'{HERE}/properties.jsonl', 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    checks = []
    for x in P:
        if x['id'] not in specs.SPECS:
            continue
        s = specs.SPECS[x['id']]
        checks.append(dict(property=x['id'], quick_cmd=f'python3 run.py {x["id"]} --tier quick',
                           thorough_cmd=f'python3 run.py {x["id"]} --tier thorough',
                           technique=s.get('technique', 'bounded symbolic execution of the real C code (CBMC), verdict by SAT/SMT solver, counterexample replayed'),
                           level=s.get('level', 'proof'), level_note='Bounded proof, complete for all values within: ' + s['bounds']))
    na = [dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()]
    na += [dict(property=x['id'], reason='not claimed yet: check under construction') for x in P if x['id'] not in specs.SPECS and x['id'] not in NOT_APPLICABLE]
    json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(f'{HERE}/MANIFEST.json', 'w'), indent=1)
    print(len(P), 'properties,', len(checks), 'checks; without check:', [x['id'] for x in P if x['id'] not in specs.SPECS and x['id'] not in NOT_APPLICABLE])


main()
