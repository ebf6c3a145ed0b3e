#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text can be reviewed line by line)."""
import json, os

P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

SE_T = "The stable tests never run a model in Scheduled Execution with preemption; the only example that does is Windows-only and depends on the OS scheduler. "

prop("C01", "Preemption neither loses nor repeats a tick or an input",
     "In Scheduled Execution, under every legal preemption schedule, each input-clock tick counter equals the number of activations of that clock that have returned and the total tick counter equals their sum. "
     "Each value written to input2 before an activation of inClock2 is added to result2 exactly once, by that activation, and input2 reads 0 afterwards unless it is written again. "
     "A legal schedule may preempt a running partition at any instant at which it has not locked preemption, with any partition of higher priority, nested to any depth.",
     ["schedules", "histories"], "every preemption schedule over every sequence of partition activations, input writes and output reads",
     SE_T + "The defects are lost updates between one load and one store.",
     ["Clocks/model.c", "src/fmi3Functions.c"],
     [("critical sections around the shared counters", "Clocks/model.c: activateModelPartition2, activateModelPartition3"),
      ("activation entry point", "src/fmi3Functions.c: fmi3ActivateModelPartition")],
     [("totalInClockTicks", "number of partition activations so far", "Clocks/config.h: ModelData"),
      ("input2/result2", "input register of partition 2 and the sum of the consumed inputs", "Clocks/config.h: ModelData")],
     ["fmi3ActivateModelPartition", "fmi3GetInt32", "fmi3SetInt32", "lockPreemption/unlockPreemption callbacks"])

prop("C02", "Clock ticks and countdown intervals reach the importer exactly once",
     "In Scheduled Execution, under every legal preemption schedule, each time the total tick count becomes a multiple of five the output clock is reported active to the importer exactly once, and the importer is told by the clock-update callback before the activation that caused the tick returns. "
     "Each activation of inClock1 at a time in [4, 5) reports a changed countdown interval for inClock3 (value 0) exactly once in the same way, provided the importer polls both clocks whenever it is notified. "
     "Nothing is reported without such a cause.",
     ["schedules", "histories"], "every preemption schedule over every sequence of activations, with the importer polling inside the callback and optionally between activations",
     SE_T + "A tick lost between the unlock and the notification shows only for a preemption at that instruction.",
     ["Clocks/model.c", "src/fmi3Functions.c"],
     [("tick computation and notification", "Clocks/model.c: activateModelPartition1..3"),
      ("read-and-clear of the clock and of the interval qualifier", "Clocks/model.c: getClock, getInterval"),
      ("importer-side queries", "src/fmi3Functions.c: fmi3GetClock, fmi3GetIntervalDecimal")],
     [("outClock", "an output tick not yet read by the importer", "Clocks/config.h: ModelData"),
      ("inClock3_qualifier", "whether a new interval is waiting to be read", "Clocks/config.h: ModelData")],
     ["clockUpdate callback", "fmi3GetClock", "fmi3GetIntervalDecimal"])

prop("C03", "The preemption lock is balanced and never held across a callback",
     "In Scheduled Execution every activation, however it ends and however it is preempted, calls lockPreemption and unlockPreemption strictly alternately and returns with preemption unlocked. "
     "The clock-update and log callbacks are never invoked while the FMU holds the lock. "
     "An activation in which the importer supplied no lock callbacks performs the same observable effects without calling them.",
     ["schedules", "histories", "configurations"], "every activation history and preemption schedule, with and without lock callbacks, including activations of unknown clocks and in the wrong mode",
     SE_T + "An unbalanced lock only stops the system the next time somebody waits for it.",
     ["Clocks/model.c", "src/fmi3Functions.c"],
     [("lock/unlock pairs", "Clocks/model.c: activateModelPartition2, activateModelPartition3"),
      ("storing the callbacks", "src/fmi3Functions.c: fmi3InstantiateScheduledExecution")],
     None, ["lockPreemption/unlockPreemption callbacks", "clockUpdate callback", "log callback"])

prop("C04", "Instances do not influence each other under any interleaving",
     "For any number of instances of the same or of different FMUs and FMI versions in one process, each driven by its own thread, the statuses, values, log messages and callbacks each instance produces are exactly those it produces when it is the only instance. "
     "This holds for every interleaving of the threads, including switches in the middle of an FMI call, and for instances created or freed while others are in use.",
     ["schedules", "histories"], "every interleaving of up to four call histories at the granularity of one memory access",
     "The tests use one instance at a time in one thread, so state shared between instances can never show.",
     ["src/cosimulation.c", "src/fmi2Functions.c", "src/fmi3Functions.c", "BouncingBall/model.c", "Feedthrough/model.c", "Resource/model.c"],
     [("per-instance storage", "src/cosimulation.c: createModelInstance, freeModelInstance"),
      ("API entry points", "src/fmi2Functions.c, src/fmi3Functions.c"),
      ("all model equations", "*/model.c")],
     [("ModelInstance", "the complete state of an instance", "include/model.h")],
     ["all FMI functions", "log callback"])

prop("C05", "Restoring an FMU state rewinds the instance exactly",
     "After an FMU state taken at any point of any call history is set, on the same instance or on another instance of the same FMU and interface type, every continuation yields the same statuses and bit-identical values as the same continuation yielded from the point at which the state was taken. "
     "Nothing executed in between, neither further steps, events, errors, other saved states being taken, overwritten or freed, nor a reset, changes what a saved state restores.",
     ["histories"], "every point of every call history at which a state can be taken, every detour before it is restored, every continuation",
     "No test restores a state; a forgotten member only shows for a continuation that depends on it (for example the stored event indicators or the solver step count).",
     ["src/cosimulation.c", "src/fmi2Functions.c", "src/fmi3Functions.c", "include/model.h"],
     [("copying the instance in and out", "src/cosimulation.c: getFMUState, setFMUState"),
      ("API functions", "src/fmi2Functions.c: fmi2GetFMUstate, fmi2SetFMUstate; src/fmi3Functions.c: fmi3GetFMUState, fmi3SetFMUState")],
     [("ModelInstance", "members a continuation depends on: time, mode, step count, event flags, indicators, model variables", "include/model.h")],
     ["fmi2GetFMUstate/SetFMUstate/FreeFMUstate", "fmi3GetFMUState/SetFMUState/FreeFMUState"])

prop("C06", "A serialized FMU state survives a crash and only complete bytes load",
     "If the process crashes at any point after an FMU state was serialized and only the bytes survive, a new process that creates a new instance, deserializes the bytes and sets the state obtains from every continuation the same statuses and bit-identical values as the original; name, environment, callbacks and logging settings stay those of the new instance. "
     "Bytes whose length is not the serialized size (torn, truncated or extended) are refused with an error and no memory outside the given buffers is touched.",
     ["crash_points", "histories", "fault_sequences"], "every crash point of every call history; every wrong length of the surviving bytes",
     "No test serializes a state, and none restarts the process.",
     ["src/fmi2Functions.c", "src/fmi3Functions.c", "src/cosimulation.c"],
     [("serialization", "src/fmi2Functions.c: fmi2SerializeFMUstate, fmi2DeSerializeFMUstate; src/fmi3Functions.c: fmi3SerializeFMUState, fmi3DeserializeFMUState"),
      ("selective restore that skips process-local members", "src/cosimulation.c: setFMUState")],
     None, ["fmi2/fmi3 Serialize/Deserialize functions", "log callback"])

prop("C07", "Reset makes an instance indistinguishable from a new one",
     "After a successful reset issued at any point of any call history, including after rejected calls, after termination and in the middle of events, every continuation yields the same statuses and bit-identical values as on a newly created instance with the same arguments. "
     "Logging settings are exempt.",
     ["histories"], "every call history before the reset and every continuation after it",
     "No test calls reset; what is left behind shows only in continuations that use it, such as a termination flag or a time event left over from before.",
     ["src/cosimulation.c", "src/fmi2Functions.c", "src/fmi3Functions.c"],
     [("reinitialisation of the instance", "src/cosimulation.c: reset"),
      ("start values", "*/model.c: setStartValues"),
      ("API functions", "src/fmi2Functions.c: fmi2Reset; src/fmi3Functions.c: fmi3Reset")],
     None, ["fmi2Reset", "fmi3Reset"])

prop("C08", "Co-simulation results do not depend on the communication schedule",
     "For any schedule of communication steps the internal solver visits the time grid start + k * solver step in order without skipping or repeating a point, and the variables at each grid point are bit-identical for all schedules that set the same inputs at the same grid points. "
     "From one grid point to the next the variables follow the model's published equations by one forward Euler step plus event handling. "
     "After a completed step the reported time is the last grid point not beyond the target, up to a tolerance of 1e-5 (relative above 1), and is never more than one solver step short of it.",
     ["schedules", "inputs"], "every sequence of communication step sizes, start times, inputs and parameters for all models in both FMI versions",
     "The tests use one constant step size per model and look only at whether the run finishes.",
     ["src/cosimulation.c", "src/fmi2Functions.c", "src/fmi3Functions.c", "BouncingBall/model.c", "Dahlquist/model.c", "VanDerPol/model.c", "Roberts/model.c", "Stair/model.c", "StateSpace/model.c"],
     [("fixed-step solver", "src/cosimulation.c: doFixedStep"),
      ("communication step loop", "src/fmi2Functions.c: fmi2DoStep; src/fmi3Functions.c: fmi3DoStep"),
      ("model equations", "*/model.c: calculateValues, getDerivatives, eventUpdate")],
     [("nSteps/startTime/time", "position on the solver grid", "include/model.h")],
     ["fmi2DoStep", "fmi3DoStep", "lastSuccessfulTime", "fmi2GetReal", "fmi3GetFloat64"])

prop("C09", "Each event is handled once and a step reports exactly what happened",
     "In co-simulation every bounce and every counter tick takes effect exactly once, at the solver step at which it occurs, for every communication schedule and every combination of event mode and early return. "
     "With event mode the step reports that event handling is needed if and only if an event is pending when it returns, a step returns early only if that was allowed and an event or termination occurred in its last solver step, and every step that stops short because of an event says so. "
     "A step request from the wrong communication point, of non-positive size or beyond the stop time is refused with an error and does not advance time, and a termination request is reported by the step in which it arises (as a discarded step in FMI 2).",
     ["schedules", "histories", "configurations", "fault_sequences"], "every communication schedule, event-mode and early-return setting, interleaved with invalid step requests",
     "The two tests of event mode and early return run one fixed schedule each and compare nothing.",
     ["src/fmi3Functions.c", "src/fmi2Functions.c", "src/cosimulation.c", "BouncingBall/model.c", "Stair/model.c"],
     [("event detection", "src/cosimulation.c: doFixedStep"),
      ("step loop and outputs", "src/fmi3Functions.c: fmi3DoStep; src/fmi2Functions.c: fmi2DoStep, fmi2GetRealStatus, fmi2GetBooleanStatus"),
      ("event handling", "BouncingBall/model.c, Stair/model.c: eventUpdate; src/fmi3Functions.c: fmi3UpdateDiscreteStates, fmi3EnterStepMode")],
     [("prez", "event indicators after the previous step", "include/model.h"),
      ("nextCommunicationPoint", "the only time from which the next step may start", "include/model.h")],
     ["fmi3DoStep outputs", "fmi2DoStep status", "fmi2GetBooleanStatus", "fmi2GetRealStatus"])

prop("C10", "Model Exchange evaluation depends only on what is currently set",
     "In Model Exchange, derivatives (also directional and adjoint ones), event indicators, states and outputs depend only on the current time, continuous states, inputs and parameters: any number of trial evaluations at other times and states, repeated or reordered queries and further discrete updates at an already handled event leave them unchanged. "
     "They follow the model's published equations, and an importer that integrates with forward Euler on the solver grid obtains the trajectory and the events of co-simulation.",
     ["histories", "schedules"], "every history of trial evaluations, rejected steps and event iterations an ODE solver can produce",
     "The tests evaluate each model once per step with one fixed integrator.",
     ["src/fmi2Functions.c", "src/fmi3Functions.c", "BouncingBall/model.c", "Dahlquist/model.c", "VanDerPol/model.c", "Roberts/model.c", "Stair/model.c", "StateSpace/model.c"],
     [("recalculation when something was set", "src/fmi3Functions.c: GET_VARIABLES; src/fmi2Functions.c: GET_VARIABLES"),
      ("ME functions", "src/fmi2Functions.c and src/fmi3Functions.c: SetTime, SetContinuousStates, GetDerivatives, GetEventIndicators, NewDiscreteStates/UpdateDiscreteStates"),
      ("equations", "*/model.c")],
     [("isDirtyValues", "whether the dependent variables are out of date", "include/model.h")],
     ["fmi2/fmi3 model-exchange functions"])

prop("C11", "Calls outside the FMI state machine are rejected without side effects",
     "For every history of FMI calls, a call that the FMI standard does not allow in the current mode of the instance returns an error and changes no variable, and a get or set of variables (other than clocks) with a missing array, an unknown variable, a value the variable cannot take or a wrong number of values returns an error without accessing memory outside the given arrays. "
     "Allowed calls succeed and lead to the mode the standard prescribes, and instantiation with a wrong token or without a name yields no instance. "
     "After an error the instance accepts no further simulation call until it is reset, and reset and free always work.",
     ["histories", "inputs", "fault_sequences"], "every sequence of calls, legal and illegal, by a misbehaving importer, for every model, interface type and FMI version",
     "The tests contain only legal sequences.",
     ["src/fmi2Functions.c", "src/fmi3Functions.c", "include/model.h", "src/cosimulation.c"],
     [("allowed-state masks", "src/fmi2Functions.c, src/fmi3Functions.c: MASK_*, BEGIN_FUNCTION"),
      ("mode transitions", "src/fmi2Functions.c, src/fmi3Functions.c: Enter*/Exit*/Terminate/Reset"),
      ("argument checks", "src/cosimulation.c: invalidNumber, nullPointer; include/model.h: ASSERT_NVALUES"),
      ("error escalation", "src/fmi2Functions.c, src/fmi3Functions.c: CALL")],
     [("state", "current mode of the instance", "include/model.h: ModelState")],
     ["status of every FMI function"])

prop("C12", "Out-of-memory in an FMU is reported, never fatal and never wrong data",
     "Whatever allocation made inside an FMU fails in whatever call, the process does not crash, no memory error occurs, and the call either fails (error status or no instance) or completes with exactly the result it would have had without the failure, apart from a dropped log message. "
     "Other instances and previously saved FMU states remain intact, an instance whose call failed can still be reset and freed, and once everything is freed no memory is left allocated.",
     ["fault_sequences", "histories"], "every subset of failing allocations over every call history",
     "No test makes an allocation fail.",
     ["src/cosimulation.c", "src/fmi2Functions.c", "src/fmi3Functions.c"],
     [("instance allocation", "src/cosimulation.c: createModelInstance, freeModelInstance"),
      ("state buffers", "src/cosimulation.c: s_reallocate, getFMUState; src/fmi2Functions.c: fmi2DeSerializeFMUstate; src/fmi3Functions.c: fmi3DeserializeFMUState"),
      ("log message buffers", "src/cosimulation.c: logMessage")],
     None, ["status and results of every FMI function", "allocator seam"])

prop("C13", "The Resource FMU returns the file's first byte or an error",
     "For every resource location and every sequence of missing files, failed opens, read errors, empty files and recoveries, a read of y that succeeds returns the code of the first character of resources/y.txt; when the character could not be read the call reports an error. "
     "Percent-encoded characters in an FMI 2 resource URI are decoded, over-long locations are refused without touching memory outside the buffers, and every file opened is closed again.",
     ["fault_sequences", "inputs"], "every sequence of open and read faults, file contents and resource locations",
     "The tests read one existing file from one short path.",
     ["Resource/model.c", "src/fmi2Functions.c", "src/fmi3Functions.c"],
     [("reading the file", "Resource/model.c: calculateValues"),
      ("path construction and URI decoding", "Resource/model.c: calculateValues"),
      ("status propagation", "src/fmi2Functions.c, src/fmi3Functions.c: GET_VARIABLES, ExitInitializationMode")],
     None, ["fmi2GetInteger", "fmi3GetInt32", "file seam"])

prop("C14", "Reconfiguring array sizes keeps StateSpace consistent with its equations",
     "For every history of configuration and reconfiguration, value changes, steps and state restores, sizes read back as set, an array has exactly the number of elements its sizes prescribe and reads back element by element as it was last set, and derivative, output and solver steps equal Ax + Bu and Cx + Du of the current sizes. "
     "The state starts at x0, sizes above the maximum or set outside (re)configuration mode are refused, and after reconfiguration the instance continues in a mode in which it can be simulated further.",
     ["histories", "inputs"], "every history of structural changes in every order, including sizes zero and maximum and non-square shapes",
     "The only test that reconfigures does so once with one shape, and it does not pass on the base tree.",
     ["StateSpace/model.c", "src/fmi3Functions.c", "src/cosimulation.c"],
     [("array access and equations", "StateSpace/model.c: getFloat64, setFloat64, setUInt64, calculateValues"),
      ("mode changes", "src/fmi3Functions.c: fmi3EnterConfigurationMode, fmi3ExitConfigurationMode"),
      ("solver dimensions", "src/cosimulation.c: configurate")],
     [("m, n, r", "numbers of inputs, states and outputs", "StateSpace/config.h")],
     ["fmi3SetUInt64", "fmi3GetFloat64/SetFloat64", "fmi3DoStep", "fmi3GetContinuousStateDerivatives"])

prop("C15", "Intermediate updates are complete, ordered and without influence",
     "During a co-simulation step the intermediate-update callback is invoked exactly once for every solver step, with the importer's environment and strictly increasing times that are the grid points reached, and what the importer reads inside the callback are the values at that time. "
     "It is never invoked outside a step, and whether a callback is installed, and what it reads, changes no result.",
     ["schedules", "histories"], "every communication schedule, with callbacks that read arbitrary variables or install nothing",
     "One example prints what it receives; nothing compares it.",
     ["src/cosimulation.c", "src/fmi3Functions.c"],
     [("callback invocation", "src/cosimulation.c: doFixedStep"),
      ("installation", "src/fmi3Functions.c: fmi3InstantiateCoSimulation")],
     None, ["intermediateUpdate callback", "fmi3DoStep"])

prop("C16", "Logging follows its settings and never changes behaviour",
     "Statuses and values of every call history are the same whatever the logging settings, with or without a log callback. "
     "A message is delivered to the environment (in FMI 2 also under the name) of the instance it concerns, only while its category is enabled, and every rejected call on an instance with error logging enabled delivers at least one error message, in the category for errors. A request to switch a category the FMU does not have is rejected, and text given by the importer is never delivered as a format.",
     ["histories", "configurations", "inputs"], "every call history interleaved with every change of the logging settings, in several instances at once",
     "The tests only print what is logged.",
     ["src/cosimulation.c", "src/fmi2Functions.c", "src/fmi3Functions.c"],
     [("category switches", "src/cosimulation.c: setDebugLogging"),
      ("message construction and delivery", "src/cosimulation.c: logMessage, logEvent, logError"),
      ("error reporting", "src/fmi2Functions.c, src/fmi3Functions.c: BEGIN_FUNCTION, CALL")],
     [("logEvents, logErrors", "enabled categories", "include/model.h")],
     ["log callback", "fmi2SetDebugLogging", "fmi3SetDebugLogging"])

prop("C17", "The importer library forwards every call and logs it once and in full",
     "For every sequence of calls made through the importer library, the FMU receives exactly one call with exactly the given arguments, and the caller receives exactly the FMU's status and output values. "
     "Each call is reported to the call-log callback of its instance exactly once, after the FMU returned, with the FMU's status and a message that names the function and contains every number and every element of every array that is not reported by its address, in full whatever its length. "
     "Messages the FMU logs reach the log callback of that instance once, with unchanged status, category and text.",
     ["inputs", "histories"], "every call with every array length and content, every message length including those that exactly fill the buffer, and every status the FMU can return",
     "The tests make a handful of calls with short arrays to FMUs that return OK and inspect no log line.",
     ["src/FMI.c", "src/FMI2.c", "src/FMI3.c", "include/FMI.h"],
     [("log message buffer", "src/FMI.c: FMIAppendToLogMessageBuffer, FMIAppendArrayToLogMessageBuffer, FMIClearLogMessageBuffer"),
      ("call wrappers", "src/FMI2.c, src/FMI3.c: CALL, CALL_ARGS, CALL_ARRAY and individual functions")],
     [("logMessageBuffer, Size, Position", "the message under construction", "include/FMI.h")],
     ["FMI2*/FMI3* functions", "logFunctionCall callback", "function table resolved from the shared library"])

prop("C18", "The importer library survives failed loads and allocations",
     "Whatever allocation, library load or symbol lookup fails in whatever call of the importer library, the process does not crash, no memory outside the buffers is touched, and a failed creation, load or instantiation is reported to the caller; call results remain those of the FMU, at most log text is lost, and calls made after the failure are logged in full again. "
     "Once an instance is freed, however far it got, its memory and the shared library are released exactly once.",
     ["fault_sequences", "histories"], "every subset of failing allocations, loads and lookups over every call history through the importer library",
     "No test makes an allocation, load or lookup fail.",
     ["src/FMI.c", "src/FMI2.c", "src/FMI3.c"],
     [("instance and buffer allocation", "src/FMI.c: FMICreateInstance, FMIRealloc, FMIFreeInstance"),
      ("library load", "src/FMI.c: FMILoadPlatformBinary"),
      ("symbol resolution", "src/FMI2.c: FMI2Instantiate; src/FMI3.c: loadSymbols3, FMI3InstantiateModelExchange, FMI3InstantiateCoSimulation, FMI3InstantiateScheduledExecution")],
     None, ["FMICreateInstance", "FMILoadPlatformBinary", "FMI2Instantiate", "FMI3Instantiate*", "FMIFreeInstance", "allocator and loader seams"])

prop("C19", "A variable reads back what was last set, whatever happened in between",
     "In every call history in which no call was rejected, each parameter and input of each FMU reads back bit-identically the value last set, or its documented start value, and each Feedthrough output equals its input, for all data types and for strings and binaries of every accepted length. "
     "Setting one variable changes no other independent variable, any grouping and order of variables in one call gives the same result as single calls, and steps, events, mode changes, reads, saved states and errors in other instances do not change them.",
     ["histories", "inputs"], "every history of sets and gets in every grouping and order, interleaved with steps, mode changes and state saves",
     "The tests set at most one variable per call and read few back.",
     ["Feedthrough/model.c", "BouncingBall/model.c", "Dahlquist/model.c", "VanDerPol/model.c", "Stair/model.c", "src/fmi2Functions.c", "src/fmi3Functions.c"],
     [("getters and setters", "*/model.c: get*, set*"),
      ("loops over value references", "src/fmi2Functions.c, src/fmi3Functions.c: GET_VARIABLES, SET_VARIABLES, Get/SetString, Get/SetBinary, Get/SetBoolean")],
     None, ["fmi2Get*/fmi2Set*", "fmi3Get*/fmi3Set*"])

prop("C20", "Directional and adjoint derivatives equal the partial derivatives",
     "For every state, the directional derivative is the Jacobian times the seed vector and the adjoint derivative is the transposed Jacobian times the seed, where the Jacobian holds the analytic partial derivatives of the model equations.",
     ["inputs"], "every state, pair of variables and seed",
     "The tests evaluate no derivative.",
     ["src/fmi3Functions.c", "src/fmi2Functions.c", "BouncingBall/model.c", "VanDerPol/model.c", "Dahlquist/model.c"],
     [("derivative products", "src/fmi3Functions.c: fmi3GetDirectionalDerivative, fmi3GetAdjointDerivative; src/fmi2Functions.c: fmi2GetDirectionalDerivative"),
      ("partial derivatives", "*/model.c: getPartialDerivative")])

prop("C21", "Paths convert to URIs and platform paths without loss or overflow",
     "For every path and buffer size, conversion to a file URI either yields a valid percent-encoded URI that decodes to the path or reports an error, and the platform binary path is complete or an error is reported; neither writes past the given size.",
     ["inputs"], "every path and buffer size",
     "No test calls these functions with special characters or tight buffers.",
     ["src/FMI.c"],
     [("conversion", "src/FMI.c: FMIPathToURI, FMIPlatformBinaryPath")])

prop("C22", "Each model description agrees with the FMU binary",
     "For every model, variables, types, start values, capabilities and instantiation token in the model description are those the binary implements.",
     ["configurations"], "every variable of every model description",
     "The tests do not read the model descriptions.",
     ["*/FMI2.xml", "*/FMI3.xml", "*/config.h"],
     [("description and configuration", "*/FMI2.xml, */FMI3.xml, */config.h")])

prop("C23", "A simulation program delivers the complete result or reports a failure",
     "Each example program, run with the importer library on its FMU without faults, exits with status 0 and leaves a result file whose rows follow the model from start to stop, whatever files earlier runs left. "
     "Whichever allocation, library load, symbol lookup, file open, read, write or close fails, the program neither crashes, hangs nor corrupts memory, releases what it acquired, and exits with status 0 only if its result file is identical to that of a run without faults. "
     "Killed at any point, it leaves a beginning of that file at most, and the next run produces all of it.",
     ["fault_sequences", "crash_points", "configurations"], "every program, model and FMI version, and every sequence of failing environment calls and kill points",
     "The tests run the programs once, on a working machine, and look at the exit status only.",
     ["examples/util.h", "examples/simulate_fmi2_cs.c", "examples/simulate_fmi2_me.c", "examples/simulate_fmi3_cs.c", "examples/simulate_fmi3_me.c", "src/FMI.c", "src/FMI2.c", "src/FMI3.c", "src/cosimulation.c"],
     [("set-up, tear-down and result files", "examples/util.h: setUp, tearDown"),
      ("simulation loops", "examples/simulate_fmi*.c, examples/cs_*.c, examples/scs_synchronous.c: main"),
      ("loading and releasing", "src/FMI.c: FMILoadPlatformBinary, FMIFreeInstance; src/FMI2.c: FMI2Instantiate; src/FMI3.c: FMI3Instantiate*")],
     None, ["exit status and result file of the programs"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
