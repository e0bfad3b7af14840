#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the file stays valid and uniform)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

CORE="libs/core/include/rtbot/"; STD="libs/std/include/rtbot/std/"; API="libs/api/"

prop("C01","Input forwards exactly the strictly newer messages, per port",
 "For every sequence of messages offered to an Input, each output port carries, unchanged and immediately, exactly the messages whose time is strictly greater than that of every message already forwarded on the same port; late and repeated timestamps are discarded. Ports do not influence one another, and a discarded message never affects what happens to later ones.",
 ["histories","inputs"],"all message sequences (any order of times, duplicates, several ports, values of any sign) up to a bound; time bases small, around 2^31, 2^32, 2^53 and 2^63",
 "test_input samples two monotone-ish sequences on one port; multi-port interleavings, equal times, big timestamps and histories after a discard are not reached.",
 [CORE+"Input.h",CORE+"Operator.h"],[("comparison with the last forwarded message of the port","Input::processData"),("lastSent","Input.h")],["messages returned by the Input operator"],
 [("lastSent","last message forwarded per port",CORE+"Input.h")])
prop("C02","Join emits exactly the timestamps common to all its ports, once, in order",
 "A Join emits exactly one synchronized tuple for every timestamp that occurs on all of its ports, in increasing time order, each output port k carrying the message received on input port k, and nothing else. The tuple is emitted by the very step that delivers the last missing message of that timestamp, whatever the sequence of unmatched messages before it.",
 ["schedules","histories","inputs"],"all sets of per-port time sequences over a small time domain and all interleavings of their arrival, 2 to 4 ports, plus wide joins (10+ ports)",
 "test_join runs one fixed pipeline; no test enumerates arrival interleavings with skipped timestamps on several ports.",
 [CORE+"Join.h"],[("alignment on the newest head, discarding older heads","Join::executeData")],["messages returned by Join"],
 [("per-port queues","messages not matched yet",CORE+"Operator.h")])
prop("C03","Two-stream and linear operators compute their function over matched times",
 "Plus, Minus, Multiplication, Division, And, Or, GreaterThanStream, LessThanStream and Linear emit, for every timestamp present on all their inputs, the documented function of the values at that timestamp with port k as the k-th operand (Linear: the sum of coefficient k times port k, for any number of ports), stamped with that timestamp. Division emits nothing where the divisor is zero, the comparison operators emit the first stream's value only where the comparison holds, and a timestamp without a result never disturbs later ones.",
 ["schedules","inputs","configurations"],"all value pairs over an alphabet with zeros, signs, fractions and ties around 0.5, all arrival interleavings up to a bound; Linear with 2 to 13 coefficients",
 "Unit tests use one monotone sequence per operator and always deliver i1 then i2.",
 [CORE+"BinaryJoin.h",CORE+"Join.h",STD+"Linear.h",STD+"Minus.h",STD+"Plus.h",STD+"Multiplication.h",STD+"Division.h",STD+"And.h",STD+"Or.h",STD+"GreaterThanStream.h",STD+"LessThanStream.h"],
 [("operation lambda over the two heads","BinaryJoin::processData"),("coefficient per port","Linear::processData")],["operator output"])
prop("C04","Synchronizing operators do not depend on the arrival interleaving",
 "For an operator with several inputs (Join, two-stream arithmetic and logic, Linear, Demultiplexer, Variable), the sequence of messages it emits over a history is a function of the per-port message sequences alone. Any two interleavings of the same per-port sequences produce the same emitted sequence on every output port.",
 ["schedules"],"all pairs of interleavings (each is compared with a canonical one) of bounded per-port sequences for every multi-input operator",
 "Tests deliver every port in one fixed order.",
 [CORE+"Join.h",CORE+"BinaryJoin.h",CORE+"Demultiplexer.h",STD+"Variable.h",STD+"Linear.h"],[("buffering until all ports are ready","Join::executeData, Demultiplexer::join, Variable::query")],["operator output per port"])
prop("C05","Listing order of operators and connections does not change a program",
 "A program whose every input port is fed by exactly one connection behaves identically for every order in which its operators and connections are listed: the same messages are emitted on every operator port, in the same order.",
 ["programs","schedules"],"all permutations of the operator and connection lists of a family of program graphs (diamonds, unequal path lengths, joins, demultiplexer control paths, variables), over all bounded input sequences",
 "Every test program is written in one listing order.",
 [CORE+"Operator.h",API+"src/Program.cpp"],[("deliver to all children, then execute them","Operator::emit"),("construction from JSON","Program::init")],["per-operator debug output of a program"])
prop("C06","Restoring an operator's collected state is invisible",
 "For every operator type and every point of every history, collecting its state and restoring it into a freshly built operator of the same definition yields an operator that emits exactly the same messages as the original for every continuation. Collecting does not disturb the original, and restoring consumes exactly the bytes collected.",
 ["histories","crash_points"],"all bounded histories of each operator type, with the checkpoint at every position, and every bounded continuation (including several successive checkpoints)",
 "test_state_serialization and a few sections restore once at a single point and mostly compare buffers rather than futures.",
 [CORE+"Operator.h",CORE+"Input.h",CORE+"Composite.h",STD+"HermiteResampler.h",STD+"CosineResampler.h",STD+"ConstantResampler.h",STD+"Variable.h",STD+"Count.h",STD+"CumulativeSum.h",STD+"Function.h","libs/finance/include/rtbot/finance/RelativeStrengthIndex.h"],
 [("collect / restore overrides","each stateful operator")],["emitted messages after restore"])
prop("C07","A serialized program resumes exactly where it stopped",
 "Serializing a running program at any point and creating a program from those bytes yields a program that produces exactly the same outputs as the uninterrupted one for every later input, including programs that contain nested pipelines, resamplers and partially filled joins. Serializing never changes the running program, and a resumed program can itself be serialized and resumed any number of times.",
 ["crash_points","histories","programs"],"every crash point (before/after each message) of every bounded history of a family of programs covering every operator type, single and repeated crashes",
 "test_program_collect_restore checkpoints one program once.",
 [API+"include/rtbot/Program.h",API+"src/Program.cpp",API+"include/rtbot/Pipeline.h",CORE+"Operator.h"],[("program text plus per-operator state","Program::serialize / Program(Bytes)")],["program output after restart"])
prop("C08","Moving average and standard deviation describe exactly the last n messages",
 "MovingAverage(n) and StandardDeviation(n) emit nothing for the first n-1 messages and exactly one message for each later one, stamped with the newest message's time and valued with the arithmetic mean, respectively the sample standard deviation (divisor n-1), of exactly the n most recent values, up to rounding. This holds at every point of arbitrarily long streams.",
 ["inputs","histories","configurations"],"all value sequences up to a bound over an alphabet of exactly summable values for windows 1..6 (and larger), plus long periodic streams",
 "Unit tests feed one or two constant or linear ramps.",
 [STD+"MovingAverage.h",STD+"StandardDeviation.h",CORE+"Operator.h"],[("running sum over a bounded window","Operator::receiveData"),("window fill gate","Operator::executeData")],["operator output"])
prop("C09","FIR filter and Difference apply their formula to the newest messages",
 "FiniteImpulseResponse with N coefficients emits, from the N-th message on, the sum of coefficient k times the k-th most recent value, stamped with the newest time. Difference emits from the second message on the newest value minus the previous one, stamped with the newest time by default and with the older message's time when so configured.",
 ["inputs","histories","configurations"],"all value sequences over a small alphabet, all coefficient vectors over a small alphabet up to length 4, uneven time spacing and large timestamps",
 "Tests use symmetric data where misordered coefficients or a wrong time are invisible.",
 [STD+"FiniteImpulseResponse.h",STD+"Difference.h"],[("indexing from the newest message","FiniteImpulseResponse::processData"),("two-message window","Difference::processData")],["operator output"])
prop("C10","PeakDetector reports exactly the window centres not exceeded by others",
 "Once n messages have arrived, PeakDetector(n) emits at each step exactly when no message of the n most recent ones has a larger value than the one at index n/2 counted from the oldest, and what it emits is that message with its own time and value. Otherwise it emits nothing.",
 ["inputs","histories","configurations"],"all value sequences with ties over a small alphabet, windows 1..7 (odd and even)",
 "Tests sample a few shapes for odd windows.",
 [STD+"PeakDetector.h"],[("comparison of the centre with every message","PeakDetector::processData")],["operator output"])
prop("C11","Count, CumulativeSum and AutoRegressive follow their recurrences",
 "Count emits 1,2,3,... and CumulativeSum the sum of all values so far, one message per input at the input's time. AutoRegressive emits x(t) plus the sum of coefficient k times its own k-th most recent output, with outputs before the start taken as zero.",
 ["inputs","histories","configurations"],"all value sequences over a small alphabet, all coefficient vectors up to length 3, long periodic streams",
 "Tests use constant inputs and equal coefficients, which cannot distinguish orderings.",
 [STD+"Count.h",STD+"CumulativeSum.h",STD+"AutoRegressive.h"],[("accumulators","processData"),("feedback buffer","AutoRegressive::executeData")],["operator output"])
prop("C12","RelativeStrengthIndex follows Wilder's definition at every step",
 "RelativeStrengthIndex(n) emits nothing until n+1 messages have arrived; its first value uses the plain averages of the n gains and losses, and every later one the smoothed averages (previous times n-1 plus current, over n). The value is 100 - 100/(1+averageGain/averageLoss), and 100 when the average loss is zero, stamped with the newest time.",
 ["inputs","histories","configurations"],"all value sequences up to a bound with rises, falls and plateaus, n in 1..5, plus long periodic streams",
 "The test compares one recorded price list.",
 ["libs/finance/include/rtbot/finance/RelativeStrengthIndex.h"],[("initial and smoothed averages","RelativeStrengthIndex::processData")],["operator output"])
prop("C13","Pointwise operators map each message to exactly one message",
 "Add, Scale, Power, Constant and Identity emit exactly one message for each message received, immediately, at the same time, valued x+c, x*c, x^c, c and x respectively, independent of every earlier message.",
 ["inputs","histories","configurations"],"all bounded message sequences and parameters over alphabets with zero, negative, fractional and huge values and times",
 "Tests use a single positive ramp and one parameter.",
 [STD+"Add.h",STD+"Scale.h",STD+"Power.h",STD+"Constant.h",STD+"Identity.h"],[("processData","each operator")],["operator output"])
prop("C14","Value filters forward exactly the matching messages unchanged",
 "GreaterThan, LessThan and EqualTo forward a message, unchanged and immediately, exactly when its value is strictly greater than, strictly less than, or equal to the reference value, and drop every other message, independent of every earlier message.",
 ["inputs","histories","configurations"],"all bounded message sequences and reference values with ties at the boundary",
 "Tests only use a ramp crossing the threshold once.",
 [CORE+"FilterByValue.h",STD+"GreaterThan.h",STD+"LessThan.h",STD+"EqualTo.h"],[("predicate","FilterByValue::processData")],["operator output"])
prop("C15","TimeShift adds dt*times to each time and clamps at zero",
 "TimeShift emits each message immediately with its value unchanged and its time increased by dt*times; a shift of zero leaves the time unchanged, and a negative shift that would lead below zero yields time zero.",
 ["inputs","configurations"],"all times and (dt, times) over alphabets with negative multipliers, zero, boundaries and values above 2^32",
 "The test uses dt=2, times=2 only.",
 [STD+"TimeShift.h",API+"src/FactoryOp.cpp"],[("signed shift and clamp","TimeShift::processData")],["operator output"])
prop("C16","Function interpolates through its points",
 "Function emits one message per input at the same time; a value equal to a point's abscissa yields that point's ordinate, in both modes and for points given in any order. Linear mode returns the piecewise linear interpolant, continued with the first and last segments outside the range; hermite mode returns the cubic Hermite curve through the points whose tangent at a point is the slope between its two neighbours (one-sided at the ends), hence a smooth curve that reproduces a straight line when all points lie on one; outside the range the curve of the first and last segment is continued.",
 ["inputs","configurations"],"all point sets of 2 to 4 points over a small grid with uneven spacing, all listing orders, inputs at, between and outside the points",
 "Tests use evenly spaced unit-width points and loose inequalities.",
 [STD+"Function.h",API+"src/FactoryOp.cpp"],[("segment search","Function::processData"),("tangents","Function::getTangent")],["operator output"])
prop("C17","ConstantResampler emits the causally last value on a fixed grid",
 "With first message at t0 and interval d, ConstantResampler emits exactly one message at every grid time t0+k*d (k>=1) not later than the newest message, in order, as soon as a message at or after that grid time arrives. Its value is the value of the latest message not later than the grid time.",
 ["inputs","histories","configurations"],"all strictly increasing time sequences over a bounded domain, intervals 1..5 and large gaps, huge time bases",
 "Tests cover a few hand-written schedules.",
 [STD+"ConstantResampler.h"],[("nextEmit loop","ConstantResampler::processData")],["operator output"])
prop("C18","Interpolating resamplers emit every grid time exactly once",
 "With first message at t0 and step d, CosineResampler and HermiteResampler emit at exactly the grid times t0+k*d (k>=1), each exactly once and in increasing order, for every spacing of the input including gaps much smaller or larger than d. After n messages the emitted grid reaches the newest message (cosine, from the second message) or the message before the newest (hermite, from the fourth message).",
 ["inputs","histories","configurations"],"all strictly increasing time sequences with gaps from a small set, all steps d up to a bound, several time bases",
 "Tests use evenly spaced input, or a step of 1.",
 [STD+"CosineResampler.h",STD+"HermiteResampler.h"],[("carryOver across windows","processData / lookAt")],["emitted times"],[("carryOver","distance from last grid point to window start",STD+"CosineResampler.h")])
prop("C19","Interpolating resamplers emit the documented interpolated values",
 "CosineResampler values each grid time with the cosine interpolation of the two messages around it. HermiteResampler values it with the cubic Hermite interpolation (zero tension and bias) of the two messages on either side, where the missing left neighbour of the very first interval is the least-squares line through the first four messages, evaluated one mean spacing before the first message; values do not depend on the absolute time origin.",
 ["inputs","histories","configurations"],"all bounded value and gap sequences, steps and time origins from 0 to beyond 2^40",
 "Tests check emitted values one-sidedly (difference < 1 without absolute value).",
 [STD+"CosineResampler.h",STD+"HermiteResampler.h"],[("interpolation kernels","cosineInterpolate / hermiteInterpolate / getLineLeastSquares")],["emitted values"])
prop("C20","Demultiplexer routes each message to exactly the ports its controls select",
 "Once the control messages with a data message's time have arrived on all control ports, the data message is forwarded unchanged on exactly the ports whose control value is 1 and never again; with all controls 0 it is dropped. Routing follows data order for any delay between data and controls, and control messages older than the pending data are ignored.",
 ["schedules","inputs","histories"],"all control assignments in {0,1} for 1 to 3 ports, all interleavings of data and control arrival up to a bound, missing data for some control times",
 "One pipeline test delivers data and control together.",
 [CORE+"Demultiplexer.h"],[("match of data head and control heads","Demultiplexer::join")],["operator output per port"])
prop("C21","Variable answers every query with the value in force at the query time",
 "For data messages and queries each arriving in time order, Variable emits exactly one message per query, at the query's time and in query order, valued with the latest data message not later than the query, or with the configured default when the query precedes all data. The answer is emitted as soon as a data message at the query's time or later has arrived, however many queries were waiting.",
 ["schedules","inputs","histories"],"all increasing data and query time sequences over a small domain and all interleavings of their arrival",
 "The unit test delivers all data first and one query at a time.",
 [STD+"Variable.h"],[("query over the buffered definitions","Variable::query")],["operator output"])
prop("C22","A program computes the composition of its operators along every connection",
 "For every program graph, each message emitted on an operator port is delivered exactly once to every input connected to that port, to the port named by the connection, in emission order; the messages reported for each operator port are exactly those obtained by composing the operators' documented functions along the connections. Omitted port names resolve to the only port of an operator.",
 ["programs","inputs"],"all small program graphs (up to 4 inner operators, fan-out, diamonds, multi-port operators) and all bounded input sequences, against an independent dataflow interpreter",
 "Test programs are a handful of fixed graphs.",
 [API+"src/Program.cpp",API+"include/rtbot/Program.h",CORE+"Operator.h"],[("emit / connect","Operator.h"),("graph construction","Program::init")],["debug output of a program"])
prop("C23","Batching does not change results",
 "Feeding a program a batch of messages produces, per operator port, exactly the concatenation of what feeding the same messages one at a time in port order produces, for every way of splitting a sequence into batches. Buffered processing, batch processing and direct processing of the same messages give identical results, and a processed buffer is empty afterwards.",
 ["histories","programs"],"all splits of bounded message sequences into batches, over the three feeding interfaces, plain and debug",
 "Tests use one feeding style each and never compare them.",
 [API+"include/rtbot/Program.h",API+"include/rtbot/FactoryOp.h",API+"src/bindings.cpp"],[("merge of per-message results","Program::receiveDebug"),("message buffer","FactoryOp::processMessageBuffer")],["program output"])
prop("C24","The output declaration selects exactly the listed ports",
 "A program with an output declaration returns exactly the messages that its listed operator ports emitted, complete and in order, and nothing else; without a declaration it returns everything. Debug processing always returns everything, and choosing one or the other never changes the program's behaviour.",
 ["programs","inputs"],"all subsets of ports as output declarations of a family of programs, all bounded inputs, normal and debug calls interleaved",
 "Tests look up one port in the result.",
 [API+"include/rtbot/Program.h"],[("projection by outputFilter","Program::receive")],["program output"])
prop("C25","Programs in one process are isolated and follow a clean lifecycle",
 "Creating, feeding, serializing or deleting one program never affects the state or pending messages of another. Deleting reports whether the program existed, after it every use of that id is an error, and a program created again under that id starts from a fresh state with no pending messages; creating under an id in use never disturbs the program that owns it.",
 ["histories"],"all operation sequences (create, create from bytes, add to buffer, process, delete, serialize) over two ids and several definitions up to a bound, compared with a reference registry",
 "Tests create each program once.",
 [API+"include/rtbot/FactoryOp.h",API+"src/FactoryOp.cpp",API+"src/bindings.cpp"],[("programs map and message buffer","FactoryOp")],["results and errors of the program API"])
prop("C26","Malformed programs are rejected with an error and leave nothing behind",
 "A program definition that is not valid JSON, lacks or misnames its entry operator, has an entry operator with control inputs, uses an unknown operator type, lacks a required parameter, has a parameter its operator forbids, or connects unknown operators or ports is always refused with a reported error, never accepted silently and never by terminating the process. The refused id stays unused and can be used for a valid program afterwards.",
 ["programs","fault_sequences"],"all single (and selected double) mutations of valid program definitions",
 "Tests only create valid programs.",
 [API+"src/Program.cpp",API+"src/FactoryOp.cpp",API+"src/Pipeline.cpp"],[("checks while building","Program::init, readOp, from_json")],["errors of program creation"])
prop("C27","Writing an operator as JSON and reading it back yields the same operator",
 "For every operator type and every parameter choice, the JSON written for an operator, read back, gives an operator with the same id, ports and behaviour on every input; writing it again gives the same JSON. Fractional, negative and large parameters survive unchanged.",
 ["configurations","inputs"],"every registered operator type with all parameters from an alphabet, over bounded input sequences",
 "No test covers the JSON form of most operators.",
 [API+"src/FactoryOp.cpp"],[("to_json / from_json","FactoryOp.cpp")],["behaviour of the re-read operator"])
prop("C28","A pipeline behaves like the graph it contains",
 "A program using a nested pipeline emits, on every port downstream of the pipeline, exactly the messages that the same program emits with the pipeline's operators placed inline; this holds for pipelines inside pipelines and for several instances of the same pipeline, which never share state.",
 ["programs","inputs"],"a family of inner graphs (single and multi port, stateful, joins, resamplers) nested up to depth 2, all bounded inputs",
 "test_pipeline_op covers a few fixed pipelines with one data set.",
 [API+"include/rtbot/Pipeline.h",API+"src/Pipeline.cpp"],[("unused inner ports become pipeline ports","Pipeline::Pipeline"),("forwarding of inner outputs","Pipeline::executeData")],["program output"])
prop("C29","A composite operator behaves like the chain it wraps",
 "A composite built from operators and internal connections emits, through its output operator and to anything connected to it, exactly the messages that the same operators connected directly emit, for every input on each of its ports.",
 ["programs","inputs"],"a family of composites over every operator a composite can create, all bounded inputs",
 "test_composite covers a few fixed chains.",
 [CORE+"Composite.h"],[("delegation to inner input/output operators","Composite")],["emitted messages"])
prop("C30","Streams stay strictly ordered in time through every operator",
 "If the messages entering a program carry strictly increasing times per port, then on every output port of every operator other than a clamped TimeShift the emitted times are strictly increasing, and no operator emits a message about the future: no emitted time exceeds the newest time received by the program (plus any configured positive shift).",
 ["programs","histories"],"every operator type and a family of programs, all bounded strictly increasing inputs with uneven gaps and interleavings over ports",
 "Tests inspect single messages, not whole output streams.",
 [CORE+"Operator.h",CORE+"Join.h",STD+"HermiteResampler.h",STD+"CosineResampler.h",STD+"ConstantResampler.h",STD+"Variable.h",CORE+"Demultiplexer.h"],[("processData of every operator","core and std")],["debug output of a program"])
prop("C31","A rejected message is reported and otherwise has no effect",
 "A message for an unknown port, an unknown program or a batch of mismatched lengths is answered with an error. Apart from that error the program behaves afterwards exactly as if the rejected message had never been sent, including on its buffered interface.",
 ["fault_sequences","histories"],"all bounded histories with a rejected call inserted at every position, on every feeding interface",
 "No test sends an invalid message.",
 [API+"include/rtbot/FactoryOp.h",API+"include/rtbot/Program.h",API+"src/bindings.cpp",CORE+"Operator.h"],[("existence checks","FactoryOp"),("port check","Operator::receiveData")],["errors and later outputs"])
prop("C32","The validation interface accepts exactly what the published schema allows",
 "Program validation accepts a definition exactly when it has the documented shape and every operator satisfies the parameter schema published with its documentation; a refusal reports the error, registers nothing and leaves a program that runs under the id untouched. Every definition that passes validation, names as entry an existing operator without control inputs, and whose connections name existing ports and form no loop can be created under exactly that definition and run.",
 ["programs","configurations"],"all single mutations of schema examples for every documented operator type, through the string API",
 "One test validates one program.",
 [API+"src/bindings.cpp","tools/generator",STD+"Linear.md",CORE+"Join.md"],[("schema validation before creation","bindings createProgram/validate")],["results of validate, validateOperator, createProgram"])
prop("C33","State stays bounded: no operator hoards messages it can no longer use",
 "On an endless stream the state of a program stops growing: the size of its checkpoint depends on its window sizes and on messages still waiting for a partner, not on how many messages it has processed, and neither does the memory it holds, through whichever function of the interface it is fed. In particular a synchronizing operator drops every message older than its last synchronization, and a query operator every superseded definition once queried.",
 ["histories","programs"],"every operator type and program family under all periodic input patterns of short period, run for thousands of steps; checkpoint size and live memory must be eventually periodic",
 "No test looks at state size or runs long streams.",
 [CORE+"Operator.h",CORE+"Join.h",CORE+"Demultiplexer.h",STD+"Variable.h"],[("bounded input queues","Operator::receiveData"),("pop of matched and stale messages","Join::executeData")],["checkpoint size"])
prop("C34","The Rust pipeline registry is consistent under concurrent use",
 "Creating, deleting and feeding pipelines through the Rust registry behaves, under every interleaving of concurrent callers, as some sequential order of the calls on a map from input and output key to one pipeline; at most one pipeline exists per key pair, deleting removes exactly the pipelines it names, and no call blocks forever.",
 ["schedules","histories"],"all operation sequences up to a bound, and all thread interleavings of small concurrent scenarios, on the real registry source under a controlled scheduler",
 "There are no tests for the registry.",
 ["apps/rtbot-rs/src/pipelines_registry.rs","apps/rtbot-rs/cxx/cxx_bindings.cpp"],[("mutex around the pipelines map","PipelinesRegistry")],["results of registry calls"])
prop("C35","Editing a program from JavaScript or Python changes exactly the named parts",
 "Adding and deleting operators and connections of a program object changes exactly the operator or connection named, in that program object only: deleting a connection removes only the one with the given two operators and two ports, deleting an operator removes it and exactly its connections, and duplicate connections or connections to unknown operators are refused without effect. In Python an operator that does not satisfy its schema or whose id is in use is refused without effect.",
 ["histories"],"all sequences of edits over a small set of operators and ports up to a bound, compared with a reference model",
 "program.spec.ts checks validation of a few literals.",
 ["libs/wrappers/javascript/src/program.ts","libs/wrappers/python/rtbot.py"],[("filters over operators and connections","Program")],["operators and connections of the program"])
prop("C36","Concurrent JavaScript calls do not mix their messages",
 "When several process calls on the same or different programs are in flight at once, each call resolves with exactly the outputs caused by its own messages, as if the calls had run one after another in the order they were made: what the engine answers to these messages on their ports. A call that is refused leaves none of its messages behind.",
 ["schedules"],"all interleavings of the asynchronous steps of two and three concurrent calls on the real client source",
 "No test issues concurrent calls.",
 ["libs/wrappers/javascript/src/api.ts","libs/wrappers/javascript/src/program.ts"],[("buffer fill and process within one turn","RtBot.process / processDebug")],["resolved values of the calls"])
prop("C37","A run over a data set returns everything the program emitted, in order",
 "The JavaScript and Python run helpers create the program as described (including its entry operator), feed each row's values to the entry ports in order at the row's time, and return for every operator port exactly the times and values the program emitted, in order. A program that cannot be created is reported as an error, and afterwards the program no longer exists.",
 ["inputs","programs","fault_sequences"],"all bounded data sets over a family of programs, collapsed and extended formats, failures of creation",
 "rtbot_test.py and program.spec.ts run one example.",
 ["libs/wrappers/javascript/src/api.ts","libs/wrappers/python/rtbot.py"],[("row loop and accumulation","RtBotRun.run / Run.exec")],["returned outputs and calls made to the engine"])
prop("C38","The generated operator classes describe exactly the documented operators",
 "There is one JavaScript and one Python class per documented operator, taking the documented parameters in the documented order. Constructed with values its schema allows, a class gives the definition with exactly these values (in Python completed with the documented defaults), which program validation and the engine accept; values or omissions the schema does not allow are refused by the constructor. A parameter that is left out means its documented default to the engine. Every target of the generator publishes the same schema: the documented one.",
 ["inputs","configurations"],"all documented operators with all combinations of sample values per parameter, omissions and one refused value, on the real generator's output",
 "program.spec.ts constructs a handful of operators; nothing tests the Python classes or the generator.",
 ["tools/generator","libs/wrappers/javascript/src/program.ts","libs/wrappers/python/rtbot.py",STD+"Function.md",CORE+"Input.md"],[("templates and parameter blocks","tools/generator/src/index.ts, templates/*.hbs"),("validation in constructors","Operator")],["definitions written by the classes, refusals, outputs"])
prop("C39","A program in Redis processes every sample of its series exactly once",
 "RTBOT.RUN feeds every sample of the input series, in time order, to a fresh run of its own program only, and leaves in the output series exactly what the program emitted for them. RTBOT.XRUN does the same and keeps the program attached: from then on every sample added to the input series is processed exactly once, in order, by each program attached to that series, and what it emits is stored in its output series and published on its output channel. A command that is refused or fails reports an error and leaves no program behind; samples of other series, and samples added before anything was attached, are harmless.",
 ["histories","fault_sequences"],"all bounded sequences of commands and sample arrivals over a few keys and programs, with failing commands and refused programs, on the real module source over a reference Redis",
 "There are no tests for the Redis module.",
 ["apps/redis-module/src/commands/rtbot_run.rs","apps/redis-module/src/commands/rtbot_xrun.rs","apps/rtbot-rs/src/pipelines_registry.rs"],[("run and xrun commands","rtbot_run::run / rtbot_xrun::run"),("sample arrival","on_generic_event"),("feeding of pipelines","PipelinesRegistry::receive")],["contents of the output series","published messages","answers of the commands","registered pipelines"])
prop("C40","The debugger shows exactly what the program emitted, at every step",
 "The debug command feeds every row that has a numeric time and value, scaled as asked and in order, to the program, and writes for each of them its input and the output of every operator; rows without numbers are skipped, and unreadable files or refused programs end in an error without output and without leaving a program behind. The interactive screen has one column per port of each selected operator and shows, from the current iteration on, up to eleven iterations with exactly what each port emitted in it; no sequence of keys, selections and timer ticks leaves the range of the run, fails, or shows anything else.",
 ["histories","inputs"],"all bounded sequences of keys, ticks and selections over all small runs, and all small tables and options of the command, on the real sources against a reference table",
 "There are no tests for the command line tool.",
 ["apps/cli/src/commands/debug.ts","apps/cli/src/tui/store.ts","apps/cli/src/tui/index.ts","apps/cli/src/tui/select-operators-form.ts"],[("window of the table","computeColumns"),("reading of the rows","registerDebug"),("stepping","forward / backward")],["table of the screen","written result"])
prop("C41","Every function the Python and WebAssembly modules export behaves as the engine's",
 "The Python extension module and the WebAssembly module offer program creation, deletion, validation, feeding, processing (plain and debug; in WebAssembly also batches) and the queries for entry operator, entry ports and output filter under these names. Each call through a module, in any order and on any number of programs, has the result, the error and the effect of the engine function of that name with the same arguments.",
 ["histories"],"all bounded sequences of calls through both module definitions, compared with the same calls on the engine",
 "Nothing tests the module definitions; they are not even compiled by the tests.",
 ["libs/wrappers/python/rtbot.cpp","libs/api/wasm/emscripten-bindings.cpp",API+"include/rtbot/bindings.h",API+"src/bindings.cpp"],[("module definition","PYBIND11_MODULE(rtbotapi)"),("exported functions","EMSCRIPTEN_BINDINGS")],["results and errors of the exported functions"])
prop("C42","The server relays every readable feed message and every published result once",
 "The server stores the configured program in Redis under keys of its own and starts it once. Every text message of the input websocket in which the configured time and first value can be read (time of arrival if no time is configured) is added to the program's input series exactly once, in order; messages that cannot be read are skipped, and neither these nor samples Redis refuses stop the feed. Every message published on the program's channel after the server has subscribed is sent exactly once, in order, with all its values, as JSON to every connected client; a client that leaves is released and does not disturb the others, and without a feed or Redis clients are still served. The server listens on the configured port or 9889, answers health checks, and any other path with a JSON not-found error.",
 ["schedules","histories","fault_sequences"],"all bounded sequences of feed messages, clients coming and going, refusals and requests, under all task schedules within a bound on deviations, on the real server source",
 "There are no tests for the server.",
 ["apps/rtbot-server/src/main.rs","apps/rtbot-server/src/push_redis_service.rs","apps/rtbot-server/src/pull_redis_service.rs","apps/rtbot-server/src/ws_client.rs","apps/rtbot-server/src/ws_handlers.rs","apps/rtbot-server/src/config.rs"],[("feed to Redis","connect_to_input_ws_redis"),("results to clients","main: rx.recv loop"),("clients","ClientHandle / handle_ws_client"),("errors","handle_rejection")],["commands sent to Redis","messages received by each client","answers to requests"])
prop("C43","Every operator page lists its parameters and its examples work as written",
 "The page the site shows for an operator begins with its documentation and lists every documented parameter in order, with its description and, if there is one (zero included), its default and its minimum. Its JSON, YAML, TypeScript and Python examples are well formed, can be carried out with the packages as they are, and all describe the same operator: one of the documented type with a value for every parameter, the documented example where there is one, and a value the schema and the engine accept in any case.",
 ["inputs","configurations"],"all operator pages of the repository and all pages with up to two parameters out of a catalogue of kinds (three with some), on the real generator's output",
 "Nothing tests the generator or the pages.",
 ["tools/generator/src/index.ts","tools/generator/src/handlebars.ts","tools/generator/templates/usage-md.hbs","tools/generator/templates/parameters-md.hbs",STD+"Function.md"],[("example values and snippets","target markdown"),("parameter list","parameters-md.hbs")],["text of the generated pages","operators the examples make"])
prop("C44","A drawn program shows exactly its connections",
 "The diagram of a Python program (toMermaidJs) has one edge for every connection of the program and no other, from the operator it leaves to the operator it reaches, labelled with the two ports it joins; each end shows the operator's type and its parameters' values, in order. This holds after every step of putting a program together, however it was put together, and drawing a program does not change it.",
 ["programs","histories"],"all programs of two or three operators and up to three connections, added step by step, given at once, or read from JSON, parsed back from the drawn text",
 "Nothing tests the diagrams.",
 ["libs/wrappers/python/rtbot.py"],[("the edges and labels","Program.toMermaidJs")],["text of the diagram"])
json_lines = "\n".join(json.dumps(p, ensure_ascii=True) for p in P) + "\n"
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w").write(json_lines)
print(len(P), "properties")
