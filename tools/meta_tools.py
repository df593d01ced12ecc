from meta import prop
prop("C08", "Scheduled calls happen exactly at their times, in order",
 "A periodic call recomputes, each time it is run, exactly the signals whose period divides the time, in the order of their names, each once and at that time; adding under a known name replaces, removing and clearing forget, the one-time trigger clears after it has run, and a period of zero or an unknown signal is refused. A sequencer runs at each evaluation exactly the events planned for the number of periods elapsed since its first evaluation in play mode, in the order in which they were added, and nothing while paused. An error in a call stops the following ones and is reported.",
 ["histories"], "all histories of adding, removing, clearing, failing and evaluating, with all periods and times",
 "Which call happens when depends on the history of additions and on the time of each evaluation. No test covers it.",
 ["src/tools/periodic-call.cpp", "include/sot/core/periodic-call.hh", "src/tools/periodic-call-entity.cpp", "src/tools/sequencer.cpp", "include/sot/core/sequencer.hh"],
 [("signalMap", "signals by name with their periods", "include/sot/core/periodic-call.hh"), ("taskMap, timeInit, playMode", "planned events and start", "include/sot/core/sequencer.hh")],
 [("runSignals, addDownsampledSignal", "src/tools/periodic-call.cpp"), ("trigerCall, trigerOnceCall", "src/tools/periodic-call-entity.cpp"), ("trigger, addTask, rmTask, clearAll", "src/tools/sequencer.cpp")],
 ["recomputed signals", "events run", "display", "errors"],
 "Events are those of the harness: the ones of the sequencer cannot be created from outside. A signal that changes the schedule while it is called is left out.")
prop("C10", "Decisions follow their inputs: events, latches, switches, clocks",
 "An event tells at each evaluation whether its condition differs from the previous evaluation, and recomputes its signals, in order, exactly when the condition rises or, on request, after it has held for the given number of evaluations. A latch keeps the last order given. A switch outputs the current value of the selected input, the integer selection coming first, and refuses a selection out of range or without input, whatever the number of inputs has been; the sign of an integer, the date and the duration of a computation are exactly those of the inputs and of the clock.",
 ["histories", "inputs"], "all histories of conditions, orders, selections, numbers of inputs and dates, for the three types of values of switches",
 "An event depends on the whole history of its condition and of failures; the inputs of a switch are created and destroyed while it runs. No test covers them.",
 ["src/tools/event.cpp", "include/sot/core/event.hh", "include/sot/core/latch.hh", "src/tools/latch.cpp", "include/sot/core/switch.hh", "src/tools/switch.cpp", "include/sot/core/variadic-op.hh", "src/tools/binary-int-to-uint.cpp", "src/tools/time-stamp.cpp", "include/sot/core/timer.hh", "src/tools/timer.cpp"],
 [("lastVal_, timeSinceUp_", "last condition and how long it holds", "include/sot/core/event.hh"), ("signalOutput", "state of a latch", "include/sot/core/latch.hh"), ("signalsIN", "inputs of a switch", "include/sot/core/variadic-op.hh")],
 [("check", "src/tools/event.cpp"), ("signal", "include/sot/core/switch.hh"), ("setSignalNumber", "include/sot/core/variadic-op.hh"), ("compute", "include/sot/core/timer.hh")],
 ["signals check, out, sout, time, timer", "signals recomputed", "commands list, getSignalNumber"],
 "The system clock is replaced by one that the specification drives. The synchronized dates of the time stamp have no input that would refresh them, and are left out.")
prop("C14", "A mailbox never blocks, tears, loses or reorders messages",
 "Reading a mailbox gives the last message whose posting is complete, whole and with its own date, or, while another is being posted, the message read before: never an older one, and never by waiting. A message posted while the reader was refused is given by the next reading, and the mailbox tells that it has been updated exactly from the end of a posting to the reading of its message. Messages posted together are made available one after the other.",
 ["schedules", "histories"], "all interleavings of posts stopped half-way, queued posts and readings of the message, its content or its date",
 "The older message is only seen when a reading falls within a post, a window of some nanoseconds. The test of the mailbox posts and reads in turn.",
 ["include/sot/core/mailbox.hxx", "include/sot/core/mailbox.hh", "src/tools/mailbox-vector.cpp"],
 [("mainObject, mainTimeStamp, update", "the message", "include/sot/core/mailbox.hh"), ("mainObjectMutex", "protects the message", "include/sot/core/mailbox.hh")],
 [("post", "include/sot/core/mailbox.hxx"), ("get, getObject, getTimestamp, hasBeenUpdated", "include/sot/core/mailbox.hxx")],
 ["signals sout, object, timestamp", "hasBeenUpdated"],
 "The thread that posts is stopped where it asks for the date, by a clock of the harness. The signals come from the stand-in of dynamic-graph, which keeps its two buffers.")
