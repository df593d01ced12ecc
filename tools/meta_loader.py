from meta import prop
prop("C17", "The loader runs the chosen controller, and ends it once",
 "The library given last, by option or by name, is the one loaded; a library that cannot provide a controller is refused and not kept. A period reaches the controller only while running: sensors first, then the control, and its exceptions come back as they were thrown. Ending, by a call or with the loader, destroys each entity of the graph and then the controller exactly once, spares the device given to it, and unloads the library.",
 ["histories", "inputs", "fault_sequences"], "all sequences of options, loads, starts, stops, periods, exceptions, device declarations and ends",
 "Who destroys what depends on the whole history of the loader; the test of the loader is not built here, and it checks one history per function.",
 ["src/tools/sot-loader.cpp", "include/sot/core/sot-loader.hh"],
 [("sot_dynamic_library_, sot_external_interface_", "library and controller", "include/sot/core/sot-loader.hh"), ("device_name_", "device spared", "include/sot/core/sot-loader.hh"), ("dynamic_graph_stopped_", "running or not", "include/sot/core/sot-loader.hh")],
 [("parseOptions, initialization, cleanUp, oneIteration, loadDeviceInPython", "src/tools/sot-loader.cpp"), ("startDG, stopDG, runPythonCommand, runPythonFile", "include/sot/core/sot-loader.hh")],
 ["calls received by the controller", "destructions", "loaded libraries", "commands handed to the interpreter and their effect in Python"],
 "The interpreter is a stand-in that records; what it was asked to run is run in a real Python. A period is run only with a controller loaded, a second load only after an end; a library without a destroy function is left out, as are positional words on the command line.")
