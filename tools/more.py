H = "numerous/engine/simulation/"
X = S + "external_mappings/"

prop("C05", "Connectors and bindings are equivalent to direct mappings",
     "A system wired through connectors (one-way, two-way, multi-way and custom bindings) computes exactly what the same system "
     "computes when every wire is written as a direct mapping between the bound items. This holds whatever the order of binding, "
     "registration and mapping, and for every direction, namespace and level of the hierarchy at which the bound items live.",
     ["configurations", "inputs"], "all connector classes with wires in both directions, all ways of binding them, all systems",
     "Tests bind two or three fixed connector classes; the resolution of binding variables depends on registration order, "
     "namespaces and hierarchy.",
     [S + "connector.py", S + "connector_item.py", S + "binding.py", S + "namespace.py", "numerous/engine/variables.py",
      S + "subsystem.py", M + "model.py"],
     [("binding variables", S + "binding.py:Binding"), ("bind", S + "connector.py:Connector.bind"),
      ("resolution", "numerous/engine/variables.py:MappedValue")],
     "random wiring programs against the directly mapped reference model (Hypothesis, shrinking)",
     "exploration; the bound items have the variables which the connector names",
     observe=["read_variables after an evaluation"])

prop("C07", "Every history row is the system at that row's time and state",
     "Running a simulation stores one row for every requested time and in each row every variable has the value which the "
     "equations and mappings give it at the time and the states of that row. The first row has the initial values, and parameters "
     "nothing assigns keep theirs. This holds for every solver, step limit, start time and grid, also when values are NaN.",
     ["programs", "inputs", "histories"], "all systems, grids, solvers and solver options",
     "Tests compare a few final values; stale variables in rows show only for combinations of solver stages and storage.",
     [H + "simulation.py", H + "solver_interface.py", M + "compiled_model.py", "numerous/utils/historian.py", M + "model.py"],
     [("solver loop", H + "simulation.py:Simulation.solve"), ("row storage", M + "compiled_model.py:historian_update"),
      ("history frame", M + "model.py:create_historian_df")],
     "random systems, grids and solvers; each row recomputed by the reference model (Hypothesis)",
     "exploration; accuracy of the integration itself is C06",
     observe=["model.historian_df"])

prop("C08", "External data is what the model sees at every time",
     "At every stored time, every variable with external data has the value of its column at that time: linear interpolation or the "
     "last value at or before it, with the time multiplier and start index applied. All other parameters keep their values and all "
     "computed variables follow. This holds on each simulation of a model, whoever owns the mapping.",
     ["inputs", "configurations", "histories"], "all data frames, column kinds, mappings, owners, grids and solvers",
     "Tests use two or three fixed frames; zero data, constants, column-name overlaps, offsets and repeated runs are untested.",
     [X + "external_mappings.py", X + "interpolation_type.py", M + "model.py", 
      M + "compiled_model.py", "numerous/utils/data_loader.py", S + "subsystem.py"],
     [("interpolation data", X + "external_mappings.py:ExternalMapping"),
      ("writing the values", M + "compiled_model.py:map_external_data")],
     "random data frames against an interpolation oracle on every history row (Hypothesis)",
     "exploration; data frames of one model cover the same range with the same number of rows (engine limitation)",
     observe=["model.historian_df"])

prop("C09", "Reading external data in chunks changes nothing",
     "A simulation whose external data is read from a CSV file in chunks gives the same history as one with the whole data in "
     "memory, for every chunk size, number of rows, time multiplier, column order, start time, and number of data files. "
     "A second simulation of the same model gives it again.",
     ["inputs", "histories", "configurations"], "all chunk sizes and data files, grids and repeated runs",
     "Tests have one file and one chunk size; errors are at chunk boundaries, which move with sizes, multipliers and steps.",
     ["numerous/utils/data_loader.py", X + "external_mappings.py", M + "compiled_model.py",
      H + "simulation.py"],
     [("chunk reader", "numerous/utils/data_loader.py:CSVDataLoader"),
      ("next chunk", X + "external_mappings.py:load_new_external_data_batch")],
     "differential generation: chunked file versus in-memory data versus interpolation oracle (Hypothesis)",
     "exploration; explicit solvers only (the BDF solver of the external package cannot resume at a grid point)",
     observe=["model.historian_df"])

prop("C10", "State events happen exactly at their crossings, once each",
     "In a simulation, an event whose condition is a function of the system runs its action once at each crossing of zero in its "
     "direction, at the crossing's time, and at no other time. The action sees the variables of that time and state; its changes to "
     "variables and states hold from then on, in the stored rows and in the motion. This holds whatever the number, order, owners "
     "and kind (compiled or external) of the events.",
     ["programs", "histories", "configurations"], "all systems, conditions, actions, directions, owners and solver steps",
     "Tests have one bouncing ball; the index arithmetic between events, states, items and closures only shows in combinations.",
     [M + "events.py", M + "model.py", H + "solver_interface.py", "numerous/engine/numerous_event.py",
      S + "item.py", M + "compiled_model.py"],
     [("event functions", M + "events.py:generate_event_condition_ast"),
      ("actions", M + "events.py:generate_event_action_ast"),
      ("handler", H + "solver_interface.py:NumerousEngineEventHandler")],
     "random event programs against an exact event-driven reference model (Hypothesis, shrinking)",
     "exploration; crossings are separated by more than a step, as the external solver package locates one per step",
     observe=["calls of external actions", "model.historian_df"])

prop("C11", "Time events happen at each of their times, once each",
     "In a simulation, an event with timestamps or a period runs its action once at each of these times within the simulation, in "
     "order, and at no other time. The action sees the variables of that time and its changes hold from then on. This holds for "
     "lists and arrays of times, any number of events with any keys on any item or the model, compiled or external, and together "
     "with state events.",
     ["programs", "histories", "configurations"], "all systems, timestamps, periods, actions, owners, grids and solvers",
     "Tests have two fixed events; which event is due is decided by arithmetic on times, chunks of history and indices.",
     [M + "events.py", M + "model.py", H + "solver_interface.py", "numerous/engine/numerous_event.py",
      S + "item.py", "numerous/utils/historian.py", H + "simulation.py"],
     [("due events", H + "solver_interface.py:NumerousEngineEventHandler"),
      ("actions", M + "events.py:generate_event_action_ast")],
     "random event programs against an exact event-driven reference model (Hypothesis, shrinking)",
     "exploration; times are exactly representable and simulations start at zero for periodic events (solver package limits)",
     observe=["calls of external actions", "model.historian_df"])

prop("C06", "The stored motion is the solution of the system's equations",
     "The states stored by a simulation with tight tolerances equal, within the accuracy asked for, the solution of the differential "
     "equations which the system's items and mappings state, at every requested time. This holds for any coupling of items "
     "through mappings and computed variables, any number of states, order of declaration, solver, start time and grid.",
     ["programs", "inputs", "histories"], "all smooth systems, grids, start times and variable-step solvers",
     "Tests compare a few systems at a few points; the wiring of derivatives to states is a permutation chosen anew for each system.",
     [M + "model.py", M + "compiled_model.py", H + "simulation.py", H + "solver_interface.py", M + "lowering/equations_generator.py"],
     [("state and derivative order", M + "lowering/equations_generator.py:EquationGenerator"),
      ("right-hand side", H + "solver_interface.py:NumerousEngineModelInterface"),
      ("solver loop", H + "simulation.py:Simulation.solve")],
     "random smooth systems integrated independently (scipy, order 8) from the reference model (Hypothesis)",
     "exploration; smooth right-hand sides of bounded growth, tolerances 1e-8",
     observe=["model.historian_df"])

prop("C12", "Event conditions and actions compute what their Python source says",
     "For every condition and action function of an event in the supported statements, calling its compiled form with values of the "
     "variables gives the value, and writes the variables, that running its Python source with these values gives, and changes "
     "nothing else. This holds for locals, conditionals, loops, closures, functions and paths given as literals, local constants "
     "or built from a closure prefix, for owners at any level, and for any number of events.",
     ["programs", "inputs"], "all condition and action functions, owners, closures and values",
     "Tests have a few actions of two lines each; the functions are rewritten from source, so unforeseen statements are mistranslated.",
     [M + "events.py", M + "model.py", M + "ast_parser/parser_ast.py", "numerous/engine/numerous_event.py"],
     [("condition", M + "events.py:generate_event_condition_ast"), ("action", M + "events.py:generate_event_action_ast"),
      ("path to index", M + "events.py:_replace_path_strings"), ("closures", M + "events.py:_bind_closure_variables")],
     "random event function generation against Python's own evaluation of the source (Hypothesis, shrinking)",
     "exploration; trusts Python's evaluation; paths are literals, local constants, or a closure prefix plus a literal",
     observe=["compiled condition and action functions"])

prop("C13", "A model can be simulated again and gives the same history as a new one",
     "Running a simulation of a model again, after a reset or as a new simulation with another grid or solver, gives the history which "
     "a newly built model gives on that run, whatever ran before. This includes states, parameters, external data, periodic and "
     "timestamp events, and the number of rows.",
     ["histories", "configurations"], "all sequences of simulations and resets of a model, over all systems, data and events",
     "Tests reset two models once; what a run leaves behind (data position, event times, stored values) shows only in later runs.",
     [M + "compiled_model.py", H + "simulation.py", H + "solver_interface.py", M + "model.py", "numerous/utils/historian.py"],
     [("reset", H + "simulation.py:Simulation.reset"), ("initial state", M + "compiled_model.py:reset"),
      ("event times", H + "solver_interface.py:NumerousEngineEventHandler")],
     "random histories of simulations, differential against newly built models (Hypothesis, shrinking)",
     "exploration; two to four runs of one model",
     observe=["model.historian_df"])

prop("C14", "Models do not influence each other",
     "Building, evaluating, changing or simulating one model never changes what another model computes. This holds for any number of "
     "models in one process and any interleaving, for models of the same classes, tags or the very same system, and of either backend.",
     ["histories", "programs", "schedules"], "all interleavings of building, evaluating, changing and simulating several models",
     "Tests run one model each; the code generators keep state in classes and modules, which only shows with several models.",
     [M + "model.py", M + "lowering/equations_generator.py", M + "lowering/ast_builder.py", M + "lowering/llvm_builder.py",
      M + "events.py", M + "ast_parser/parser_ast.py", M + "compiled_model.py"],
     [("kernel functions", M + "lowering/ast_builder.py:ASTBuilder.generate"),
      ("equation registry", M + "ast_parser/parser_ast.py:parse_eq")],
     "stateful random interleavings of several models against one reference per model (Hypothesis)",
     "exploration; two or three models; sequential interleavings only",
     observe=["read_variables after an evaluation", "model.historian_df"])

prop("C15", "Stepping follows the equations with the parameters of each step",
     "A simulation driven by step_solve advances, over each step, exactly as the system's equations say with the parameter values "
     "in force during that step, whatever the step sizes and whichever parameters were changed between steps. Each stored row is "
     "consistent with its time and states and external data.",
     ["histories", "inputs"], "all sequences of steps and parameter changes, systems, step sizes and external data",
     "One test makes equal steps of one system; changing parameters and step sizes between steps is what stepping is for.",
     [H + "simulation.py", H + "solver_interface.py", M + "compiled_model.py", M + "model.py"],
     [("step", H + "simulation.py:Simulation.step_solve"), ("row storage", M + "compiled_model.py:historian_update")],
     "random step programs against independent integration of each step and the reference model (Hypothesis)",
     "exploration; without events",
     observe=["model.historian_df", "return values of step_solve"])

prop("C16", "Variables read back what was written, by every way of access",
     "Values written to variables (through items, by path in bulk, by index, as states) are what every way of reading returns, until "
     "an evaluation assigns them; an evaluation changes only what equations and mappings assign. Pushing and pulling copies all values "
     "between items and kernel, a reset restores the initial values, and values which are no numbers are refused. States come in one "
     "order everywhere.",
     ["histories", "inputs"], "all sequences of writes, evaluations, copies and resets on all systems, both backends",
     "Tests set and read single variables; the same value lives in items, aliases and the kernel and must be found by every path.",
     [M + "model.py", "numerous/engine/variables.py", M + "compiled_model.py", M + "lowering/ast_builder.py",
      M + "lowering/llvm_builder.py"],
     [("bulk access", M + "model.py:Model.set_variables"), ("value setter", "numerous/engine/variables.py:Variable.value"),
      ("states", M + "compiled_model.py:CompiledModel.get_states")],
     "stateful random operation sequences against a model of two stores (Hypothesis, shrinking)",
     "exploration; trusts the reference evaluation of C01",
     observe=["get_variables", "Variable.value", "states_as_vector", "get_states", "get_value"])

prop("C17", "Paths and lookups follow the hierarchy, however it was put together",
     "Every variable of a model has exactly the path of its place in the hierarchy and is found by it. Looking up items by path, items "
     "by tag, variables by name or id, and ports finds exactly what the hierarchy contains, and nothing for anything else. This holds "
     "for any depth, repeated tags, sets, and any order of registering items and creating namespaces.",
     ["configurations", "histories"], "all hierarchies and all orders of putting them together",
     "Tests build two or three levels bottom-up with distinct tags; paths are extended step by step as parts are registered.",
     [S + "subsystem.py", S + "item.py", S + "item_path.py", S + "namespace.py", "numerous/engine/variables.py", M + "model.py",
      "numerous/utils/dict_wrapper.py"],
     [("path extension", S + "subsystem.py:Subsystem.update_variables_path"),
      ("path store", "numerous/engine/variables.py:VariablePath.extend_path"),
      ("lookup", S + "subsystem.py:Subsystem.get_item")],
     "random hierarchies and construction orders against the hierarchy itself (Hypothesis, shrinking)",
     "exploration; tags contain no dots",
     observe=["Model.path_to_variable", "get_item", "search_items", "find_variable", "get_variable_path"])

prop("C18", "An equation is computed as it is written, or refused",
     "A model is never built from an equation which it would compute differently from the Python function the user wrote: for any "
     "statements and expressions of Python (branches, loops, returns, chained and tuple assignments, keyword arguments, boolean "
     "operators, comprehensions, ...) the equation either has the values of the function, or building the model fails.",
     ["programs", "inputs"], "all equation functions over floats, both backends",
     "Tests hold equations which are supported; what happens to all others is not an example but the rest of the language.",
     [M + "ast_parser/ast_visitor.py", M + "ast_parser/equation_from_graph.py", M + "ast_parser/parser_ast.py",
      M + "graph_representation/graph.py"],
     [("statements", M + "ast_parser/ast_visitor.py:AstVisitor"),
      ("conditions", M + "ast_parser/equation_from_graph.py:function_body_from_graph")],
     "random programs from the whole language, differential against Python (Hypothesis, shrinking)",
     "exploration; an assert statement in an equation is not checked; refusal is any exception",
     observe=["Model()", "read_variables after an evaluation"])

prop("C19", "However equations and variables are declared, they mean the same",
     "Equations declared as methods, made from source text or added as functions, variables declared one by one or by dictionaries "
     "and lists, and integrals of parameters mean the same: every variable and derivative has the value the equations' source gives. "
     "Instances, classes and models in one process which use the same names for different sources do not affect each other.",
     ["configurations", "programs"], "all systems, all mixes of forms of declaration, several models per process",
     "Tests declare nearly everything as decorated methods with one instance per class; sources are found by name, file and line, and "
     "kept by identifiers.",
     ["numerous/multiphysics/equation_base.py", "numerous/multiphysics/equation_decorators.py", M + "ast_parser/parser_ast.py",
      S + "namespace.py"],
     [("equations from text", "numerous/multiphysics/equation_decorators.py:InlineEquation"),
      ("integrals", "numerous/multiphysics/equation_base.py:EquationBase.add_parameter"),
      ("parsing", M + "ast_parser/parser_ast.py:parse_eq")],
     "random systems and forms of declaration against a reference interpreter (Hypothesis, shrinking)",
     "exploration; equations from text do not use functions of self",
     observe=["read_variables after an evaluation", "Model.get_variables"])

prop("C20", "The log level decides what is recorded and nothing else",
     "For every system, log levels of its variables and log level of the model, the history has exactly the variables whose level is "
     "at least that of the model, with the values they have when everything is recorded; the model itself computes the same.",
     ["configurations"], "all assignments of levels to variables of all systems, all levels of the model",
     "Tests use one system with three variables; levels have to survive sets, derivatives, mappings and several equations.",
     [M + "model.py", "numerous/engine/variables.py", "numerous/utils/logger_levels.py", "numerous/multiphysics/equation_base.py"],
     [("selection of recorded variables", M + "model.py:Model._assembly_tail"),
      ("history", M + "model.py:Model.create_historian_dict")],
     "random systems and levels, metamorphic relation to the full recording (Hypothesis, shrinking)",
     "exploration; the full recording is decided by C07",
     observe=["Model.historian_df", "Model.logged_variables"])

prop("C21", "A history stored in parts is the whole history",
     "With a historian of any size, which stores parts of the history in a file whenever it is full, the table of the model and the "
     "file have exactly the rows a historian in memory has, in order and each once, also with events, external data read in "
     "chunks, and simulations repeated on the same model.",
     ["histories", "configurations"], "all systems, sizes of the historian, grids and repetitions",
     "Tests do not store in files; rows are lost or doubled only where a full buffer coincides with events, data chunks or the end.",
     ["numerous/utils/historian.py", M + "model.py", M + "compiled_model.py", "numerous/engine/simulation/solver_interface.py"],
     [("full buffer", M + "compiled_model.py:CompiledModel.is_store_required"),
      ("store", M + "model.py:Model.create_historian_df"),
      ("break of the solver", "numerous/engine/simulation/solver_interface.py:NumerousEngineModelInterface.post_step")],
     "random simulations, metamorphic relation between sizes of the historian (Hypothesis, shrinking)",
     "exploration; events are internal and of one kind, the solver package cannot always go on after a break near others",
     observe=["Model.historian_df", "the file of LocalHistorian"])

prop("C22", "Tables of one data array are interpolated, each by itself",
     "A value looked up in any of several tables, which lie one after another in one data array, is that of piecewise bilinear "
     "interpolation of that table, on grid points, grid lines, borders and between, and outside of the table that of the nearest point.",
     ["inputs"], "all tables (size, position and spacing per axis, values), numbers of tables, points",
     "The repository has no test of it; wrong corners show on grid lines and borders only, wrong tables with several of them only.",
     ["numerous/utils/interpolation/bilinear_interpolation.py"],
     [("interpolation", "numerous/utils/interpolation/bilinear_interpolation.py:bilinear_interpolation")],
     "random tables and points, differential against numpy.interp along both axes (Hypothesis, shrinking)",
     "exploration; equidistant axes only (the function has no others)",
     observe=["bilinear_interpolation"])

prop("C23", "FMUs move as their own equations say, whatever else is in the system",
     "A subsystem made of an FMU has the trajectory of the FMU's equations for its start values, each FMU and each use of it for itself, "
     "at any level of the system, with other FMUs, events of FMUs and items which read their variables, however often it is simulated.",
     ["configurations", "histories"], "all combinations and start values of FMUs, places in the hierarchy, readers, time grids",
     "Tests simulate each FMU alone with one set of start values; shared functions, buffers and events show with several only.",
     ["numerous/engine/system/fmu_subsystem.py", "numerous/engine/system/fmu_system_generator/", M + "model.py"],
     [("equation and events", "numerous/engine/system/fmu_subsystem.py:FMU_Subsystem"),
      ("generated functions", "numerous/engine/system/fmu_system_generator/fmu_ast_generator.py")],
     "random systems of FMUs, compared with closed forms and an independent integration (Hypothesis, shrinking)",
     "exploration over the three FMUs of the repository which work; no two hits of the same wall in a row, no event in the first 0.08 s",
     observe=["Model.historian_df"])

prop("C25", "Clones and exported models do what the original does, each for itself",
     "A clone of a model, a clone of a clone, and a model loaded from its exported file have the history which the original has under "
     "the same simulations, resets and writes, with global variables, external data and events; and nothing done with one of them changes "
     "what another one does.",
     ["histories", "configurations"], "all systems, programs of cloning, loading, writing, resetting and simulating",
     "Tests clone one system once and compare one history; shared state shows in the interleaving only.",
     [M + "model.py", M + "compiled_model.py", "numerous/utils/dict_wrapper.py"],
     [("clone", M + "model.py:Model.clone"), ("export", M + "model.py:Model.__init__"),
      ("load", M + "model.py:Model.from_file")],
     "random programs over several models, differential against newly built models each given its own steps (Hypothesis, shrinking)",
     "exploration; tolerance 1e-3 (the two backends round differently), events added after an export are not in the file",
     observe=["Model.historian_df", "Model.clone", "Model.from_file"])

prop("C27", "What has no meaning is refused",
     "A mistake in the description or use of a system is refused with an error, at once or when the model is assembled, and never ignored: "
     "names used twice, variables, items, bindings, columns or paths which do not exist, mappings onto the variable itself, conflicting "
     "mappings or bindings, unknown solver methods, values which are no numbers, external data which ends before the simulation, algebraic "
     "loops. A system for which a step was refused at once is what it was before.",
     ["inputs", "configurations"], "all systems, places in them, and the listed kinds of mistakes",
     "Tests have one instance of few of them; whether a mistake is noticed depends on where in which system it is made.",
     [M + "model.py", "numerous/engine/system/", "numerous/engine/variables.py", M + "graph_representation/graph.py"],
     [("registration", "numerous/engine/system/subsystem.py:Subsystem.register_item"),
      ("binding", "numerous/engine/system/connector_item.py:ConnectorItem.bind"),
      ("mapping", "numerous/engine/variables.py:Variable.add_mapping")],
     "generated systems with one mistake at a generated place; an error must be raised and the system otherwise be unchanged (Hypothesis, shrinking)",
     "exploration of 29 kinds of mistakes; algebraic loops are an open finding",
     observe=["errors raised by Item, Subsystem, Connector, Model, Simulation"])
