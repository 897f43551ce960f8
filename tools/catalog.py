"""Texts of the properties (source of properties.jsonl and of the checks in MANIFEST.json)."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  note=note))


W, S, IT, IN, SH, M, PP, D = ("pyDeltaRCM/water_tools.py", "pyDeltaRCM/sed_tools.py", "pyDeltaRCM/iteration_tools.py",
                              "pyDeltaRCM/init_tools.py", "pyDeltaRCM/shared_tools.py", "pyDeltaRCM/model.py",
                              "pyDeltaRCM/preprocessor.py", "pyDeltaRCM/debug_tools.py")

prop("C01", "Water routing weights form a probability distribution over admissible cells",
     "For every wet or dry cell, the nine water routing weights are non-negative, sum to one, give nothing to the cell "
     "itself and nothing to land neighbours. Where surface slope or inertia leads somewhere, the weights are "
     "proportional to the partition-coefficient blend of the two normalised terms (computed from the cell's own "
     "edge-replicated neighbourhood) times depth to the configured power times the weight modifier; otherwise all wet "
     "neighbours (or, with none wet, all non-land neighbours inside the grid) are equally likely.",
     ["inputs"], "every neighbourhood of depths, stages, discharges, cell types and weight modifiers, every partition "
     "coefficient in [0,1]", "The tests evaluate a few fixed neighbourhoods; the weights are a nonlinear function of "
     "some forty continuous inputs with degenerate branches (no slope, no flow, everything dry).",
     [W, SH], "weight array construction per cell and for the whole grid")
prop("C02", "A sediment parcel steps to an admissible neighbour chosen by flow and depth",
     "For every cell a sediment parcel can occupy, the probabilities of its next step are non-negative, sum to one, and "
     "give nothing to staying in place, to land, or to positions outside the grid. They are proportional to inertial "
     "flow times depth to the configured power times the weight modifier among wet neighbours; where no wet flow leads "
     "anywhere, every non-land neighbour is reachable with probability falling off with its distance. A step always "
     "leads to one of the eight neighbours that the probabilities allow.",
     ["inputs", "schedules"], "every neighbourhood of depth, discharge and cell type, first row and elsewhere, every "
     "random draw", "Tests use fixed neighbourhoods and seeds; the property is about all of them and all draws.",
     [S, SH], "per-parcel weight computation and random step of the sand and mud routers")
prop("C03", "Water parcels walk connected, land-free paths from the inlet",
     "Every water parcel starts in an inlet cell of the first row and moves one cell per step to one of the eight "
     "neighbours to which the routing weights of its current cell give positive weight, never into land. It stops at "
     "the open boundary or at the step limit, never moves again once stopped, and stays qualified for building the "
     "water surface unless it loops.",
     ["inputs", "schedules"], "every sequence of random draws and surface layout within the bounds",
     "A test follows one seeded walk; the property quantifies over every walk.",
     [W, SH], "parcel iteration loop and its flat-index arithmetic")
prop("C04", "Every parcel passage is booked once into the discharge and direction sums",
     "Routing water adds, for every cell a parcel enters, half of that parcel's share of the inlet discharge on "
     "entering and half on leaving, and adds the unit vector of the step to the direction sums of the cell it leaves "
     "and the cell it enters. Nothing else contributes, so the sums are exactly determined by the walks.",
     ["inputs", "schedules"], "every set of walks within the bounds", "Tests compare a few cells of a seeded run.",
     [W], "accumulation of discharge and direction while parcels are iterated")
prop("C05", "A looping parcel is relocated downstream and barred from the surface update",
     "A water parcel that returns to a cell it already visited is moved five cells on along its mean direction from the "
     "inlet, to a cell inside the basin; if the surface at the returned-to cell is above sea level it no longer counts "
     "towards the water surface, otherwise it still does. A parcel that reaches a cell it has not visited keeps its "
     "step and its standing.",
     ["inputs", "histories"], "every proposed cell and walk history within the bounds", "Tests relocate one parcel "
     "once; histories and positions are combinatorial.",
     [W, SH], "loop check of the free-surface walks")
prop("C06", "The water surface is never below sea level or bed; depth is never negative",
     "A newly built water surface lies nowhere below sea level and nowhere below the bed; cells that qualified walks "
     "crossed take the mean of the elevations these walks expect, other cells keep their surface. After a water "
     "iteration the stage is nowhere below sea level, the depth equals stage minus bed but is never negative, and the "
     "bed is unchanged.",
     ["inputs"], "every bed, depth, sea level and set of recorded walks within the bounds",
     "Tests check fixed arrays; the guarantee must hold for any state the model reaches.",
     [W], "free surface construction and finalisation of a water iteration")
prop("C07", "Surface smoothing averages non-land neighbours and under-relaxes the stage",
     "Each smoothing pass moves a cell's water surface towards the mean of its non-land neighbours by the configured "
     "fraction, leaves open-boundary cells alone, keeps a level surface level and creates no new extremes. The new "
     "stage is the under-relaxed mix of old stage and smoothed surface, except that the very first step keeps the old "
     "stage.",
     ["inputs", "configurations"], "every surface, cell layout, smoothing coefficient and relaxation factor",
     "Tests smooth one array with one coefficient.", [W], "smoothing of the free surface and stage under-relaxation")
prop("C08", "Dry cells are flooded only from higher wet neighbours",
     "After the flooding correction, a dry cell whose bed lies below the water surface of a wet neighbour has the "
     "highest such neighbour's surface; every other cell keeps its surface. Bed and depth are untouched, and cells "
     "outside the grid never act as neighbours.",
     ["inputs"], "every bed, stage and wet/dry pattern within the bounds", "Tests use one pattern.",
     [W], "flooding correction after each water iteration")
prop("C09", "Discharge and velocity fields are consistent and bounded",
     "After each water iteration a cell's new discharge has the magnitude routed through it and the mean direction of "
     "the parcels that crossed it (zero where they had no direction), is blended with the old discharge by the "
     "configured under-relaxation (not in the first time step), and its magnitude is that of its components; inlet "
     "cells keep the prescribed discharge. Velocity is discharge over depth along the discharge direction, zero in dry "
     "cells or without discharge, never negative and never above the velocity cap.",
     ["inputs", "configurations"], "every accumulated sum, old field, depth and relaxation factor",
     "Tests check selected cells of fixed arrays.", [W], "update of flow and velocity fields")
prop("C10", "Only completed loop-free walks build the water surface, once per cell",
     "Every completed, loop-free walk contributes once per crossed cell (before its end) to the surface average of that "
     "cell; walks that did not reach the boundary or looped contribute nothing. The elevation a walk expects is sea "
     "level until its shoreline and rises upstream of it by the reference slope times path length travelled along the "
     "local flow.",
     ["inputs", "histories"], "every combination of walk outcomes and flow field within the bounds",
     "Tests use one or two fixed walks.", [W], "accumulation of expected surface elevations along walks")
prop("C11", "Sediment routing conserves volume exactly",
     "For every parcel, the volume it was given equals the volume the bed gained under it (deposition minus erosion, "
     "cell area times elevation change) plus the volume it still carries when it stops, and it never carries a negative "
     "volume. The recorded deposits equal what deposition added to the bed cell by cell.",
     ["inputs", "schedules"], "every bed, flow field, parcel volume and random walk within the bounds",
     "Tests cannot enumerate deposits and erosions along all walks; rounding-sized leaks hide in tolerances.",
     [S], "sand and mud routers' exchange with the bed",
     )
prop("C12", "One sediment exchange is limited by water depth and carried volume",
     "A single exchange between a parcel and the bed changes the bed by at most a quarter of the local water depth, "
     "deposits no more than the parcel carries, never buries the water surface, and deposits nothing where the bed "
     "stands above the water; cells a parcel does not reach keep their bed.",
     ["inputs"], "every bed, stage, velocity, flux and volume within the bounds", "Tests sample a handful of states.",
     [S], "limiters of deposition and erosion")
prop("C13", "Sand settles above transport capacity and erodes below it in fast flow",
     "A sand parcel deposits (its volume, at most a quarter of the water column) where the sand flux exceeds the "
     "transport capacity set by velocity to the configured power; below capacity, flow faster than the critical "
     "velocity erodes the documented volume scaled by the erosion modifier in force, and slower flow leaves the bed alone. "
     "Only deposition is recorded as sand deposit; mud deposits are untouched.",
     ["inputs", "configurations"], "every velocity, flux, depth, modifier and volume within the bounds",
     "Tests pin a few points of a piecewise nonlinear law.", [S], "sand router deposition and erosion")
prop("C14", "Mud settles in slow flow and is eroded by fast flow",
     "A mud parcel deposits the documented share of its volume (set by lag and velocity, at most a quarter of the "
     "water column) below the critical deposition velocity, erodes the documented volume scaled by the erosion modifier in force "
     "above the critical erosion velocity, and leaves the bed alone in between. Only deposition is recorded as mud "
     "deposit; sand deposits and sand flux are untouched.",
     ["inputs", "configurations"], "every velocity, depth, lag, modifier and volume within the bounds",
     "Tests pin a few points of a piecewise nonlinear law.", [S], "mud router deposition and erosion")
prop("C15", "Flow follows the bed while sediment is routed",
     "After every sediment exchange, the cell's depth is its stage minus its new bed and never negative, its velocity "
     "is its discharge over that depth capped at the maximum velocity (unchanged where no water is left), and the "
     "velocity components follow the discharge direction. Stage, discharge and all cells not reached are unchanged.",
     ["inputs"], "every bed, stage, velocity and discharge within the bounds", "Tests sample a handful of states.",
     [S], "local update of depth and velocity fields by the sediment routers")
prop("C16", "Sand flux counts half the carried volume on entering and leaving each cell",
     "The sand flux field of a time step starts at zero and receives, for every cell a sand parcel visits, half of the "
     "volume carried on arrival and half of the volume carried on leaving, divided by time step and cell width; the "
     "inlet cell receives half on entry and half on leaving. Cells off the walk receive nothing, and deposits also "
     "start every time step at zero.",
     ["inputs", "schedules"], "every walk, bed and flow within the bounds", "Tests check one cell of one walk.",
     [S], "sediment flux accumulation")
prop("C17", "Topographic diffusion moves bed along sand-flux-weighted slopes only",
     "Diffusion changes a basin cell's bed, in each of its at least one passes, by the configured strength times the "
     "pass's share of the time step times the sum over its eight neighbours of elevation difference times mean sand "
     "flux. Without sand flux nothing moves, land and the first row keep their bed, and the sand flux itself is "
     "untouched.",
     ["inputs", "configurations"], "every bed, sand flux and diffusion strength within the bounds",
     "Tests diffuse one bump.", [S], "topographic diffusion after sand routing")
prop("C18", "Bed composition is a fraction and follows deposits and exposure",
     "At the end of a time step the sand fraction of a cell that received deposits is the sand share of the deposited "
     "volume (and the active layer takes it over); a cell eroded within the active layer shows the active layer, deeper "
     "erosion shows the basin's configured sand fraction, and undisturbed cells keep theirs. The fraction always lies "
     "between zero and one.",
     ["inputs"], "every old and new bed, deposit and composition within the bounds", "Tests use single cells with one "
     "outcome each.", [S, IT], "sand fraction update")
prop("C19", "Subsidence lowers the basin at the configured rate from its start time",
     "Without subsidence nothing sinks. With it, once model time has reached the start time every time step lowers the "
     "bed of all cells beyond the inlet length by rate times time step (also when the time step has been changed), the "
     "rows of the inlet never sink, and nothing sinks before. The water surface is untouched by subsidence.",
     ["inputs", "configurations"], "every bed, rate, time, start time and time step within the bounds",
     "Tests step one configuration.", [IT, IN], "subsidence field and its application")
prop("C20", "Each time step ends with boundary conditions and sea level enforced",
     "Finalising a time step leaves no stage below the sea level of the step, depth equal to stage minus bed and never "
     "negative, and inlet cells with the channel depth below their water surface; elsewhere the bed is unchanged. Sea "
     "level then rises by its rate times the time step.",
     ["inputs", "configurations"], "every bed, stage, sea level, rate and time step within the bounds",
     "Tests check one configuration after one step.", [IT, W], "end of time step clean-up and sea level rise")
prop("C25", "Parameters outside their documented range are refused, others kept exactly",
     "Domain length and width, cell size, inlet width, parcel numbers must be positive, the cell size not larger than "
     "the domain, inlet length, iteration number, active layer thickness, concentration and smoothing coefficient not "
     "negative, bedload fraction in [0,1] and intermittency in (0,1]: a value outside is refused with a value error and "
     "not taken, whether configured or set later. Every accepted value, and every value of a parameter without a range, "
     "reads back unchanged. Unset active layer thickness is half the channel depth, unset checkpoint interval the "
     "output interval.",
     ["inputs", "configurations"], "every value of every numeric parameter", "Tests try one bad and one good value.",
     ["pyDeltaRCM/hook_tools.py", IN, M], "parameter setters and their use while processing the input file")
prop("C26", "Derived discharges, parcel volumes and thresholds match the configuration",
     "Inlet width and length are the nearest whole cell numbers (at least three and one, at most a quarter of the domain). "
     "Inlet discharge is velocity times depth times inlet width; water parcels together carry it and sediment "
     "parcels together carry the sediment discharged in a time step; the time step brings a tenth of the reference "
     "volume (depth times squared inlet width). Partition coefficient, dry depth, velocity cap, critical velocities, "
     "depth exponents, per-iteration relaxation and the default step limit follow their documented formulas; sand and "
     "mud parcel counts are the bedload and suspended share of the parcel number.",
     ["configurations"], "every combination of the parameters within their ranges", "Tests check single derived values "
     "for the default configuration.", [IN], "derived variables and boundary conditions")
prop("C33", "Grid index arithmetic is exact and rejects positions outside the grid",
     "Flat and two-dimensional cell indices convert into each other exactly in row-major order; an index or position "
     "at or beyond the end of the grid is refused. The eight step directions lead to the eight neighbours with their "
     "geometric distances, in flat and two-dimensional form alike, and padding repeats the nearest grid cell.",
     ["inputs"], "every grid shape and index within the bounds", "Tests convert a few indices of one shape.",
     [SH, IN], "index conversion, direction tables, padding")
prop("C34", "Random choices follow the given weights, draw by draw",
     "A random choice among weighted options takes the option in whose share of the cumulative weights its draw "
     "falls, never one of zero weight. Every parcel gets its own start, an inlet cell with positive weight chosen by its "
     "own draw; by default inlet cells are equally likely. Uniform draws stay within their limits.",
     ["inputs", "schedules"], "every weight vector and draw within the bounds", "Tests sample histograms.",
     [SH, W, S], "random pick and start cell selection")
prop("C35", "Conversions between model time, real time and rates are exact",
     "Model time scaled to real time is divided by the intermittency and by the seconds of the chosen unit (365.25 days "
     "to the year); intermittency outside (0,1] and unknown units are refused. A rate of sea-level rise in millimetres "
     "per year is converted into metres per second of model time with the intermittency.",
     ["inputs"], "every time, rate, intermittency and unit", "Tests convert a few numbers.",
     [SH, PP], "time and rate scaling helpers")
prop("C21", "Time advances by the step; records and checkpoints are written when due",
     "Every update advances model time by exactly the time step and the step count by one. The initial state is record 0 "
     "at time zero; after that a record is written at the end of an update exactly when at least the output interval has "
     "passed since the last one, under the next consecutive index and with the model time. Checkpoints follow the same "
     "rule with their own interval, only when switched on, and hold the time and counters of that moment.",
     ["histories", "configurations"], "every sequence of time steps and intervals within the bounds",
     "Tests use one fixed interval and step.", [M, IT], "update loop, output_data, output_checkpoint")
prop("C22", "Each record holds exactly the requested fields as they were at that time",
     "The output file holds exactly the grids switched on, each record the values the model had when it was written, "
     "with time, sea level, bedload fraction, concentration and inlet velocity recorded alongside and the domain described "
     "by its fixed metadata. Switching any grid or figure on or off affects that one alone; without anything switched on "
     "no file is made. Figures are drawn from the field they are named after, cell by cell, at every record.",
     ["inputs", "configurations", "histories"], "every field content and any order of switching two toggles",
     "Tests switch single outputs on once.", [IT, IN, M], "save lists, output file creation and record writing")
prop("C23", "A checkpoint restores everything; resumed runs continue as if uninterrupted",
     "Loading a checkpoint brings back every grid (bed, depth, stage, velocities, discharges, sand fraction, active layer), "
     "time, sea level, step and record counters, the time since the last record and the random generator's state of the "
     "moment it was saved. A run interrupted after any step (ended properly or killed) and resumed from its last checkpoint ends in the same state, "
     "with the same records, as one that was not interrupted; if the output file is missing (or the checkpoint comes from "
     "another folder) a new one is started at its first record. Nothing a checkpoint leaves out influences the next step.",
     ["crash points", "histories", "inputs"], "every state, stop and interval within the bounds",
     "Tests resume one run at one point.", [IN, IT, M, SH], "save_the_checkpoint, load_checkpoint, random state")
prop("C30", "Jobs run exactly the configured duration",
     "A job runs exactly the configured number of time steps, or the smallest number reaching the configured time, which "
     "is scaled by the intermittency (time_years by the seconds of a 365.25-day year as well), counted from the time the "
     "model starts at. Of several given durations timesteps come before time before time_years; arguments override the "
     "configuration file; without any duration the job is refused. A dry run makes no model. The same holds for serial and "
     "parallel jobs, and the model is finalised at the end.",
     ["inputs", "configurations"], "every duration, time step, intermittency and start time within the bounds",
     "Tests run a few fixed durations.", [PP], "job set-up and run loops")
prop("C31", "A failing job is logged and finalised and does not stop the others",
     "When a job's model raises a runtime or value error while stepping or finalising, the error is logged in that model's "
     "log, the model is finalised (once), and all other jobs run to their end. Parallel jobs open their output (or load "
     "their checkpoint) themselves, report every stage with its outcome, never run on more processes than configured, and "
     "free their slot whatever happens.",
     ["faults", "schedules"], "every failing job, step and exception kind within the bounds", "Tests let one job fail once.",
     [PP], "serial and parallel job runners")
prop("C36", "All randomness follows from the seed",
     "A model's seed is the configured one, or one chosen once and kept, and every random number of a run follows from it: "
     "no step draws from another generator. Each job of a multi-job run draws what it would draw alone.",
     ["inputs", "schedules"], "every seed and every path of the step functions within the bounds", "Tests compare single "
     "seeded runs.", [SH, IN, W, S, PP], "seeding and random draws")
prop("C37", "Steps and hooks of an update run once each in the documented order",
     "An update runs hook and step of water iterations (as many as configured, each told its number), sediment iteration, "
     "subsidence, finalisation, record and checkpoint exactly once each in this order, every hook immediately before its "
     "step (after-hooks immediately after); until output the time is that of the start of the step, at output the new one. "
     "A construction likewise imports files, applies the configuration, sets variables and domain, and then either loads "
     "the checkpoint or, unless output is deferred, starts the output.",
     ["configurations", "inputs"], "every iteration count and setting within the bounds", "Tests mock single hooks.",
     [M, IT, W, S], "update, route_water, route_sediment, constructor")
prop("C38", "A finalised model refuses further work and its output is complete",
     "Finalising closes the output file with all records written. Afterwards updating or finalising again is refused with "
     "a runtime error and changes neither the state nor any file.",
     ["histories", "inputs"], "every run length and state within the bounds", "Tests finalise one model.", [M],
     "update, finalize")
prop("C39", "Command-line options reach the run as the numbers and switches they denote",
     "Every option given on the command line (timesteps, time, time_years, intermittency, dry run, parallel processes) "
     "reaches the run as the number or switch it denotes and overrides the same key of the configuration file; an option "
     "that is not given leaves the file's value in force and sets nothing otherwise. The command then runs the file's jobs "
     "as the Python interface would: exactly the configured duration, nothing in a dry run, in parallel when asked to; the "
     "files of multiple jobs hold the options as numbers. An option that is not a number where it has to be one is refused.",
     ["configurations", "inputs"], "every combination of options and file entries and every value within the bounds",
     "Tests run a few fixed command lines.", [PP], "PreprocessorCLI, process_arguments, preprocessor_wrapper")
prop("C27", "The initial domain has the configured geometry, cell types and fields",
     "The grid has the nearest whole number of cells to the configured length and width. The inlet rows are land except the "
     "centred inlet channel (as many neighbouring columns as the inlet is wide, which are also the listed inlet cells); the "
     "rest is basin, with edge cells on its last row, first and last column and at least (domain reach less five cells) "
     "away from the apex. Channel cells have channel depth, basin cells basin depth (channel depth unless configured), land "
     "none; the stage falls with the configured slope along the inlet to sea level, the bed is stage less depth. The inlet "
     "discharge fills the channel and a fifth of it the basin, all downstream; velocity is discharge over depth; bed and "
     "active layer have the inlet's sand fraction; cell coordinates are multiples of the cell size; modifiers are one.",
     ["configurations"], "every depth, basin depth, velocity, slope, sand fraction and inlet size within the bounds",
     "Tests build one default domain.", [IN], "domain creation")
prop("C28", "Boundary conditions changed during a run take effect everywhere",
     "After the inlet's flow velocity, width, depth, sediment concentration (a fraction), bedload fraction, the sea level or "
     "its rate of rise is changed through the named variables, every derived quantity (discharges, parcel volumes, critical "
     "velocities, time step, diffusion, subsidence per step) and both sediment routers are those of a model configured with "
     "the new values, in any order of changes, and everything else is unchanged. A time step set by hand scales diffusion "
     "and subsidence with it and reaches both routers. The named variables read back the values in force.",
     ["histories", "inputs"], "every configuration, changed value and order of changes within the bounds",
     "Tests change one variable to one value.", [M, IN], "named variables (BMI) and boundary conditions")
prop("C24", "Configuration values: arguments over file over documented default, type checked",
     "Every parameter of the model (and every parameter a subclass declares) takes the value given as argument, else the "
     "one in the configuration file, else its documented default, unchanged and under its own name. A value of a type other "
     "than the documented ones (null, booleans for numbers, numbers for booleans included) is refused with a type error "
     "wherever it is given; null is taken where documented. A subclass cannot redefine a parameter of the model; unknown "
     "keys change nothing.",
     ["configurations", "inputs"], "every parameter, value and kind of value within the bounds", "Tests give a handful of "
     "parameters by one way.", [IN, "pyDeltaRCM/default.yml", M], "import_files, process_input_to_model")
prop("C29", "Matrix, set and ensemble configurations expand to exactly the jobs they describe",
     "A matrix yields one job for every combination of its values, a set one job per listed element in their order, an ensemble "
     "that many jobs of each, with different seeds; nothing is missing or run twice. Every job has its own folder job_NNN in "
     "the output folder and a configuration file there that holds the fixed parameters (arguments over file), its own "
     "values and its own output folder and nothing else (texts and all, also when an earlier run left a file there), and from "
     "which its model is made; the table of jobs lists each job "
     "with its values under their names. Contradictory or malformed specifications (matrix with set, a key both fixed and in "
     "the matrix, output folder or seeds of an ensemble in the matrix, nested lists, colons, differing sets, wrong types, no "
     "or an existing output folder) are refused before any job is set up; existing folders are used when resuming.",
     ["configurations", "inputs"], "every value of expanded and fixed parameters, shape and order of keys within the bounds",
     "Tests expand a few fixed files.", [PP], "construct_file_list and the expansions, written job files and table")
prop("C32", "Numbers in configuration files are read as the numbers they denote",
     "A whole number in a configuration file is read as that integer, a decimal number, with or without point and exponent, "
     "exponent sign or capital E, as that real number; a text starting with a letter is never read as a number. Model and "
     "preprocessor read files alike.",
     ["inputs"], "every text within the length bounds", "Tests read a handful of literals.", [SH, IN, PP],
     "custom_yaml_loader")
prop("C40", "Saving, logging and drawing never influence the simulation",
     "Whatever is saved, logged or drawn (any output grid, figure, metadata or checkpoint switched on or off, any output "
     "interval, any verbosity), a time step leaves the same bed, water, flow, sediment and composition fields, the same "
     "time, step count and sea level, and the random generator in the same state. Writing a record or checkpoint, "
     "drawing a figure and reporting the time change none of them.",
     ["inputs", "configurations"], "every state of all fields, switch, interval and verbosity within the bounds",
     "Tests look at what is written, never at whether writing it changed the run.", [IT, IN, M, W, S],
     "save_grids_and_figs, make_figure, save_the_checkpoint, log_info and the switches in the steps")
prop("C41", "Debug views show the named field and the cells asked for, and change nothing",
     "Showing an attribute draws exactly that field of the domain, cell by cell; what is not a two-dimensional array "
     "of the model is refused. Cells given by flat index or as a (row, column) pair, alone or in lists and arrays, are "
     "each marked once at their column and row; an index beyond the grid is refused. A line leads through its cells in order, "
     "whether given as an array or list of indices, one of several, or a column of an array, with gaps at index zero "
     "when asked for; pairs given for a line are points (x, y) of it. Every line drawn is returned, and the model is unchanged.",
     ["inputs"], "every field, index, list and line within the bounds", "Tests compare a few pictures.", [D, SH],
     "show_attribute, show_ind, show_line")
prop("C42", "The log keeps what the verbosity asks for, in the model's own folder",
     "A message is logged once when its level is at most the model's verbosity and not otherwise; warnings (as of checkpoints "
     "written at another interval than records), errors and the time of each step are logged at any verbosity, and the time is also printed exactly when the verbosity is above "
     "zero. Raising the verbosity never loses a message. A model's messages go to one log file in its own output folder. A "
     "model with a hook that no longer exists (hook_sed_route, hook_run_one_timestep) is refused before anything is written.",
     ["inputs", "configurations"], "every verbosity, level and output interval within the bounds",
     "Tests read the log of a few runs.", [IT, IN, M, "pyDeltaRCM/hook_tools.py"], "log_info, log_model_time, init_logger")
