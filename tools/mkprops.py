import json
DF="data_formatting/data_formatting/"; RS="railway_solvers/railway_solvers/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    assert statement.count(". ")<=2,(id,statement)
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None))
    P.append(d)

p("C01","Timetable files are read completely, each row to its own train",
 "Every train described in a timetable file appears exactly once in the loaded timetables, with its category, name, origin and destination, and with exactly its own rows, in file order and with every cell unchanged. Rows, headers or times of neighbouring trains never leak in, whatever the number, length and start/end wording of the trains. Listing a train's arrival and departure times returns exactly its rows that carry at least one time, in order.",
 ["inputs"],"all files made of up to three trains, each with every header wording (from/departure, to/terminates), length and pattern of filled cells, in every order; plus the shipped files",
 "Tests read one train of one shipped file; a fault that depends on where a train stands in the file, on its length or on its wording is never exercised.",
 [DF+"time_table_check.py"],[("timetable_to_train_dict","splits the file at headers"),("get_arr_dep_vals","drops rows with no time")],
 ["timetable_to_train_dict","train_time_table","get_arrdep","get_arr_dep_vals"])
p("C02","Block running times follow the travel direction and speed class",
 "After the timetables are prepared, every block of every train carries the running time that the network table gives for leaving that block towards the next one, in the direction actually travelled and for the speed class the train has on that block, and the last block carries none. Every block is labelled with the station it belongs to and only with that one. A step between two blocks that the network does not join is refused rather than given a time, and the timetables go to a file exactly when that is asked for and read back the same.",
 ["inputs","configurations"],"all routes over small networks, in both directions, with every speed-class pattern and every row orientation of the network table; plus all shipped timetables",
 "Tests look at a handful of blocks of one timetable; direction and speed class combine per block and per table orientation.",
 [DF+"new_time_tables.py",DF+"utils.py"],[("single_passing_time","picks row and column"),("passing_times_4blocks","per block"),("update_all_timetables","labels stations"),("get_path_type_colunm","direction and class")],
 ["update_all_timetables","single_passing_time","passing_times_4blocks"])
p("C03","Itineraries and station queries agree with the blocks travelled",
 "For every train the itinerary is exactly the stations of its blocks in travel order, and every query about it (does it call at a station, which station comes next, which blocks lie between two stations, which trains are at or depart from a station, which stations or blocks two trains share and in which relative direction, at which station it ends) gives the answer read off the two block sequences. A block sequence is accepted as continuous exactly when every consecutive pair of blocks is joined in the network.",
 ["inputs"],"all pairs of routes over small networks, all station pairs, all block sequences up to a length; plus the shipped timetables",
 "Tests ask a few questions about a few shipped trains; the answer depends on the whole pair of routes.",
 [DF+"utils.py",DF+"time_table_check.py"],[("train_important_stations",DF+"time_table_check.py"),("get_blocks_b2win_station4train",DF+"utils.py"),("get_common_blocks_and_direction_b2win_trains",DF+"utils.py"),("check_path_continuity",DF+"time_table_check.py"),("get_trains_at_station",DF+"utils.py"),("get_skip_stations",DF+"utils.py")],
 ["get_Paths","subsequent_station","get_trains_at_station","get_common_blocks_and_direction_b2win_trains","check_path_continuity","get_skip_stations"])
p("C04","Trains are grouped by the exact line track they use between stations",
 "For every two consecutive stations, every train running from the first to the second is in exactly one group, and two such trains are in the same group exactly when they run over the same sequence of blocks between the two stations. No train is listed for a station pair it does not travel in that direction. The grouping does not depend on the order in which trains are listed.",
 ["inputs"],"all sets of up to three routes over small networks, in every listing order; plus the shipped timetables",
 "Tests compare one shipped timetable with a stored answer; overlapping and partially shared tracks of other train combinations are never built.",
 [DF+"make_J_taus.py",DF+"utils.py"],[("jd",DF+"make_J_taus.py"),("common_path",DF+"utils.py")],["jd"])
p("C05","Every head-on pair on a shared single track is found, and no other",
 "Two trains are listed as meeting head-on between two consecutive stations exactly when one runs from the first station to the second and the other from the second to the first, both over the same non-empty sequence of line blocks in opposite order. Every such pair is listed exactly once, under one of the two directions, oriented so that the first train is the one running in the direction of the key.",
 ["inputs"],"all sets of up to three routes over small networks, including trains that start or end at either of the two stations, in every listing order; plus the shipped timetables",
 "The expected result in the tests comes from one timetable in which most conditions never differ; a missed pair is a missed collision constraint and nothing reports it.",
 [DF+"make_J_taus.py"],[("josingle","finds pairs"),("josingle_dict_generate","compares block sequences")],["josingle"])
p("C06","Trains sharing a station track are grouped, per station and track",
 "At every station that is not excluded from track occupation, every train calling there is in exactly one group and two trains share a group exactly when they use the same station track. Only trains on the depot tracks that are explicitly exempt, and trains at exempt stations, are left out.",
 ["inputs"],"all sets of up to three routes over small networks with ordinary, exempt and depot tracks, in every listing order; plus the shipped timetables",
 "Tests compare one shipped timetable; a train dropped from a group silently removes the rule that keeps two trains off one track.",
 [DF+"make_J_taus.py",DF+"utils.py"],[("jtrack",DF+"make_J_taus.py"),("jtrack_subroutine",DF+"make_J_taus.py"),("blocks_list_4station",DF+"utils.py"),("exclusion_list_jtrack",DF+"make_J_taus.py")],["jtrack"])
p("C07","Every pair of trains using a common switch is found, with its role",
 "Two trains are listed as competing for switches at a station, with the role entering or leaving for each, exactly when the switches on the step by which the first enters or leaves that station track and those on the step of the second have one in common. A step that joins the two main station areas is counted once and not at both of its ends, and areas explicitly exempt are left out. A train does not enter the first station of its itinerary and does not leave the last one.",
 ["inputs","configurations"],"all pairs of routes over small networks with every assignment of up to three switches to the station steps, in every notation of the switch cell; plus the shipped timetables",
 "Tests check a few station/train pairs of the shipped data; roles, notations and the shared-area rule multiply.",
 [DF+"make_J_taus.py",DF+"make_switch_set.py"],[("jswitch",DF+"make_J_taus.py"),("make_jswitch_dict",DF+"make_J_taus.py"),("z_in",DF+"make_switch_set.py"),("z_out",DF+"make_switch_set.py")],["jswitch","z_in","z_out"])
p("C08","Trains sharing rolling stock are paired in running order at their station",
 "Two trains are paired as one rolling stock exactly when the number of one is the number of the other followed by the digit 9. Each pair is listed once, at the station where the rolling stock changes number, with the train that arrives there first and the train that continues from the same track second.",
 ["inputs"],"all sets of up to four train numbers over a small set of digits, with every arrangement of which of the two runs first; plus the shipped timetables",
 "Tests hold three pairs of one timetable, all at one station.",
 [DF+"make_J_taus.py"],[("get_trains_pair9",DF+"make_J_taus.py"),("get_jround",DF+"make_J_taus.py")],["get_trains_pair9","get_jround"])
p("C09","Running, dwell and preparation times add up from the blocks travelled",
 "For every train the minimal running time between two consecutive stations is the sum of the running times of the blocks between them; the minimal stay at a station is the running time over its station track plus any turnaround time given there, except that at its first station the turnaround is a preparation time and not part of the stay. A stay is given for every station the train leaves and none where it ends. Rounded values are the rounding of the exact sums.",
 ["inputs"],"all routes over small networks with every placement of turnaround times and fractional running times, rounded and unrounded; plus the shipped timetables",
 "Tests compare selected numbers of one timetable, where turnaround times occur at a few blocks only.",
 [DF+"make_J_taus.py",DF+"utils.py"],[("get_taus_pass",DF+"make_J_taus.py"),("get_taus_stop",DF+"make_J_taus.py"),("get_taus_prep",DF+"make_J_taus.py"),("minimal_stay",DF+"utils.py"),("minimal_passing_time",DF+"utils.py")],["get_taus_pass","get_taus_stop","get_taus_prep"])
p("C10","Headways are the smallest departure spacing that keeps blocks clear",
 "For every ordered pair of trains on the same line track the headway is the smallest spacing of their departures that lets the second train enter each block only when the first has cleared the required number of blocks ahead, two normally and one on the sections equipped for it. It is given for every ordered pair of such trains and in both orders, and it is zero where no block lies between the stations.",
 ["inputs"],"all pairs of trains over lines of up to five blocks with every pattern of running times from a small set; plus the shipped timetables",
 "Tests compare stored numbers of one timetable; the maximum is reached at different blocks for different speed patterns.",
 [DF+"make_J_taus.py"],[("get_taus_headway",DF+"make_J_taus.py")],["get_taus_headway"])
p("C11","Scheduled and initial times are minutes relative to the reference time",
 "The scheduled departure of a train from a station is the signed number of minutes from the reference time to the departure time written in the timetable, given for exactly the stations with a written departure. The initial condition of a train is that of its first station, taken from the written departure, or else from the approximate entry time, or else zero.",
 ["inputs"],"all patterns of filled and empty time cells over routes of up to four blocks, with departures before, at and after the reference time; plus the shipped timetables",
 "Tests check a few trains of one timetable at one reference time.",
 [DF+"scheduling_tools.py",DF+"utils.py"],[("get_schedule",DF+"scheduling_tools.py"),("get_initial_conditions",DF+"scheduling_tools.py"),("calc_time_diff",DF+"scheduling_tools.py")],["get_schedule","get_initial_conditions"])
p("C12","Applying a delay shifts the delayed train and nothing else",
 "Adding a delay to a train shifts the initial condition of exactly that train by exactly that amount and leaves every other train, whatever its number, as it was. The conditions passed in are not modified, and a sequence of delays is the sum of the single ones, in any order.",
 ["inputs","histories"],"all sets of up to three train numbers from a set in which numbers are prefixes and suffixes of each other, and all sequences of up to three delays",
 "Tests delay one train among trains whose numbers do not contain each other; the disturbances of the shipped studies use other numbers.",
 [DF+"scheduling_tools.py",DF+"utils.py"],[("add_delay",DF+"scheduling_tools.py")],["add_delay"])
p("C13","Each train is weighted once, at its last counted station, by its category",
 "Every train contributes exactly one weight, at the last station of its itinerary, or at the one before if departures from the last are not counted. The weight is that of its category, except that the train that only moves the rolling stock of another train without passengers has the weight of empty runs; no other train is treated as such.",
 ["inputs"],"all sets of up to three trains over the known categories, train numbers with and without rolling-stock partner, and counted or uncounted last stations; plus the shipped timetables",
 "Tests check selected weights of one timetable, whose numbers never collide with a pair they do not belong to.",
 [DF+"scheduling_tools.py"],[("make_weights",DF+"scheduling_tools.py")],["make_weights"])
LS=RS+"linear_solver.py"; HF=RS+"helpers_functions.py"
sem="For these rules alone: "
p("C14","Following trains keep their headway: the model allows exactly such timetables",
 "For trains leaving a station over the same line track, the optimisation model accepts an assignment of delays exactly when, for every two of them, one leaves at least its headway after the other. Nothing more is excluded and nothing less, whatever the planned times, the order of the planned departures, the maximal delay and the order in which trains are listed.",
 ["inputs","schedules"],"all delay vectors and all train orders of all small instances: two and three trains, all headways and earliest departures from small sets",
 "Tests solve a few instances to optimality and look at a single optimum; admitted conflicts and wrongly excluded timetables that are not optimal stay invisible.",
 [LS,HF],[("minimal_span / dep_time_headway",LS),("get_M, earliest_dep_time",HF)],["create_linear_problem, feasible set projected on delays"])
p("C15","Head-on trains never share a single track, and waiting is not over-restricted",
 "For two trains meeting head-on on a single track, the optimisation model accepts an assignment of delays exactly when one of them leaves its end of the track no earlier than the other has run through it. Trains that share rolling stock are exempt. Nothing more is excluded and nothing less, for every planned time, running time, maximal delay and listing order.",
 ["inputs","schedules"],"all delay vectors and all train orders of all small instances with two and three trains on one or two single-track sections",
 "As for the headways: tests look at one optimum of a few instances.",
 [LS,HF],[("single_line",LS)],["create_linear_problem, feasible set projected on delays"])
p("C16","A station track holds one train at a time, and order is kept from the line",
 "For two trains using the same track of a station, the optimisation model accepts an assignment of delays exactly when one arrives only after the other has left, with the switching time added where that is configured; a train that starts there counts as present from its earliest departure, or from the arrival of the train whose rolling stock it takes over. The order on the track is the order in which they left the previous station over the same line track or passed the common entry switches, and a train that changes number keeps its place in the order. Departures that are not counted do not block the track for others.",
 ["inputs","schedules"],"all delay vectors and all train orders of all small instances with two and three trains on a track: through, starting, ending, and taking over rolling stock, on the same or different lines",
 "Tests look at one optimum of a few instances; the combinations of start, end, take-over and line order are not built.",
 [LS,HF],[("track_occuparion",LS),("trains_order_at_s / keep_trains_order",LS),("previous_train_from_Jround, subsequent_train_at_Jround, skip_station",HF)],["create_linear_problem, feasible set projected on delays"])
p("C17","Trains pass a common switch at least the switching time apart",
 "For two trains listed as using a common switch of a station, each entering or leaving, the optimisation model accepts an assignment of delays exactly when the times at which they pass it differ by at least the switching time, where a train entering passes on arrival and a train leaving on departure. The order at the switch agrees with the order on the line they share where they run on the same track, and it is free where they do not. Trains that share rolling stock are exempt.",
 ["inputs","schedules"],"all delay vectors and all train orders of all small instances with two and three trains, every combination of entering and leaving, and same, parallel or different lines",
 "Tests look at one optimum of a few instances and never at all role combinations.",
 [LS,HF],[("switch_occ",LS),("get_y3/get_z / can_MO_on_line",HF)],["create_linear_problem, feasible set projected on delays"])
p("C18","A train never runs ahead of its schedule, its running times or its stock",
 "The optimisation model accepts an assignment of delays exactly when every train leaves every station no earlier than it can be there after running and stopping, and a train that takes over rolling stock leaves no earlier than the arrival of that stock plus the preparation time. Delays count from the earliest possible departure: the later of the scheduled time and the time reachable from the initial condition by running and stopping. Every counted departure has a delay between zero and the maximal one, integer or continuous as requested, and departures that are not counted have none.",
 ["inputs","schedules"],"all delay vectors of all small instances with one to three trains and chains of rolling stock, all schedules and initial conditions from small sets",
 "Tests check a few instances and single optima; early departures that no optimum uses stay invisible.",
 [LS,HF],[("minimal_stay, circulation",LS),("earliest_dep_time",HF),("create variables","LpVariable bounds in "+LS)],["create_linear_problem, feasible set and variable bounds"])
p("C19","All rules together admit exactly the conflict-free timetables",
 "For a problem with lines, single tracks, station tracks, switches and rolling stock together, the optimisation model accepts an assignment of delays exactly when the timetable breaks none of the rules. The set of accepted timetables does not depend on the order in which trains or groups are listed, building the model twice gives the same problem, and building it does not change the inputs.",
 ["inputs","schedules","histories"],"all delay vectors and all train orders of all small networks combining the rules, all permutations of listings, all repeated builds",
 "Interaction of rules (one order variable used by several rules) is only visible on the whole feasible set, never on one optimum.",
 [LS,HF],[("create_linear_problem",LS),("order variables shared between rules",LS)],["create_linear_problem"])
p("C20","The objective is the weighted delay and the report of a solution matches it",
 "The objective of every timetable is the sum of weight times delay over the weighted departures, divided by the maximal delay. For every solution the reported delay, actual time and undisturbed time of a train at a station, and its share in the objective, are those of that solution, for every train and station name, whether the solution is held by the model or given from outside. The reported shares add up to the objective.",
 ["inputs"],"all delay vectors of small problems with all weight patterns and station and train names with every character the notation allows",
 "Tests check the report on a few optima with one style of names.",
 [LS,HF],[("set objective",LS),("delay_and_acctual_time, impact_to_objective",HF)],["delay_and_acctual_time","impact_to_objective"])
p("C21","The constrained quadratic model is the same problem as the linear one",
 "Converting the linear problem to a constrained quadratic model preserves the problem: the two have the same variables with the same ranges, each counted from its lower bound, an assignment satisfies all constraints of one exactly when it satisfies all of the other, constraint by constraint, and the objective values are equal. This holds for every mix of less-or-equal, greater-or-equal and equality constraints, coefficients and variable bounds.",
 ["inputs","programs"],"all assignments of all small linear problems over a set of coefficients, bounds, senses and constants, and of small railway problems; plus recorded runs on the shipped cases",
 "Tests compare single optima of a few problems; the optional libraries are missing from the stable test run altogether.",
 [RS+"converter_cqm.py"],[("convert_to_cqm",RS+"converter_cqm.py")],["convert_to_cqm"])
p("C22","The unconstrained quadratic model ranks assignments as the linear problem does",
 "For every assignment of the variables of the linear problem, the lowest energy over the auxiliary variables of the unconstrained model is the weighted objective plus, for each broken constraint, the penalty configured for its kind times the square of its violation. Feasible assignments therefore have exactly their objective as energy, and with sufficiently large penalties the lowest energy is the optimum of the linear problem. Every valid problem with bounded integer variables can be converted.",
 ["inputs","programs"],"all binary assignments, auxiliary ones included, of all small linear problems over a set of coefficients, bounds, senses, constants and penalties, and of small railway problems",
 "Tests anneal a few problems and look at one sample; the energy landscape is never enumerated, and the libraries are missing from the stable run.",
 [RS+"converter_bqm.py"],[("convert_to_pyqubo / convert_to_bqm",RS+"converter_bqm.py")],["convert_to_bqm"])
p("C23","Samples of the unconstrained model are read back as the right timetable",
 "Interpreting a sample of the unconstrained model gives for every variable of the linear problem the integer value encoded by the bits, within its bounds, for every possible bit pattern and every number of samples, and the reading of one sample does not influence another. Energies stay with their samples.",
 ["inputs"],"all bit patterns of all small problems over every bound pattern, and all sample sets of up to three samples",
 "Tests read back single samples of a few problems.",
 [RS+"converter_bqm.py"],[("interpreter",RS+"converter_bqm.py")],["convert_to_bqm interpreter"])
p("C24","Solution analysis reports true feasibility, objective and the best sample",
 "For every set of samples each reported result has the objective of its own sample, is reported feasible exactly when it breaks no constraint of the problem, and names exactly the number of broken constraints. Results are returned for all samples, the best sample is the feasible one of lowest objective, and if none is feasible the one returned is reported as infeasible.",
 ["inputs"],"all sets and orders of up to three samples of small problems, all constraint senses, tolerances included",
 "Tests analyse a few sample sets produced by an annealer, which nearly always look alike.",
 [RS+"results_manipulation.py"],[("get_results, analyze_constraints, get_objective, get_best_feasible_sample",RS+"results_manipulation.py")],["get_results","get_best_feasible_sample"])
p("C25","Every solving method gets the right model and parameters and returns its best",
 "Whatever the method chosen (simulated, real, hybrid, constrained hybrid), the solver receives the model of exactly the given problem and exactly the requested parameters, each under its own name. The answer returned is the best sample the solver produced, read back in terms of the problem, with the solver's information and the measured time attached.",
 ["inputs","histories"],"all methods, all parameter values from small sets and all answers of a solver stand-in over small problems, in all sequences of two calls",
 "The solvers are not available in the stable test run; a swapped or dropped parameter changes no test.",
 [RS+"d_wave_solves.py","helpers.py"],[("sim_anneal, real_anneal, hybrid_anneal, constrained_solver",RS+"d_wave_solves.py"),("q_process, solve_on_quantum","helpers.py")],["solve_on_quantum","calls received by the solver"])
p("C26","The published timetable is the solution, at the right clock times",
 "For every train and station of its itinerary the published timetable gives the departure and arrival clock times that follow from the reference time, the earliest departures, the delays of the solution and the running times, both with and without the conflict resolution, and the delay and its share in the objective. A station without counted departure has an arrival only, a first station a departure only, and every station of every train appears.",
 ["inputs"],"all delay vectors of small problems, with and without uncounted last stations, from the model or from an outside solution; plus the published schedules recorded with the shipped cases",
 "There is no test of it at all.",
 ["helpers.py",HF],[("print_optimisation_results","helpers.py"),("delay_and_acctual_time, impact_to_objective",HF)],["print_optimisation_results"])
p("C27","Train diagrams place every train on the line at its published times",
 "Converting a published timetable to a diagram gives for each train its stations in travel order with the arrival and departure of the requested variant (before or after conflict resolution) and no others. Every position on a line or diagram segment is the distance of that station, distances between neighbouring stations are the same in a segment as on the line it is made of, and a train is reported on a segment exactly when it calls at two or more of its stations.",
 ["inputs"],"all published timetables of up to four stations with all missing arrivals or departures, all subsets and orders of stations per line and segment; plus the published schedules recorded with the shipped cases",
 "There is no test of it at all.",
 ["solutions_quantum/data4diagrams/train_utils.py","solutions_quantum/data4diagrams/railway_lines.py","solutions_quantum/data4diagrams/echo_gnuplot_file.py","solutions_quantum/data4diagrams/read_quantum_pickle.py"],[("kdtrain2trainpath","train_utils.py"),("station2km, station_on_lines, train_on_segment","railway_lines.py")],["kdtrain2trainpath","station2km","train_on_segment"])
p("C28","Shipped cases: the model built from the files is the real traffic problem",
 "For every shipped case the optimisation model built from its files, or from the data in its script, accepts exactly the delay assignments for which no two trains conflict according to those data: headways on the blocks of the line, single tracks, station tracks, switches, running and dwell times and rolling stock. No pair of trains is missed and none is restricted without reason.",
 ["inputs","configurations","schedules"],"all shipped data sets, all pairs of trains, all pairs of delays on the minute grid of the largest delay",
 "Tests compare fragments of one data set, and the solver part is not run by the stable tests.",
 ["helpers.py",LS,DF+"make_J_taus.py","solve_real_problem.py","solve_KO_GLC_problems.py"],[("make_train_set, make_timetable, make_taus","helpers.py"),("create_linear_problem",LS)],["create_linear_problem on shipped data"])
p("C29","Each scripted study case solves the disturbance it names and files its result",
 "Each case of the study scripts is solved on the timetable, network and stations that belong to it, with exactly the delays listed for that case applied to exactly the listed trains, with the requested solver and method. Its result is stored under the name of that case, method and variable category, and contains the solution found for it; no case overwrites or reuses the result of another.",
 ["inputs","configurations","histories"],"all cases, solvers, methods and categories offered by the scripts, in all sequences of two",
 "The scripts are not executed by any test.",
 ["solve_real_problem.py","solve_KO_GLC_problems.py","wisla_problems.py","helpers.py"],[("case dictionaries and main loops","solve_real_problem.py"),("case loop","solve_KO_GLC_problems.py"),("problem dictionaries","wisla_problems.py")],["files written","calls received by the solver"])
p("C30","Statistics and comparison plots show exactly the recorded results",
 "The statistics of a study case give for each station the extremes, quartiles and mean of exactly the delays recorded there, over all trains and all realisations of that case, each counted once; departures without a delay do not count. The comparison plots show for every solver, time limit and case the objective in minutes, the computing time in seconds and the feasibility of exactly the results recorded for it, each instance at its place. The sweeps over the time limit show the mean and the extremes of the recorded samples of each limit next to the optimum of the case, and are refused if a recorded sample is infeasible.",
 ["inputs","configurations"],"all small tables of delays and lists of delays, all patterns of feasible and infeasible results of small result sets, all orders of samples, limits and cases; plus the results recorded with the repository",
 "There is no test of it at all, and the plotting library is missing from the stable test run.",
 ["solutions_quantum/data4diagrams/visualise_statistics.py","solutions_quantum/tmin_plot.py","solutions_quantum/tmin_plot_rev.py","results_KO_GLC/fast_plot.py","results_KO_GLC/fast_plot_lim.py"],[("add_delays_one_realisation, get_print_statistics, plot_stats","visualise_statistics.py"),("plotting_comparisons","fast_plot.py, fast_plot_lim.py"),("plotting_objective","tmin_plot.py, tmin_plot_rev.py")],["series drawn","statistics printed and returned"])
p("C31","The reported sizes of a problem are its own, and its solution is checked",
 "For every optimisation problem the reported numbers of order variables, of delay variables and of constraints are those of the problem, whatever the names of trains and stations. The check of a solution passes for every solution whose order variables are 0 or 1, whatever its delays, and refuses every other one. The reported numbers of fields and couplings of an unconstrained model are those of its non-zero terms.",
 ["inputs"],"all sets of rules over small problems with names that contain the marks of other variables, all patterns of order variables, each of them alone at a value that is not binary, all small unconstrained models",
 "Tests count the variables of a few problems with one style of names, in a part that the stable run leaves out.",
 ["helpers.py",RS+"results_manipulation.py"],[("count_vars, check_count_vars","helpers.py"),("count_linear_fields, count_quadratic_couplings",RS+"results_manipulation.py")],["count_vars","check_count_vars","count_linear_fields","count_quadratic_couplings"])
p("C32","Every step answers alike in any history and leaves its inputs as they were",
 "The steps of a study (reading and completing timetables, deriving sets and times, applying delays, building, converting and solving problems, reading back and analysing samples, counting, reporting, placing trains on diagrams) may be done in any order, any number of times, for several data sets in one session. Each step returns what it returns when it is the only one, and the data handed to it (timetables, network, stations, sets, times, penalties, problems, samples) are as before, except where changing them is the purpose of the step: update_all_timetables completes the timetables it is given and a solver fills in the values of the problem it solves.",
 ["inputs","histories"],"all histories of three steps over data sets and problems that share train numbers, blocks and stations",
 "Tests call each function once on data of its own; what a step leaves behind shows only in a later step on other data.",
 ["helpers.py",DF+"make_J_taus.py",DF+"new_time_tables.py",DF+"utils.py",DF+"scheduling_tools.py",LS,HF,RS+"converter_bqm.py",RS+"converter_cqm.py",RS+"results_manipulation.py","solutions_quantum/data4diagrams/train_utils.py","solutions_quantum/data4diagrams/railway_lines.py"],[("make_train_set, make_taus, make_timetable, print_optimisation_results","helpers.py"),("create_linear_problem, solve_linear_problem",LS),("update_all_timetables",DF+"new_time_tables.py"),("kdtrain2trainpath","train_utils.py")],["answers of every step","inputs after every step"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d,ensure_ascii=False)+"\n" for d in P))
print(len(P))
