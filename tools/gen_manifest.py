"""
Writes properties.jsonl and MANIFEST.json. A property is claimed when
dst/checks/<id>.py exists.
"""

import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ENG = "foxes/engines/"
TECH = "deterministic simulation with fault injection (seeded schedule and fault search)"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, note=None, observe=None, na=None, technique=None):
    PROPS.append(
        dict(
            p=dict(
                id=id,
                title=title,
                statement=statement,
                quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(
                    files=files,
                    mechanism=[dict(name=n, where=w) for n, w in mech],
                    observe_at=observe or [],
                    hook_needed=None,
                ),
            ),
            note=note,
            na=na,
            technique=technique or TECH,
        )
    )


prop(
    "C01",
    "Farm results do not depend on engine, chunking, workers or schedule",
    "A farm calculation returns the same states, turbines, variables and values, in the same order, whatever engine computes it, however the states are divided into chunks, and in whatever order, on whatever worker and with whatever preemption the chunks run. "
    "This includes calculations restricted to selected output variables, weighted, unevenly chunked and time dependent states, and wakes that carry over from one chunk of states to the next.",
    ["schedules", "configurations", "inputs"],
    "every engine kind, number of workers, chunk sizes, completion order and preemption, over random farms, states and model choices",
    "The tests compare a handful of models on default engines with one chunk size; on real pools the order of execution is whatever the machine happens to do.",
    ["foxes/core/engine.py", ENG + "pool.py", ENG + "numpy.py", ENG + "dask.py", ENG + "default.py", "foxes/core/algorithm.py", "foxes/algorithms/downwind/downwind.py", "foxes/algorithms/iterative/iterative.py"],
    [("chunk sizes, chunk input, combination of chunk results", "Engine.calc_chunk_sizes, get_chunk_input_data, combine_results"), ("submission and collection of jobs", "PoolEngine.run_calculation"), ("chunk store", "Algorithm.*_chunk_store")],
    "every case compares all variables with the result of the real single chunk engine on private objects; tolerance 1e-7 (1e-5 for the iterative algorithm, whose stopping rule is 1e-6)",
    ["Algorithm.calc_farm"],
)
prop(
    "C02",
    "Point results do not depend on engine, chunking, workers or schedule",
    "A point calculation returns the same states, points, variables and values, in the same order, whatever engine computes it and however states and points are divided into chunks and scheduled. "
    "This includes points that vary with the state, selected states, selected outputs, ambient calculations, additional point models and wakes that carry over between chunks of states.",
    ["schedules", "configurations", "inputs"],
    "every engine kind, number of workers, two dimensional chunking, completion order and preemption, over random farms, states, models and points",
    "The tests calculate points on one engine with one chunk layout.",
    ["foxes/core/engine.py", ENG + "pool.py", ENG + "numpy.py", ENG + "dask.py", "foxes/algorithms/downwind/downwind.py", "foxes/algorithms/downwind/models/point_wakes_calc.py"],
    [("two dimensional chunks", "Engine.calc_chunk_sizes, get_chunk_input_data, combine_results"), ("points calculation", "Downwind.calc_points")],
    "as C01, for calc_points after calc_farm on the same or another engine",
    ["Algorithm.calc_points"],
)
prop(
    "C03",
    "A lost or failed task never leads to silently wrong or partial results",
    "When a worker dies, a task raises, or a pool or cluster refuses a submission or fails to deliver a result during a farm calculation, point calculation or engine map, the caller gets an error, or results that are complete and exactly those of the undisturbed calculation. "
    "The caller never gets partial, shifted, stale or default values, and always gets an answer once the faults stop.",
    ["fault_sequences", "schedules", "crash_points"],
    "every fault kind at every submission, execution, delivery and line of code of a chunk calculation, on every engine",
    "No test makes a worker or task fail.",
    ["foxes/core/engine.py", ENG + "pool.py", ENG + "futures.py", ENG + "multiprocess.py", ENG + "mpi.py", ENG + "ray.py", ENG + "dask.py"],
    [("result collection", "PoolEngine._result, DaskEngine.run_calculation, LocalClusterEngine.run_calculation")],
    "faults: exceptions inside tasks at chosen lines, MemoryError, worker crash before, in and after a task, lost results, failing submission; oracle: error or exact equality with the fault free single chunk run; simulated deadlock is a violation. A worker killed inside multiprocessing.Pool hangs in the real library, too, and is excluded",
    ["Algorithm.calc_farm", "Algorithm.calc_points", "Engine.map"],
)
prop(
    "C04",
    "After a failed or interrupted calculation the same objects calculate correctly",
    "After a farm or point calculation has ended with an error or an interruption while its chunks are computed, calling the calculation again on the same algorithm object, on the same or another engine, gives the same results as a fresh set of objects. "
    "The same holds for a new algorithm that is built from the same farm, states and models.",
    ["crash_points", "fault_sequences", "histories"],
    "an exception or KeyboardInterrupt at any executed line or pool operation of a calculation, followed by any calculations",
    "No test continues after an error.",
    ["foxes/core/algorithm.py", "foxes/core/model.py", "foxes/core/states.py", "foxes/algorithms/downwind/downwind.py", "foxes/algorithms/iterative/iterative.py", ENG + "dask.py", ENG + "default.py", ENG + "single.py"],
    [("running state and stashing of large data", "Model.set_running, unset_running"), ("engine attributes that are changed during a calculation", "XArrayEngine.run_calculation, DefaultEngine.run_calculation")],
    "an exception (Exception, MemoryError or KeyboardInterrupt) is injected at a seeded line event or pool operation of the main thread or of a task; the retry is compared with fresh objects",
    ["Algorithm.calc_farm", "Algorithm.calc_points"],
)
prop(
    "C05",
    "One active engine at a time, and it always releases what it holds",
    "At any time at most one engine is active, it is the one that calculations use, and starting another one is refused without changing the active one. "
    "After the end of an engine context, however it ends, or after a failed start, no engine is active, every pool, client, cluster and progress bar the engine started has been shut down, global settings are restored, and another engine can be started.",
    ["histories", "fault_sequences", "crash_points"],
    "every sequence of enter, initialize, calculate, finalize, exit and delete operations on several engines, with failing pool starts, shutdowns and calculations",
    "The tests use engines in one well-behaved with block.",
    ["foxes/core/engine.py", ENG + "pool.py", ENG + "default.py", ENG + "dask.py", ENG + "ray.py", ENG + "mpi.py", ENG + "single.py", ENG + "numpy.py"],
    [("global engine registration", "Engine.initialize, finalize, get_engine, reset_engine"), ("resources", "PoolEngine._create_pool, _shutdown_pool")],
    "a history checker compares the operations with a small reference model of the active engine and with the ledger of resources kept by the simulated platform",
    ["Engine.__enter__", "Engine.__exit__", "get_engine"],
)
prop(
    "C06",
    "Engine map calls the function exactly once per input, in order",
    "Mapping a function over inputs on any engine gives one result per input, in the order of the inputs and with all additional arguments, each computed by exactly one call, whatever the number of workers and the order in which they run. "
    "If a call fails, the map fails; it never returns a shorter, reordered or padded list.",
    ["schedules", "inputs", "fault_sequences"],
    "every engine kind, number of workers, number and type of inputs, schedule and failing call",
    "No test calls the map of any engine.",
    ["foxes/core/engine.py", ENG + "pool.py", ENG + "dask.py", ENG + "default.py", ENG + "single.py", ENG + "numpy.py"],
    [("distribution of inputs to workers", "PoolEngine.map, DaskBaseEngine.map")],
    "calls are recorded by the mapped function through a ledger that all simulated workers share",
    ["Engine.map"],
)
prop(
    "C07",
    "Concurrent tasks on threads do not influence each other",
    "When several chunk calculations run at the same time in one process, no preemption between them, at whatever point, changes any result or makes one fail, for every model that keeps attributes, caches or intermediate data. "
    "The objects of the caller remain usable: later calculations with them give the same results.",
    ["schedules"],
    "every preemption between any two lines of the chunk calculations, over the thread based engines and all stateful models",
    "Real thread switches are rare and uncontrolled; tests with thread engines pass by luck.",
    [ENG + "pool.py", ENG + "futures.py", ENG + "dask.py", "foxes/core/wake_model.py", "foxes/core/model.py", "foxes/models"],
    [("own objects for each job", "PoolEngine.run_calculation, dask._run_as_ufunc, _run_on_cluster"), ("chunk store", "Algorithm chunk store")],
    "real threads, of which exactly one runs at a time; switches at line events chosen by the seeded scheduler, densities from every line to every few thousand lines",
    ["Algorithm.calc_farm", "Algorithm.calc_points"],
)
prop(
    "C08",
    "Executing a chunk task again does not change the results",
    "A chunk task that is executed twice, or is repeated after it was lost, by a cluster or scheduler that retries tasks, leaves the results of the calculation unchanged. "
    "Calculating twice in a row with the same objects gives the same results twice.",
    ["fault_sequences", "schedules"],
    "every subset of tasks executed again, at any time before the result is collected",
    "Retries do not occur in tests.",
    ["foxes/core/engine.py", ENG + "dask.py", ENG + "ray.py", ENG + "pool.py", "foxes/algorithms/iterative", "foxes/models"],
    [("tasks are functions of their arguments", "_run, _run_lazy, _run_on_cluster, _run_as_ufunc")],
    "the simulated schedulers execute tasks again, with the serialised or the shared arguments as the real one would",
    ["Algorithm.calc_farm"],
)
prop(
    "C09",
    "Iterative calculations end and agree with the direct calculation",
    "An iterative calculation ends after at most the given maximal number of iterations after the initial one, plus one final run, and for aligned turbines and wake models that only depend on what is upstream its results are those of the downwind calculation. "
    "Delayed or dynamic wake carry-over between chunks does not change the converged result, and a converged calculation stays converged when it is repeated.",
    ["schedules", "configurations", "histories"],
    "all chunkings, engines and schedules, convergence criteria, limits and dynamic wake frames",
    "The tests run two or three configurations to convergence on a single engine.",
    ["foxes/algorithms/iterative/iterative.py", "foxes/algorithms/iterative/models", "foxes/core/algorithm.py", "foxes/models/wake_frames/dynamic_wakes.py"],
    [("iteration and convergence block", "Iterative.calc_farm, Algorithm.block_convergence, eval_conv_block")],
    "iterations are counted by wrapping the engine; results against the downwind algorithm and against one chunk",
    ["Iterative.calc_farm"],
)
prop(
    "C10",
    "Stepping through states equals calculating them all at once",
    "Iterating over the states one by one gives for each state, exactly once and in order, the values that the calculation of all states at once gives, and calls every plugin exactly once for the initialization, each state and the end. "
    "Stopping early, starting again and calculating points during the iteration do not change any value.",
    ["histories", "inputs", "fault_sequences"],
    "all sequences of next, points, break, error and restart operations, over engines and models",
    "One test steps through a few states to the end.",
    ["foxes/algorithms/sequential/sequential.py", "foxes/algorithms/sequential/models", "foxes/output/seq_plugins"],
    [("iterator", "Sequential.__iter__, __next__"), ("plugins", "SequentialPlugin")],
    "against the one chunk downwind calculation, and a recorded call history of plugins",
    ["Sequential.__next__"],
)
prop(
    "C11",
    "Results depend on the inputs, not on earlier calculations",
    "Any sequence of farm and point calculations, with different engines, output selections and calculation parameters, on one algorithm object or on several that share farm, states, models or model books, gives for each calculation the same results as fresh objects would. "
    "Calculations do not change the user's arguments, data frames, model books, wind farms or earlier results.",
    ["histories", "configurations"],
    "all sequences of calculations over shared objects",
    "Tests create all objects anew for each calculation.",
    ["foxes/core/algorithm.py", "foxes/core/model.py", "foxes/algorithms/downwind/downwind.py", "foxes/models/model_book.py", "foxes/models"],
    [("initialize/finalize, model data in memory", "Model, Algorithm.idata_mem")],
    "each step against fresh objects, snapshots of the arguments before and after",
    ["Algorithm.calc_farm", "Algorithm.calc_points"],
)
prop(
    "C12",
    "Input data gives the same states however it is read, or an error",
    "Results do not depend on whether the input data of states, turbines and layouts comes from a file or from memory, nor, for fields, on whether the file is read at once, lazily or in pieces during the calculation, nor on the engine and chunking that read it. "
    "A file that cannot be opened or read, disappears, is cut short (in formats that carry their length), or holds fewer states on a later opening than at first leads to an error that reaches the caller, never to results from part of the data or from other data. "
    "Reading leaves files, tables in memory and arguments unchanged, and once the file is readable again the same calculation succeeds and gives the right results.",
    ["fault_sequences", "configurations", "crash_points"],
    "all read modes, chunkings and engines, and every read operation failing, being short or delayed",
    "Tests read intact files in one mode.",
    ["foxes/input/states", "foxes/input/farm_layout", "foxes/utils/pandas_helpers.py", "foxes/core/data.py", "foxes/utils/data_book.py"],
    [("preload, lazy and on the fly reading", "FieldDataNC"), ("tables", "StatesTable, Timeseries, MultiHeight, TabStates, WRGStates")],
    "a simulated disk below open/pandas/xarray in the process and in the forked workers",
    ["States.load_data", "States.calculate"],
)
prop(
    "C13",
    "What is written is what was calculated, or there is an error",
    "A file of results (farm results as csv or netCDF, point results, slices, tables, layouts) that was written without an error contains all requested variables, states, turbines and points under the requested names, and reading it back gives the calculated values to the documented digits. "
    "A full disk or a failing, short or interrupted write is reported to the caller. Writing leaves the results in memory, the arguments and other files unchanged, and writing again after a failure succeeds with a complete file.",
    ["fault_sequences", "crash_points", "inputs"],
    "all written variables, formats and options, with an error or interruption at any write operation",
    "Tests do not read results back, and no write fails.",
    ["foxes/output/results_writer.py", "foxes/output/output.py", "foxes/utils/xarray_utils.py", "foxes/output/state_turbine_table.py", "foxes/output/slice_data.py", "foxes/utils/pandas_helpers.py", "foxes/input/farm_layout"],
    [("writers", "ResultsWriter.write_csv, write_nc, utils.write_nc, SliceData")],
    "simulated disk: failing open, ENOSPC, EIO and short writes after a seeded number of bytes",
    ["ResultsWriter", "SliceData", "write_nc"],
)
prop(
    "C14",
    "Random layouts satisfy their constraints for every random stream",
    "Randomly generated positions and farm layouts have the requested number, minimal distance and centre, and random time series and stability states have the requested number, ranges and weights, for every stream of random numbers; once the numbers stop being unlucky, a layout is found soon. "
    "A given seed always gives the same result, whatever else draws random numbers before, in between or at the same time, and leaves the random numbers of others alone. Random states that are written to a file are the generated ones, or there is an error.",
    ["inputs", "schedules"],
    "every random stream, including repeated, extreme and crowded numbers; every seed; concurrent calls on every engine",
    "Tests use one stream, and the existing ones use none for these functions.",
    ["foxes/input/farm_layout/from_random.py", "foxes/utils/random_xy.py", "foxes/input/states/create/random_timeseries.py", "foxes/input/states/create/random_abl_states.py"],
    [("random layouts", "add_random, random_xy_square"), ("random states", "random_timseries_data, create_random_abl_states, write_random_abl_states")],
    "the random number generator below numpy.random is the simulator's (rng.Adversary): a scripted unfair prefix, then fair; constraints and seeds are checked on the returned layouts",
    ["add_random", "random_xy_square", "random_timseries_data", "create_random_abl_states"],
)
prop(
    "C16",
    "Calculations from input files equal those from code and leave nothing active",
    "A calculation described by a parameter dictionary, a yaml file or the command line gives the same farm and point results, function calls and outputs as the same calculation written in code, for every engine given in the description, by arguments, by the caller or not at all. "
    "The dictionary and the arguments are left unchanged, so that running them again gives the same. "
    "When any step of it fails, the error reaches the caller, and no engine, pool or changed setting is left behind; an engine that the caller had started stays the caller's.",
    ["fault_sequences", "configurations"],
    "all engines and models of the description, failing at any step",
    "Tests run no input files, and no failing ones.",
    ["foxes/input/yaml/dict.py", "foxes/input/yaml/yaml.py"],
    [("front end", "read_dict, run_dict, run_outputs")],
    "in-process run of the front end on the simulated platform",
    ["run_dict"],
)
prop(
    "C17",
    "Flow fields and slices equal point calculations on any engine",
    "The data of horizontal and vertical slices (in all data formats, in memory and in files), flow plots and point calculator outputs equal direct point calculations at the same coordinates, on any engine and chunking, for every state and for the weighted mean over the requested states. "
    "Planes, limits, numbers of points, resolutions, variables, labels, normalizations, value limits, state selections and rotor positions are those requested. "
    "The farm results, the arguments and the settings of the algorithm are unchanged afterwards, also after a failure.",
    ["schedules", "configurations", "inputs"],
    "all slices, resolutions, weights, state selections, engines, chunkings and schedules",
    "Tests cover no slices.",
    ["foxes/output/slice_data.py", "foxes/output/slices_data.py", "foxes/output/grids.py", "foxes/output/flow_plots_2d", "foxes/output/calc_points.py"],
    [("slices", "SliceData, get_grid_xy etc., calc_point_results, np2np_p, np2np_sp")],
    "against direct point calculations on the one chunk engine",
    ["SliceData", "FlowPlots2D"],
)
prop(
    "C18",
    "Results belong to their states and turbines, in whatever order these are given",
    "Reordering the states or the turbines of the input, or calculating only a part of the states, reorders or selects the results accordingly and changes no value, for turbines and points, on any engine and chunking.",
    ["schedules", "configurations", "inputs"],
    "all worlds, permutations, selections, engines, chunkings and schedules",
    "Tests never reorder their input.",
    ["foxes/algorithms/downwind", "foxes/algorithms/iterative", "foxes/core/farm_models_list.py", "foxes/core/data.py", "foxes/input/states", "foxes/models/wake_frames"],
    [("order", "FarmWakesCalculation, calc_order, SectorManagement")],
    "against the calculation in the original order on the one chunk engine",
    ["Downwind", "Iterative"],
)
prop(
    "C19",
    "Algorithms and wake frames agree wherever they describe the same flow",
    "Where the inflow makes a more general model equivalent to a simpler one, they give the same farm and point results on any engine and chunking: the Iterative algorithm and the Downwind algorithm for wakes that act downstream only; streamlines and straight wakes for inflow that is the same everywhere; dynamic wakes and timelines and straight wakes for constant inflow, once the wakes have passed the domain. "
    "Ambient variables of a calculation with wakes are the variables of the calculation without.",
    ["schedules", "configurations", "inputs"],
    "all worlds of these kinds, engines, chunkings and schedules",
    "Tests compare against stored numbers of each model alone.",
    ["foxes/algorithms/downwind", "foxes/algorithms/iterative", "foxes/models/wake_frames", "foxes/core/model.py"],
    [("wake frames", "calc_order, get_wake_coos, get_wake_modelling_data, Model.get_data"), ("iterations", "Iterative._calc_farm")],
    "against the simpler model on the one chunk engine",
    ["Downwind", "Iterative"],
)
NA = "a pure function of its input: no schedule, clock, fault, I/O or shared state for a simulator to decide"
prop("C30", "Wake and turbine models compute the published formulas", "Each wake, induction, wake growth, superposition and turbine model returns the values of the publication it implements, for all inputs in its range of validity.", ["inputs"], "all inputs of all models", "Tests check a few values.", ["foxes/models/wake_models", "foxes/models/wake_superpositions", "foxes/models/turbine_types"], [("model formulas", "calculate, calc_wakes_x_r")], na=NA)
prop("C31", "Interpolation reproduces data points and stays within range", "States and lookup tables interpolate the given data exactly at its nodes, within the range of neighbouring nodes between them, and report or fill outside as requested.", ["inputs"], "all tables and query points", "Tests use smooth samples.", ["foxes/input/states", "foxes/models/turbine_models", "foxes/models/turbine_types"], [("interpolation", "interpn, interp1d")], na=NA)
prop("C32", "Geometry operations are consistent", "Inside tests, distances, intersections and inversions of areas agree with each other for all shapes and points, and disc overlap areas are correct and symmetric.", ["inputs"], "all shapes and points", "Tests use a few shapes.", ["foxes/utils/geom2d", "foxes/utils/two_circles.py"], [("areas", "AreaGeometry")], na=NA)
prop("C33", "Wind directions and vectors convert consistently", "Conversions between wind direction, wind speed and vectors are inverse to each other and respect the periodicity of directions.", ["inputs"], "all directions and speeds", "Tests use a few values.", ["foxes/utils/wind_dir.py"], [("conversion", "wd2uv, uv2wd, delta_wd")], na=NA)
prop("C34", "Evaluations reduce results as requested", "Means, sums, yields, capacity and efficiencies evaluated from farm results are the weighted reductions of the requested variables over the requested dimensions.", ["inputs"], "all results, weights and reductions", "Tests evaluate few quantities.", ["foxes/output/farm_results_eval.py", "foxes/output/state_turbine_map.py"], [("reductions", "FarmResultsEval")], na=NA)


def main():
    checks, na = [], []
    for x in PROPS:
        p = x["p"]
        i = p["id"]
        if x["na"]:
            na.append(dict(property=i, reason=x["na"]))
        elif not os.path.exists(os.path.join(V, "dst", "checks", i.lower() + ".py")):
            na.append(dict(property=i, reason="check under construction, not claimed yet"))
        else:
            checks.append(
                dict(
                    property=i,
                    quick_cmd=f"bin/check {i} --tier quick",
                    thorough_cmd=f"bin/check {i} --tier thorough",
                    technique=x["technique"],
                    level="exploration",
                    level_note=x["note"],
                )
            )
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in PROPS:
            f.write(json.dumps(x["p"]) + "\n")
    m = dict(
        version=1,
        setup_cmd="bin/setup",
        hooks=dict(
            guard="none: no hooks were added to /repo, all seams are module attributes, constructor arguments and sys.monitoring",
            enable="not needed: the simulator patches the seams inside its own processes (dst/seams.py)",
            source_commits=[],
        ),
        checks=checks,
        not_applicable=na,
        notes="Replay of a violation: bin/replay FILE. Known findings: known_findings.json. See DESIGN.md.",
    )
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
