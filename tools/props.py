TECH = "explicit TLA+ specification ({}) checked with TLC; behaviours enumerated by TLC replayed into the code; recorded executions validated by TLC trace specifications"
NOTE = ("TLC explores the specification {} exhaustively within the small constants named in DESIGN.md and checks the "
        "property as invariants of the design; the code is bound to it by replaying the enumerated behaviours and by "
        "validating recorded random executions. Assurance is that of the explored behaviours; trusts TLC, the driver's "
        "projection of floats to rationals and jax's CPU backend. ")

PROPS = [
dict(id="S01", spec="StreamSync", title="Streams are synchronised on the local time causally and completely",
 statement="When a dataset with several time lines is processed on a local time, exactly one result is produced per local observation, in order, and each secondary stream contributes only observations dated strictly before the local time (before the local time floored to the stream's frequency when one is given). The newest such observation is always the one delivered, and a buffered stream delivers its last maxlen such observations, each once, oldest first, padded with the missing marker. A step without new observation repeats the last output if the stream is forward filled and delivers the missing marker otherwise, whatever the other streams do.",
 over=["schedules", "inputs", "configurations"],
 q="every interleaving of sorted time lines (ties, empty intervals, exhausted streams, dates before and after 1970), every mode (buffer length, forward fill, daily frequency) and any number of secondary streams",
 why="stream_test.py replays one fixed dataset with one configuration and pins a handful of rows; interleavings, ties, exhaustion and the other modes are not reached",
 files=["src/wax/stream.py", "src/wax/encode.py", "src/wax/accessors.py"],
 mech=[("merge of the streams", "src/wax/stream.py:Stream.merge"), ("strict comparison", "src/wax/stream.py:timestamp_is_before_local"), ("window", "src/wax/stream.py:tree_buffer_transform")],
 obs=["Stream.trace_dataset", "dataset.wax.stream(...).apply"]),
dict(id="S02", spec="StreamData", title="Values delivered to a module are the dataset's values",
 statement="At each local step the module receives, for every variable, the value stored in the dataset at the observation designated by the synchronisation, whatever the number of dimensions, the type of the variable (float, 32 or 64 bit integer, boolean, date, text) and the way (dataset, data array, data frame, series) the data is accessed; dates and texts are delivered as their codes. A missing observation is delivered as the type's missing marker (NaN, -99999 for integers and text codes, 0 for unsigned and date codes, False for booleans) in all items of the variable and only there. Variables that do not depend on time are delivered unchanged at each step.",
 over=["inputs", "configurations"],
 q="every mix of variables (scalars, time-independent arrays, 1 to 3 dimensional, buffered or not, float, integer, boolean, datetime and string types) and every missing pattern",
 why="tests use one dataset, look at a few values and leave 'TODO: check what is correct' on the shapes",
 files=["src/wax/stream.py", "src/wax/accessors.py"],
 mech=[("index of each variable", "src/wax/stream.py:get_dataset_index"), ("masking", "src/wax/stream.py:access_data")],
 obs=["dataset.wax.stream(...).apply(lambda d: d)"]),
dict(id="U01", spec="Unroll", title="Unrolling equals calling the module step by step (Haiku)",
 statement="Unrolling a stateful transformation over a sequence gives, with the dynamic and with the static implementation alike, exactly the outputs and the final state of calling it step by step from the given (or initial) state with the successive splits of the random key; initialisation does not consume the state. Unrolling a sequence in two parts, the second from the state the first returned, gives the same outputs and state as unrolling it in one go. With skip_first, the first item only initialises and the outputs are those of the remaining items.",
 over=["inputs", "histories", "configurations"],
 q="all sequences (length 1 included), nested inputs and outputs, split points, initial states, random keys, skip_first settings and entry points (unroll, dynamic_unroll, static_unroll, unroll_transform_with_state)",
 why="tests compare one module on one random sequence and never split, resume or use a random module",
 files=["src/wax/unroll.py", "src/wax/transform.py"],
 mech=[("scan", "src/wax/unroll.py:dynamic_unroll"), ("loop", "src/wax/unroll.py:static_unroll")],
 obs=["return values of the unroll functions"]),
dict(id="U02", spec="Unroll", title="Unrolling equals calling the module step by step (Flax)",
 statement="The Flax unroll and scan helpers give exactly the outputs and the final state of applying the module step by step on the successive items from the initial state, statically or dynamically, with skip_first or not. Unrolling in two parts with the carried state equals unrolling in one go. A user's variables are never modified in place.",
 over=["inputs", "histories", "configurations"],
 q="all sequences, split points, initial states and modules with one or more state collections",
 why="tests compare the helpers with each other on a few fixed sequences",
 files=["src/wax/flax/core/unroll.py", "src/wax/flax/core/transform.py", "src/wax/flax/core/state_utils.py"],
 mech=[("scan", "src/wax/flax/core/unroll.py")], obs=["return values of flax_unroll"]),
dict(id="V01", spec="Unroll", title="Lifted and batched transformations equal independent runs",
 statement="Lifting a stateful transformation over a batch axis (vmap lift, batched unroll, batch transform) gives for every batch element exactly the outputs and the state of running the transformation alone on that element. No element's data, state or randomness influences another element.",
 over=["inputs", "configurations"],
 q="all batch sizes, batch axes, sequences and modules (stateful, parametrised, nested)",
 why="tests check shapes or one batch of two; cross-element influence is not looked for",
 files=["src/wax/unroll.py", "src/wax/transform.py", "src/wax/modules/vmap.py", "src/wax/flax/modules/vmap.py"],
 mech=[("vmap lift", "src/wax/modules/vmap.py")], obs=["outputs and states"]),
dict(id="W01", spec="Window", title="Buffer, Lag and Diff deliver exactly the last observations, in order",
 statement="After any number of steps a Buffer returns the last maxlen inputs, oldest first, preceded by the fill value while fewer were seen, and reports their number and position when asked. Lag(n) returns the input seen exactly n steps earlier and the fill value before; Diff(n) returns the difference with it. This holds for scalars, arrays and nested structures, for the Haiku and the Flax implementations.",
 over=["inputs", "histories", "configurations"],
 q="all input sequences of any length relative to maxlen (several wrap-arounds), NaN included, fill values, types and structures",
 why="tests push a handful of increasing values in one or two configurations",
 files=["src/wax/modules/buffer.py", "src/wax/modules/lag.py", "src/wax/modules/diff.py", "src/wax/flax/modules/buffer.py", "src/wax/flax/modules/lag.py", "src/wax/flax/modules/diff.py"],
 mech=[("roll and append", "src/wax/modules/buffer.py:Buffer.__call__")], obs=["outputs at each step"]),
dict(id="W02", spec="Simple", title="Rolling mean, forward fill, returns, change flags and counters follow history",
 statement="At each step RollingMean is the mean of the non missing values among the last `horizon` inputs (missing while fewer than min_periods), Ffill the last finite value seen, PctChange the relative change with respect to the forward filled value `periods` steps earlier, HasChanged whether the input differs from the previous one, Counter the number of calls and FillNanInf the input with NaN and infinities replaced. Items of an array never influence each other.",
 over=["inputs", "histories", "configurations"],
 q="all input sequences with NaN and infinities at any place, windows and options, Haiku and Flax",
 why="tests compare with pandas on one random series without missing values",
 files=["src/wax/modules/rolling_mean.py", "src/wax/modules/ffill.py", "src/wax/modules/pct_change.py", "src/wax/modules/has_changed.py", "src/wax/modules/counter.py", "src/wax/modules/fill_nan_inf.py", "src/wax/flax/modules"],
 mech=[("rolling mean", "src/wax/modules/rolling_mean.py"), ("forward fill", "src/wax/modules/ffill.py")], obs=["outputs at each step"]),
dict(id="E01", spec="Ewm", title="The exponential moving average equals its weighted-history definition",
 statement="At each step EWMA equals the exponentially weighted average of the inputs seen so far: weights (1-alpha)^age renormalised when adjust is on, the recursion started at the first value (or initial_value) otherwise, with missing inputs ignored or aged according to ignore_na. The result is missing exactly while fewer than min_periods values were seen. Items of an array never influence each other; Haiku and Flax agree.",
 over=["inputs", "histories", "configurations"],
 q="all input sequences with missing values at any place and all combinations of adjust (True, False, 'linear'), ignore_na, min_periods and initial_value",
 why="tests compare with pandas on a few series for a few option combinations",
 files=["src/wax/modules/ewma.py", "src/wax/flax/modules/ewma.py"],
 mech=[("recursion", "src/wax/modules/ewma.py:EWMA.__call__")], obs=["outputs at each step"]),
dict(id="E02", spec="Ewm", title="All EWMA front ends agree and can be resumed",
 statement="The numba implementation, the accessors (dataset, data array, data frame, series) and the modules compute the same exponential moving average for the same options and inputs. Running the numba implementation in two parts with the returned state equals running it at once, and a state or an input array passed by the user is never modified.",
 over=["inputs", "histories", "configurations"],
 q="all input sequences, split points and option combinations",
 why="tests compare one front end with pandas on one series; states are resumed once",
 files=["src/wax/numba/ewma_numba.py", "src/wax/accessors.py", "src/wax/modules/ewma.py"],
 mech=[("numba loop", "src/wax/numba/ewma_numba.py"), ("accessor", "src/wax/accessors.py:ExponentialMovingWindow")], obs=["outputs, states, input arrays"]),
dict(id="E03", spec="EwmCov", title="EW variance and covariance equal their weighted-history definition",
 statement="At each step EWMVar is the exponentially weighted variance of the values seen so far (weighted mean of squares minus square of the weighted mean, never negative), and EWMCov the weighted covariance of its two inputs; missing values and min_periods are treated as in EWMA. EWMCov of a series with itself is its EWMVar, and the covariance matrix of vectors has symmetric structure for swapped inputs.",
 over=["inputs", "histories", "configurations"],
 q="all input sequences with missing values and option combinations, Haiku and Flax",
 why="tests compare with pandas on one random series",
 files=["src/wax/modules/ewmvar.py", "src/wax/modules/ewmcov.py", "src/wax/flax/modules/ewmvar.py", "src/wax/flax/modules/ewmcov.py"],
 mech=[("combination of averages", "src/wax/modules/ewmvar.py")], obs=["outputs at each step"]),
dict(id="K01", spec="Ohlc", title="OHLC summarises exactly the observations of the current bin",
 statement="At each step OPEN, HIGH, LOW and CLOSE are the first, maximum, minimum and last non missing values seen since the bin was last opened, and are missing while none was seen. A reset closes the bin at the documented step and nothing seen before it influences the next bin. Items of an array are independent.",
 over=["inputs", "histories", "schedules"],
 q="all input sequences with missing values, all reset patterns (consecutive, never, at the first step)",
 why="tests use two hand-written sequences",
 files=["src/wax/modules/ohlc.py", "src/wax/flax/modules/ohlc.py"],
 mech=[("bin state", "src/wax/modules/ohlc.py")], obs=["outputs at each step"]),
dict(id="C01", spec="Conditional", title="A conditional module updates exactly on its events",
 statement="UpdateOnEvent calls its inner module exactly at the steps where the event occurs: at those steps its output is the inner module's on the sub-sequence of inputs seen at events, at the others it repeats the last output (the initial output before any event) and the inner state does not change. The Flax conditional computation repeats the last computed output when the event does not occur.",
 over=["inputs", "histories", "schedules"],
 q="all event patterns and input sequences, any inner stateful module",
 why="tests use two fixed patterns",
 files=["src/wax/modules/update_on_event.py", "src/wax/flax/core/streaming_transforms.py"],
 mech=[("conditional state update", "src/wax/modules/update_on_event.py")], obs=["outputs at each step"]),
dict(id="M01", spec="Masks", title="Masked statistics use exactly the unmasked items",
 statement="ApplyMask replaces exactly the masked-out items; MaskMean, MaskStd and MaskNormalize compute the mean, the standard deviation and the normalised values of exactly the items selected by the mask along the requested axis. The value of a masked-out item, missing or not, never influences the result.",
 over=["inputs", "configurations"],
 q="all masks (all, none, single item), values with NaN, axes and options, Haiku and Flax",
 why="tests sample a few masks on random arrays",
 files=["src/wax/modules/apply_mask.py", "src/wax/modules/mask_mean.py", "src/wax/modules/mask_std.py", "src/wax/modules/mask_normalize.py", "src/wax/flax/modules"],
 mech=[("masked sums", "src/wax/modules/mask_mean.py")], obs=["outputs"]),
dict(id="A01", spec="Arma", title="ARMA and SNARIMAX use exactly the lagged values they declare",
 statement="ARMA filters noise with its declared coefficients: each output combines the present noise with the lagged noises and the lagged outputs, zero before the start, each lag with the coefficient declared for it (the Haiku module lists coefficients from the oldest lag to the most recent, the Flax module from the most recent), every item of a vector being filtered independently. SNARIMAX presents to its model, at each step, the exogenous inputs, the last errors and the last targets in the declared order (Haiku: exogenous, errors, targets, oldest first; Flax: lagged inputs, lagged errors, present input), and its next state depends on them only.",
 over=["inputs", "histories", "configurations"],
 q="all input sequences and coefficient vectors",
 why="tests check shapes, one simulation and convergence of an estimator",
 files=["src/wax/modules/arma.py", "src/wax/modules/snarimax.py", "src/wax/flax/modules/arma.py", "src/wax/flax/modules/snarimax.py"],
 mech=[("lag buffers", "src/wax/modules/arma.py")], obs=["outputs at each step"]),
dict(id="G01", spec="GymFeedback", title="The agent-environment loop feeds each action to the next step only",
 statement="In a gym feedback loop the environment receives at each step the action the agent produced at the previous step (the initial action at the first), and the agent receives the observation and the reward the environment returns at that step. Rewards, observations and actions returned are those of that step, and skipping or resuming the loop gives the same trajectory.",
 over=["inputs", "histories", "schedules"],
 q="all raw observation sequences, stateful agents and environments, options of the loop, Haiku and Flax",
 why="tests run one agent and one environment and compare the sum of rewards or shapes",
 files=["src/wax/modules/gym_feedback.py", "src/wax/flax/modules/gym_feedback.py"],
 mech=[("action state", "src/wax/modules/gym_feedback.py")], obs=["outputs at each step"]),
dict(id="G02", spec="GymCallbacks", title="Gym unroll drives agent, environment and callbacks in the documented order",
 statement="gym_unroll resets, then alternates agent and environment until the environment is done or a callback asks to stop, and calls each active callback once per phase in the documented order with that step's data. Callbacks are active exactly inside their context (nested, and left through an exception included), and a record holds exactly the steps executed. A progress bar advances once per step of each run and is closed at its end.",
 over=["histories", "schedules", "fault_sequences"],
 q="all nestings of callback contexts, stop steps, episode lengths and exceptions",
 why="tests run one environment with one callback to the end",
 files=["src/wax/gym/gym_unroll.py", "src/wax/gym/callbacks/callbacks.py", "src/wax/gym/callbacks/progressbar.py", "src/wax/gym/callbacks/record.py", "src/wax/gym/agent.py", "src/wax/gym/haiku_env.py"],
 mech=[("active set", "src/wax/gym/callbacks/callbacks.py")], obs=["calls received by callbacks, agents and environments"]),
dict(id="L01", spec="OnlineOpt", title="Online learning makes exactly one optimiser step per observation",
 statement="At each step an online optimiser evaluates the loss with the parameters before the step and applies exactly one optimiser update computed from that step's gradient; parameters declared non trainable and, with NaN gradients, the parameters concerned do not change. The online learner predicts with the parameters learned from strictly earlier observations, and the update functions return the parameters, optimiser state and model state of that update.",
 over=["inputs", "histories", "configurations"],
 q="all observation sequences, trainable partitions, models with parameters and state, optimisers with state, Haiku and Flax",
 why="tests check that the loss decreases or compare one trajectory",
 files=["src/wax/modules/online_optimizer.py", "src/wax/modules/online_supervised_learner.py", "src/wax/modules/optax_optimizer.py", "src/wax/modules/update_params.py", "src/wax/modules/func_optimizer.py", "src/wax/flax/modules"],
 mech=[("one step", "src/wax/modules/online_optimizer.py")], obs=["losses, predictions, parameters at each step"]),
dict(id="L02", spec="Newton", title="The online Newton optimiser keeps the exact inverse of its accumulated matrix",
 statement="After any sequence of gradients the Newton optimiser's preconditioner is the inverse of the regularised accumulated matrix (initial regularisation plus the outer products of the gradients), and each update is minus the preconditioned gradient scaled by the learning rate. Parameters of different leaves are treated as documented.",
 over=["inputs", "histories"], q="all gradient sequences, dimensions and hyper-parameters",
 why="the test compares one trajectory on a toy problem",
 files=["src/wax/optim/newton.py"], mech=[("rank-one update", "src/wax/optim/newton.py")], obs=["updates"]),
dict(id="N01", spec="Encode", title="Integer and date encodings are lossless and order preserving",
 statement="Encoding a 64-bit integer, a timestamp, a datetime or a datetime64 in two 32-bit words and decoding it gives it back, for the whole range. Comparing encoded dates gives the order of the dates and flooring an encoded date to the day gives the encoding of the floored date, before and after 1970.",
 over=["inputs"], q="the whole 64-bit range, word boundaries and signs",
 why="tests round-trip today's date and a few constants",
 files=["src/wax/encode.py"], mech=[("two words", "src/wax/encode.py:encode_int64"), ("order", "src/wax/encode.py:less")], obs=["return values"]),
dict(id="N02", spec="Codec", title="Dataset encoders round-trip every encoded variable",
 statement="Encoding a dataset's string and datetime variables and decoding the result gives the original values, shapes included; equal values get equal codes and distinct values distinct codes. Variables without encoder pass unchanged.",
 over=["inputs", "configurations"], q="all string and date arrays, duplicates, shapes and mixes of variables",
 why="tests round-trip one dataset", files=["src/wax/encode.py", "src/wax/stream.py"],
 mech=[("label encoder", "src/wax/encode.py:string_encoder")], obs=["return values"]),
dict(id="F01", spec="Accessor", title="All containers give the same values with the right coordinates",
 statement="Applying a module through the accessors of a Dataset, DataArray, DataFrame (also with multi-indexed rows or columns) or Series gives the values of unrolling it on the underlying array, labelled with the time labels and the coordinates of the dimensions of the input, in the dimension order of the input, whatever the nesting of the outputs (tuples, lists, mappings). Dims given with format_dims, for all outputs together or output by output, label the outputs of another shape. With skip_first the first step and its label are left out. A returned state passed to a further call on the following rows resumes the computation exactly; the container and the given state are not modified. Arrays formatted after a reference dataset get the leading dims and coordinates of the first variable of which they have the leading shape, and are returned as they are when there is none.",
 over=["inputs", "histories", "configurations"], q="all containers, dimension layouts, output structures, split points",
 why="tests apply one module to one dataset per container", files=["src/wax/accessors.py", "src/wax/format.py"],
 mech=[("format", "src/wax/format.py")], obs=["return values of apply"]),
dict(id="T01", spec="StreamScan", title="Flax streaming transforms thread state exactly",
 statement="The streaming transform, scan and optimizer helpers thread the state from one item to the next, in order and exactly once, and reset it exactly at the reset events. Their results equal applying the function item by item.",
 over=["inputs", "histories", "schedules"], q="all sequences, reset patterns, split points",
 why="tests run a few fixed sequences", files=["src/wax/flax/core/streaming_transforms.py"],
 mech=[("scan", "src/wax/flax/core/streaming_transforms.py")], obs=["outputs and states"]),
dict(id="T02", spec="CompressedBuffer", title="Compressed and hierarchical buffers keep their documented summary",
 statement="A compressed buffer returns at each step the summary its compression documents of exactly the inputs recorded so far, each once: the last ones, one of every factor-th, their quantiles (refreshed every 10 inputs, missing ones left out), their exponential mean, the smallest counts of the sketch. A hierarchical buffer keeps every input in its recent level, every 5th in the medium one and every 50th in the long one, and returns the current summary of each level at every step, in order. The sizes they report are those of what they keep; the decorators hand the same summaries to the function.",
 over=["inputs", "histories", "configurations"], q="all sequences and compression settings",
 why="tests check shapes and simple means", files=["src/wax/flax/modules/compressed_buffer.py"],
 mech=[("compression", "src/wax/flax/modules/compressed_buffer.py")], obs=["outputs at each step"]),
dict(id="T03", spec="StatePatterns", title="Composed states run in dependency order and keep bounded history",
 statement="A hierarchical state machine runs each component exactly once per step on the inputs of the step, after the components it depends on (circular dependencies and absent names leave the order free), keeps the other components running when one fails, and answers what they answered, blended under hierarchical coordination with the answers of every higher level only; a composite chains its components in declaration order as its strategy says; the attention selector attends to, and returns, exactly the last max_history embeddings before the current step, oldest first.",
 over=["inputs", "histories", "configurations"], q="all acyclic dependency graphs, influence maps and sequences",
 why="tests use two or three components", files=["src/wax/flax/core/advanced_state_patterns.py"],
 mech=[("execution order", "src/wax/flax/core/advanced_state_patterns.py")], obs=["outputs and states"]),
dict(id="D01", spec="Debugger", title="The debugger never changes results and accounts for every step",
 statement="Wrapping a transformation with the debugging decorator returns the results and states of the bare transformation. While enabled the debugger counts every step, keeps copies of exactly the last max_history states, and asks each enabled hook once per step: it triggers exactly when its condition holds for that step (a state change detector compares with the last value it reported, a performance monitor looks at the time of this step), counts the trigger and keeps the last max_events events with the data of their step. Disabled it does nothing. Its summary and export show what was kept.",
 over=["histories", "configurations", "schedules"], q="all sequences of steps, hooks, enabling, disabling and clearing; concurrent steps",
 why="tests check one sequence per feature", files=["src/wax/flax/debug/debugger.py"],
 mech=[("history", "src/wax/flax/debug/debugger.py"), ("hooks", "src/wax/flax/debug/debugger.py")], obs=["debugger reports"]),
dict(id="D02", spec="Profiler", title="The profiler records every measured call once and sums up what it kept",
 statement="The profiler records exactly the calls, blocks and metrics measured while it is enabled, each once and in the order they ended, with their own duration, data sizes, memory and change of memory since the previous record, and keeps the last max_history of them. Every statistic, module summary, bottleneck, memory leak and recommendation equals the documented aggregate of the records, and finished profiles never change afterwards. The profiling decorator returns the results of the bare transformation.",
 over=["histories", "configurations", "schedules"], q="all sequences of records, measured blocks (nested, failing), calls, switching and resetting; concurrent records",
 why="tests check that some numbers are positive", files=["src/wax/flax/debug/profiler.py"],
 mech=[("records", "src/wax/flax/debug/profiler.py"), ("summaries", "src/wax/flax/debug/profiler.py")], obs=["finalize, get_summary, get_module_summary, detect_memory_leaks"]),
dict(id="D03", spec="Tracker", title="The memory tracker keeps every due snapshot and reports steady growth",
 statement="While enabled the memory tracker counts every request and takes a snapshot at every snapshot_interval-th one and whenever forced, with the memory of the process, its change since the previous snapshot and the bytes of the state's parameters, buffers and other variables; it keeps the last max_snapshots. A leak is recorded exactly when, over the last ten snapshots, memory grew by more than the threshold and faster per step than a hundredth of it, with its rate, total, steps and severity. Its summaries equal the aggregates of the kept snapshots. The tracking decorator asks once before and once after each call and returns the results of the bare transformation.",
 over=["histories", "configurations", "schedules"], q="all sequences of requests, calls, switching and resetting; concurrent requests",
 why="tests check that some numbers are positive", files=["src/wax/flax/debug/memory_tracker.py"],
 mech=[("snapshots", "src/wax/flax/debug/memory_tracker.py"), ("leaks", "src/wax/flax/debug/memory_tracker.py")], obs=["take_snapshot, get_memory_summary, get_module_memory_analysis, detected_leaks"]),
dict(id="D04", spec="Dashboard", title="The data-flow tracker and dashboard show exactly the latest records",
 statement="Each registered pipeline has its own data-flow tracker: every recorded value is kept with the step, module, kind and elapsed time it was recorded at, the last max points in total and per module, oldest first, and no operation on one pipeline changes another. Asking for the last n points gives exactly the last n. A recorded execution time or memory use adds to the pipeline's metrics and raises an alert exactly when alerts are on and the threshold is exceeded; the dashboard keeps the last hundred alerts. What the dashboard serves (pipelines, data of a pipeline, metrics, alerts) equals those records with their values in full, or summarised when large, and each point and alert is sent once to the connected clients. The text and the curves show the latest points. Recording does not change the outputs of the tracked module.",
 over=["histories", "configurations", "inputs"], q="all sequences of registering, recording, stepping, clearing, connecting, subscribing and drawing on several pipelines, all kinds of values",
 why="tests record one or two values and check that something is there", files=["src/wax/flax/visualization/data_flow_visualizer.py", "src/wax/flax/visualization/interactive_dashboard.py"],
 mech=[("tracker", "src/wax/flax/visualization/data_flow_visualizer.py:DataFlowTracker"), ("dashboard", "src/wax/flax/visualization/interactive_dashboard.py")], obs=["get_recent_data, get_module_data, the dashboard's routes and emitted events, plots"]),
dict(id="D05", spec="PipelineGraph", title="Pipeline graphs keep every module and nest them as a forest",
 statement="Analysing a pipeline gives one node for each module that holds parameters of its own, at any depth, plus one for the function itself, and one edge from each such module to each such module directly inside it. In the nested view each node is at most once under another node: under the module that holds it, else under a module container whose name followed by a separator begins its own (a module numbered 10 is never inside the one numbered 1); its level is that of its parent plus one, and the parents form a forest. With automatic clustering on, the roots of a type that are at least the minimum number are gathered in one cluster, and no others. Every rendering (dot, page, cytoscape, d3, graphviz) and the summary show exactly these nodes, links, clusters and counts, whatever was shown before. Nodes and edges added by hand are all drawn; a node added again replaces the former.",
 over=["inputs", "configurations", "histories"], q="all trees of modules of any names, kinds and depth (Flax modules or init/apply objects), all clustering settings, all sequences of additions",
 why="tests draw two or three fixed modules and check that a word is in the text", files=["src/wax/flax/visualization/computation_graph.py", "src/wax/flax/visualization/nested_graph_viz.py"],
 mech=[("modules", "src/wax/flax/visualization/computation_graph.py:ComputationGraphRenderer._extract_modules_from_params"), ("nesting", "src/wax/flax/visualization/nested_graph_viz.py:HierarchicalGraphAnalyzer")],
 obs=["render_pipeline_graph (dot, html)", "NestedGraphVisualizer.get_hierarchy_summary", "visualize_nested_graph (cytoscape, d3, graphviz)"]),
]
