import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p("P01","A set-up model evaluates exactly the equations the user declared",
"For every continuous or discrete model, whatever the order in which variables, right-hand sides, algebraic equations, measurements and auxiliary expressions were declared and whatever the shapes of the variables, the finished model evaluates each of them to the value of the user's expression, with process noise added to exactly the noisy right-hand sides and measurement noise to exactly the noisy measurements. If no measurement is declared all states are measured, SX and MX models agree, and expressions built from variables obtained before or after the model was finished mean the same thing. A model that was pickled and loaded again evaluates identically.",
["programs","inputs","configurations"],"all model declarations (variable types, shapes, orders, noise flags, symbol types) and all numerical arguments",
"The tests build a dozen fixed example models and compare one closed-loop trajectory; no test permutes declaration order, uses vector-valued algebraic states, noise flags or MX with the same model, or evaluates away from the trajectory.",
["do_mpc/model/_model.py","do_mpc/model/_iteratedvariables.py","do_mpc/tools/_casstructure.py"],
[("symbol substitution on setup","do_mpc/model/_model.py:setup,_substitute_struct_vars,_substitute_exported_vars"),("noise augmentation","do_mpc/model/_model.py:set_rhs,set_meas"),("pickle support","do_mpc/model/_model.py:__getstate__,__setstate__")],
["compiled model functions","model variable/expression queries","simulator one-step output"])

p("P02","Linearisation and linear models are exact first-order and sampled models",
"The system matrices returned for an operating point are the Jacobians of the model's state and measurement equations there, and linearising a model yields a linear model that reproduces the first-order expansion in deviation variables, with the variables of the original model. Discretising a continuous linear model with a sample time yields the sampled-data system of the requested conversion method (by default the exact zero-order-hold system with the same output equation), and the reported steady state is an equilibrium of the linear model for the given input.",
["programs","inputs","configurations"],"all models, operating points, parameters, system matrices (including singular ones), sample times",
"The tests run two fixed LQR examples; a wrong entry for another dimension, a feed-through matrix, a parameter-dependent Jacobian or another sample time is never seen.",
["do_mpc/model/_linearize.py","do_mpc/model/_linearmodel.py","do_mpc/model/_model.py"],
[("linearise","do_mpc/model/_linearize.py:linearize"),("discretise","do_mpc/model/_linearmodel.py:discretize"),("steady state","do_mpc/model/_linearmodel.py:get_steady_state"),("Jacobians","do_mpc/model/_model.py:get_linear_system_matrices")],
["returned matrices","LinearModel.sys_A.. and its model functions"])

p("P03","Converting a DAE model to an ODE model preserves its trajectories",
"The ordinary-differential (or explicit discrete) model obtained from a model with algebraic equations has the same states, inputs and parameters plus the algebraic variables as additional states and the input rate or next input as described. Started from a consistent point and driven by the same input signal it follows the same state and algebraic trajectories and the algebraic equations stay satisfied along it. For discrete models this is required where the algebraic equations are affine in the algebraic variables (otherwise no explicit map exists); parameters are constant along the trajectory.",
["programs","inputs"],"all index-1 DAE models and consistent initial points",
"One test converts a single batch-reactor DAE and checks the LQR trajectory.",
["do_mpc/model/_dae2odeconversion.py"],[("implicit differentiation of the algebraic equations","do_mpc/model/_dae2odeconversion.py:dae2odeconversion")],["converted model functions vs. finite differences of the original DAE solution"])

p("P04","Each simulator step is the true solution of the model over one sample",
"Every simulator step advances the state to the solution of the model equations after one sample time, with the given input, process noise and the time-varying and other parameters current at that step's time held over the sample, and it returns the measurement equation evaluated at the end of the step including the given measurement noise; for a discrete model this is one exact application of the right-hand side. Algebraic variables satisfy the algebraic equations. Time advances by exactly one sample per step and each step is recorded once.",
["programs","histories","inputs","configurations"],"all models (ODE, DAE, discrete, with parameters, noise), step sequences, integrators and sample times",
"Tests replay a single trajectory of each example with default noise and parameters; step-dependent parameters, noise injection, algebraic states and changed initial conditions between steps are not exercised.",
["do_mpc/simulator.py"],[("integrator set-up and call","do_mpc/simulator.py:setup,simulate"),("parameter/tvp/noise forwarding","do_mpc/simulator.py:make_step")],["make_step return value","recorded simulator data","simulator state after the step"],
[("x0,z0,t0","current simulator state and time","do_mpc/simulator.py")])

p("P05","The MPC objective is the documented scenario-weighted cost",
"For every configuration the cost that the controller minimises equals, in physical units, the scenario-weighted sum of the user's stage cost over all predicted stages plus the user's terminal cost at the last predicted states, plus the input-change penalty (relative to the previously applied input at the first stage and to the preceding input on the same branch afterwards) and the penalties of the soft-constraint slacks (input-change and slack penalties are summed over all branches). Algebraic variables enter at the beginning of each interval. Every term is evaluated with the time-varying parameters of its own stage and the uncertain-parameter value of its own branch. It does not depend on the variable scaling, except that the built-in quadratic input-change penalty acts on scaled inputs.",
["configurations","inputs","programs"],"all models, horizons, scenario trees, penalty settings, scaling, trajectories and parameter values",
"Tests run a few fixed controllers at their nominal settings; horizon/robust-horizon combinations, time-varying costs, custom input-change penalties and multi-branch weights are not compared with any reference.",
["do_mpc/controller/_mpc.py","do_mpc/optimizer.py"],[("objective assembly","do_mpc/controller/_mpc.py:_prepare_nlp"),("scenario tree","do_mpc/optimizer.py:_setup_scenario_tree"),("rterm/objective setters","do_mpc/controller/_mpc.py:set_objective,set_rterm")],["objective of the generated optimisation problem evaluated at arbitrary points"])

p("P06","The MPC constraints admit exactly the documented predicted trajectories",
"A predicted trajectory satisfies the generated optimisation problem if and only if it starts at the supplied state, follows the model on every branch of the scenario tree (exactly for discrete models, by orthogonal collocation of the chosen type, degree and element number for continuous ones), shares inputs between branches that share information, and respects the state, input, algebraic, terminal and nonlinear constraints and slack limits at all documented stages. Each stage uses its own time-varying parameters and each branch its own uncertain-parameter value. Scaling does not change the set of admissible trajectories.",
["configurations","inputs","programs"],"all models, discretisation settings, scenario trees, bounds and constraints, candidate trajectories",
"A missing or shifted constraint normally leaves the one tested trajectory unchanged because the constraint is inactive there; tests only see the closed loop of fixed set-ups.",
["do_mpc/controller/_mpc.py","do_mpc/optimizer.py"],[("discretisation","do_mpc/optimizer.py:_setup_discretization"),("scenario tree","do_mpc/optimizer.py:_setup_scenario_tree"),("constraint assembly and variable bounds","do_mpc/controller/_mpc.py:_prepare_nlp,_update_bounds"),("nonlinear/soft constraints","do_mpc/optimizer.py:set_nl_cons,_setup_nl_cons")],["constraint functions and bounds of the generated problem at reference-simulated and perturbed trajectories"])

p("P07","Every MPC step solves the current problem and returns its first input",
"At every control step, in any history of steps, bound changes, restarts and changed parameter functions, the returned input is the first input of a solution of the problem defined by the state just passed in, the previously returned input, the controller's current time, and the parameter functions evaluated at that time; time then advances by exactly one sample. When the solver reports success, the solution is feasible for the bounds in force at that moment and no reference solver finds a feasible solution with noticeably lower cost on a convex problem.",
["histories","configurations","inputs"],"all histories of control steps, resets, bound edits, and parameter functions",
"Tests run one fixed loop of 5-10 steps with constant parameters and no bound changes after set-up.",
["do_mpc/controller/_mpc.py","do_mpc/optimizer.py"],[("parameter assignment and solution extraction","do_mpc/controller/_mpc.py:make_step"),("solver call and warm start","do_mpc/optimizer.py:solve"),("bounds after setup","do_mpc/optimizer.py:bounds,_update_bounds")],["make_step argument and return value","solver input/output","recorded data"],
[("u0,t0,opt_p_num","previous input, time, problem parameters","do_mpc/controller/_mpc.py")])

p("P08","Scaling, symbol type and problem set-up route do not change results",
"Two controllers or estimators that differ only in the scaling of variables, in SX versus MX symbols, in the order in which equivalent options were set, in one-call versus two-stage set-up, or in being set up a second time produce the same inputs and estimates and the same recorded predictions in physical units, up to solver tolerance (the built-in quadratic input-change weight, which acts on scaled inputs, being converted accordingly).",
["configurations","histories","inputs"],"all pairs of equivalent configurations and closed-loop histories",
"A relational property over pairs of runs; tests run each example once in one configuration.",
["do_mpc/optimizer.py","do_mpc/controller/_mpc.py","do_mpc/estimator/_mhe.py"],[("scaling of variables and bounds","do_mpc/optimizer.py:scaling,lb_opt_x,ub_opt_x,opt_x_num_unscaled"),("prepare/create split","do_mpc/optimizer.py:prepare_nlp,create_nlp"),("scaled parameter use in estimator","do_mpc/estimator/_mhe.py:_prepare_nlp")],["make_step outputs and recorded predictions of paired runs"])

p("P09","The MHE problem is the documented estimation problem",
"For every configuration the cost and constraints the estimator generates equal, in physical units, the arrival cost on the first state and the estimated parameters relative to their previous estimates, the stage cost of the measurement and process noise at every point of the horizon, the measurement equation tied to the measurement of the same instant, the model dynamics with additive process noise over every interval, and the user's bounds and nonlinear constraints. Noise variables exist only where noise was declared, and each stage uses its own time-varying parameters.",
["configurations","inputs","programs"],"all models, noise declarations, estimated-parameter subsets, horizons, weights, scaling and candidate trajectories",
"Only one example (rotating masses) exercises the estimator, with unit scaling and inactive constraints.",
["do_mpc/estimator/_mhe.py","do_mpc/optimizer.py"],[("problem assembly","do_mpc/estimator/_mhe.py:_prepare_nlp"),("objective","do_mpc/estimator/_mhe.py:set_objective,set_default_objective"),("parameter concatenation","do_mpc/estimator/_mhe.py:_p_cat_fun")],["objective and constraints of the generated problem evaluated at arbitrary points"])

p("P10","MHE uses exactly the recent measurement window and returns the newest state",
"In every history of estimator steps the estimator uses the last measurements up to its horizon length in their order, including the one just passed in, returns the estimated state at the time of that newest measurement, carries the estimated state and parameters forward as the next arrival point, and advances time by one sample. Until enough measurements exist the window is filled up with the oldest one. With noise-free measurements filling the window of an observable system and an arrival point (or zero arrival weight) that agrees with the truth, the returned states and parameters equal the true ones, and estimates respect the bounds.",
["histories","inputs","configurations"],"all measurement histories, including shorter than the horizon, and parameter functions",
"One fixed closed loop with a stored reference trajectory; windows shorter than the horizon and true-state recovery are not asserted.",
["do_mpc/estimator/_mhe.py"],[("window assembly and step","do_mpc/estimator/_mhe.py:make_step,get_y_template,set_y_fun"),("bounds","do_mpc/estimator/_mhe.py:_update_bounds")],["make_step arguments and returns","recorded data","solver inputs"])

p("P11","LQR feedback is the optimal linear-quadratic law",
"For every stabilisable linear system, weights and horizon the computed gain minimises the infinite- or finite-horizon quadratic cost, including the cost on input changes when the input-rate mode is chosen, and the returned input is the set-point input plus the gain applied to the deviation from the set point. In the input-rate mode the previously applied input is taken into account and successive set-point changes behave as if the controller had been configured with them from the start.",
["configurations","inputs","histories"],"all linear systems, weights, horizons, set-point change histories",
"Three fixed LQR examples with one set point each.",
["do_mpc/controller/_lqr.py"],[("discrete gain","do_mpc/controller/_lqr.py:discrete_gain"),("rate mode","do_mpc/controller/_lqr.py:set_rterm,convertSSA"),("control law","do_mpc/controller/_lqr.py:make_step,set_setpoint")],["computed gain","make_step outputs over histories"])

p("P12","Recorded data are complete, faithful and queried consistently",
"After any history of steps the record of controller, estimator and simulator holds exactly one entry per step in order, whose time, states, inputs, algebraic variables, parameters and auxiliary values are those that were used or produced in that step, and clearing the history leaves an empty record. Querying by variable name and element returns the columns of exactly that variable, however often and in whatever order queries are made, and a prediction query returns for each scenario the predicted sequence of that variable along that scenario of the stored solution.",
["histories","inputs","configurations"],"all step/reset/query histories, variable shapes, scenario trees",
"Tests compare a few whole arrays of the example runs; queries by element, repeated or interleaved queries, vector-valued variables and multi-scenario predictions are not asserted.",
["do_mpc/data.py","do_mpc/controller/_mpc.py","do_mpc/simulator.py","do_mpc/estimator/_mhe.py"],[("append","do_mpc/data.py:update"),("query with cache","do_mpc/data.py:__getitem__"),("prediction","do_mpc/data.py:prediction"),("reset","do_mpc/optimizer.py:reset_history")],["data arrays and queries"])

p("P13","Saved results load back unchanged and never overwrite earlier ones",
"Saving any subset of controller, estimator and simulator results and loading the file returns objects whose arrays, queries and predictions equal the originals at the time of saving. Unless overwriting is requested, no existing results file is ever changed: a new, previously unused name is chosen, whatever files already exist in the target folder.",
["histories","configurations","fault_sequences"],"all save/load sequences, file-name collisions, folder states",
"One test saves once and loads once.",
["do_mpc/data.py"],[("save","do_mpc/data.py:save_results"),("load","do_mpc/data.py:load_results"),("pickle support of data","do_mpc/data.py:__getstate__/__setstate__")],["files on disk","loaded objects"])

p("P14","A sampling plan holds exactly the requested cases with unique ids",
"For any history of declared variables, random generations, products and manual additions, every case in the plan assigns a value to every declared variable, a product contains every combination of the given values exactly once, random cases come from the declared generators, ids are unique and stable, and exporting and importing a plan preserves it. An existing exported plan is not overwritten unless requested.",
["histories","inputs"],"all sequences of plan-building calls and variable declarations",
"Tests cover two fixed plans.",
["do_mpc/sampling/_samplingplanner.py"],[("plan building","do_mpc/sampling/_samplingplanner.py:gen_sampling_plan,add_sampling_case,product"),("export","do_mpc/sampling/_samplingplanner.py:export")],["returned plan","exported file"])

p("P15","The sampler produces each sample exactly once across restarts and crashes",
"For any partition of the plan over runs, restarts, single-index calls and parallel workers, after the plan was processed there is one stored result per case, computed by the user's function called with exactly that case's values, and post-processed data files carry the case's id. Existing results are not recomputed or altered unless overwriting is requested, and a run killed at any point loses no completed result and leaves nothing that a later run would mistake for a completed result.",
["histories","crash_points","schedules","configurations"],"all restart/kill points, partitions of the plan over processes, save formats",
"Tests run one uninterrupted sampling per format.",
["do_mpc/sampling/_sampler.py","do_mpc/tools/__init__.py"],[("per-sample loop with existence check","do_mpc/sampling/_sampler.py:sample_data,sample_idx,_save")],["files in the data folder","calls of the user's sample function"])

p("P16","The data handler returns exactly the results of the selected cases",
"For any plan, stored results and post-processing functions, filtering returns exactly the cases for which the filter condition on inputs and outputs holds, indexing returns exactly the cases selected by the index, and each returned entry combines the case's own inputs, its stored result and the post-processing functions applied to them. Results do not depend on the order of earlier queries, on whether results were read before, or on later changes of the folder, name or format settings.",
["histories","inputs","configurations"],"all query histories, filters, index types, missing results",
"Tests query one complete data set once.",
["do_mpc/sampling/_datahandler.py"],[("query","do_mpc/sampling/_datahandler.py:__getitem__,filter"),("lazy loading","do_mpc/sampling/_datahandler.py:_lazy_loading"),("post-processing","do_mpc/sampling/_datahandler.py:set_post_processing,_post_process_single")],["returned dictionaries"])

p("P17","Parametric sensitivities equal the true derivative of the solution",
"At a regular solution (unique multipliers, strict complementarity) the derivative of the optimal variables and multipliers with respect to the problem parameters that the differentiator returns equals the derivative of the re-solved optimum, for every combination of scaling, linear solver, reduction of undetermined variables and multiplier options, for stand-alone problems and controllers. Where regularity fails the returned status says so.",
["inputs","configurations","programs"],"all parametric problems, active sets, scalings, settings, controllers",
"There is no stable test for the differentiator at all (only an example script).",
["do_mpc/differentiator/_nlpdifferentiator.py","do_mpc/differentiator/helper.py"],[("KKT system","do_mpc/differentiator/_nlpdifferentiator.py:_prepare_sensitivity_matrices,_get_sensitivity_matrices"),("active set","do_mpc/differentiator/_nlpdifferentiator.py:_get_active_constraints"),("reduction and scaling","do_mpc/differentiator/_nlpdifferentiator.py:_remove_unused_sym_vars,differentiate")],["differentiate() output vs. finite differences of re-solved problems"])

p("P18","A converted ONNX network computes the network's function",
"For every ONNX graph made of supported operations, the converted expression of every node evaluates, for every input and for numeric and symbolic inputs alike, to the value the ONNX operator definitions give for that node. Converting again with other inputs gives the values for the new inputs, and unsupported operations and wrong input names or counts are rejected instead of mis-evaluated.",
["programs","inputs"],"all graphs of supported operators (shapes, attributes), all inputs",
"The repository's ONNX test is an empty assertion.",
["do_mpc/sysid/_onnxconversion.py"],[("graph walk","do_mpc/sysid/_onnxconversion.py:convert"),("operator table","do_mpc/sysid/_onnxconversion.py:ONNXOperations")],["converter[node] values vs. the onnx reference evaluator"])

p("P19","The OPC UA layer carries values unchanged between server and clients",
"Every named scalar variable of a model gets its own writable node, distinct between variable types; writing a vector to a list of tags and reading the same tags returns the same numbers in the same order, wrong lengths and types are refused before anything is written, and a networked step reads its inputs from the read tags, performs exactly one step of the wrapped object and writes its output to the write tags. The server listens on the configured port. Asynchronous steps of one object never overlap, each writes its result once, and none begins after the operation was stopped. A loop of a controller and a simulator coupled through the server follows the directly coupled loop.",
["histories","schedules","configurations"],"all models, tag assignments, step interleavings of clients on a live server",
"There is no test of the OPC UA package.",
["do_mpc/opcua/_base.py","do_mpc/opcua/_client.py","do_mpc/opcua/_server.py","do_mpc/opcua/_helper.py"],[("namespace generation","do_mpc/opcua/_base.py:namespace_from_model"),("node creation","do_mpc/opcua/_server.py:namespace_from_client"),("read/write/step","do_mpc/opcua/_base.py:make_step,read_from_tags,write_to_tags")],["values on the loopback server"])

p("P20","Plots show exactly the recorded and predicted data",
"Every result line shows the recorded values of its variable against recorded time up to the requested time index, every prediction line shows the stored prediction of its variable, element and scenario at the requested time index on a time axis starting there with the controller's sample time, and line queries by type, name, element and scenario return exactly those lines. A default plot shows every requested variable on its own axis in the documented order, an animation shows for each frame the record up to that frame (and its prediction), for data with and without stored predictions, and does not replace an existing file unless asked to. Nested indexed containers used for this return the stored elements for every full, partial and sliced index.",
["histories","configurations","inputs"],"all data objects, variable shapes, scenario counts, time indices, index patterns",
"No test touches the graphics package.",
["do_mpc/graphics.py","do_mpc/tools/_structure.py","do_mpc/data.py"],[("line data","do_mpc/graphics.py:plot_results,plot_predictions,add_line"),("nested structure","do_mpc/tools/_structure.py")],["matplotlib line data"])

p("P21","Invalid configuration and input is refused, never silently misused",
"Undeclared names, duplicate names, wrong shapes and types, crossed bounds, missing mandatory settings, incomplete models, parameter functions of the wrong structure, foreign symbols, and calls made before set-up or forbidden after it raise an error: at the offending call or, where only the whole configuration can be judged, at the latest at set-up or first use. A refused call changes nothing: the object then behaves exactly as if the call had not been made, also when the refusal comes from a failing user function, and a refused set-up of an incomplete model can be completed. A change made between the two stages of the set-up is either in force afterwards or refused.",
["inputs","histories","configurations"],"all invalid calls at all life-cycle stages",
"Tests contain no negative cases.",
["do_mpc/model/_model.py","do_mpc/optimizer.py","do_mpc/controller/_mpc.py","do_mpc/estimator/_mhe.py","do_mpc/simulator.py","do_mpc/model/_iteratedvariables.py"],[("argument checks","assert/raise statements of public methods"),("validity check at setup","do_mpc/controller/_mpc.py:_check_validity, do_mpc/model/_model.py:setup")],["exceptions and subsequent behaviour"])

p("P22","Objects are independent of each other and runs are repeatable",
"Creating, configuring, stepping or resetting one model, controller, estimator, simulator, planner or data object, in any interleaving or thread, never changes the behaviour or settings of another one, also when they share a model. Resetting history, time, initial values and initial guess and repeating the same calls reproduces the same results, and arrays and templates passed in or returned are not altered by later steps except where documented as live.",
["schedules","histories","configurations"],"all interleavings of operations on several objects and all restart points",
"Tests use one object of each kind in one fixed order.",
["do_mpc/tools/_indexedproperty.py","do_mpc/simulator.py","do_mpc/optimizer.py","do_mpc/model/_iteratedvariables.py"],[("indexed properties","do_mpc/tools/_indexedproperty.py"),("settings objects","do_mpc/simulator.py, do_mpc/controller/_controllersettings.py"),("reset","do_mpc/optimizer.py:reset_history")],["paired runs: alone vs. interleaved"])
p("P23","What a controller plans and an estimator infers is what the simulator does",
"For one model given to several components, a converged solution is a real trajectory of the model: replaying the planned inputs of any scenario through a simulator with that scenario's parameters (uncertain and time-varying, by absolute time) passes through the planned states, up to the discretisation error; in closed loop with matching parameters and no noise every new simulator state is the one the controller predicted and the clocks agree; and replaying an estimation window (first estimated state, estimated noise and parameters, recorded inputs) gives the estimated states and, with the estimated measurement error, the measurements that were supplied.",
["inputs","configurations","histories"],"all models, horizons, scenario trees, scalings, parameter functions of time and lengths of run",
"Tests run controller, estimator and simulator together and compare with stored trajectories of a few examples; a consistent shift between the components would be stored with them.",
["do_mpc/controller/_mpc.py","do_mpc/estimator/_mhe.py","do_mpc/simulator.py","do_mpc/optimizer.py"],[("discretisation","do_mpc/optimizer.py:_setup_discretization"),("MPC problem","do_mpc/controller/_mpc.py:_prepare_nlp"),("MHE problem","do_mpc/estimator/_mhe.py:_prepare_nlp"),("simulator step","do_mpc/simulator.py:make_step")],["replay of plans and windows through the simulator"])
p("P24","Every documented option is in force as configured, or at its default",
"An option of a controller, estimator, simulator, planner, sampler or data handler has the documented effect by whatever route and in whatever order it was given (attribute, set_param in one or several calls, settings object, dictionaries changed in place, convenience methods), and leaving it out is the same as giving its documented default. The options of the optimisation solver and of the integrator arrive there completely and unchanged: none is lost, altered, or added by suppressing the output or choosing the linear solver, and the solver is silent exactly when its output was suppressed. Initial values of states, inputs, algebraic states and estimated parameters have the same effect by whatever route they were given (array, structure, single entries).",
["configurations","histories","inputs"],"all subsets, values, orders and routes of options",
"Tests configure every object in one way and compare trajectories that most options hardly influence.",
["do_mpc/controller/_controllersettings.py","do_mpc/estimator/_estimatorsettings.py","do_mpc/simulator.py","do_mpc/controller/_mpc.py","do_mpc/estimator/_mhe.py","do_mpc/sampling/_sampler.py"],[("settings","do_mpc/controller/_controllersettings.py, do_mpc/estimator/_estimatorsettings.py, do_mpc/simulator.py:ContinousSimulatorSettings"),("set_param","do_mpc/controller/_mpc.py:set_param, do_mpc/estimator/_mhe.py:set_param, do_mpc/simulator.py:set_param"),("solver creation","do_mpc/controller/_mpc.py:_create_nlp, do_mpc/estimator/_mhe.py:_create_nlp, do_mpc/simulator.py:setup")],["option list printed by the solver, its statistics and output, twin objects"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,sch)
    assert len(d['title'])<=80,(d['id'],len(d['title']))
print(len(P))
