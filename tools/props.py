"""Source of properties.jsonl (python3 tools/props.py rewrites it)."""
import json, os
S="lumos/optimal_control/scaled_mesh_ocp.py"; F="lumos/optimal_control/fixed_mesh_ocp.py"; N="lumos/optimal_control/nlp.py"
U="lumos/optimal_control/utils.py"; C="lumos/optimal_control/convolution.py"; B="lumos/models/base.py"; M="lumos/models/composition.py"
T="lumos/models/tree_utils.py"; NU="lumos/numpy/utils.py"; NI="lumos/numpy/__init__.py"; L="lumos/simulations/laptime_simulation.py"
D="lumos/simulations/drone_simulation.py"; G="lumos/optimal_control/config.py"; TR="lumos/optimal_control/transcription.py"; MS="lumos/optimal_control/model_solver.py"
K="lumos/models/tracks.py"; V="lumos/models/vehicles/simple_vehicle.py"; KI="lumos/models/kinematics.py"; DM="lumos/models/drone_model.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))

p("C01","Backend selection is scoped and restored",
"Selecting a numerical backend for a scope (as a context or as a decorator, nested, re-entered or reused later) always puts back, on normal exit and on an exception alike, the backend that was in force when that scope was entered. Library code never changes the backend other than through such a scope, an unknown backend name leaves the selection unchanged, and each backend name dispatches to its own array library.",
["histories","fault_sequences","programs"],"every nesting/reuse/exception history of scopes and every call into the library",
"Tests enter a scope once, leave it normally and from the default backend.",[NU,NI],[("scope manager",NU+":use_backend"),("dispatch",NI+":__getattr__,set_backend")],["lnp.get_backend()"])
p("C02","Scaling never changes what constraints and objectives mean",
"For any variable scales and constraint scales, the scaled value, gradient, jacobian and hessian entries of every constraint and objective are exactly the chain-rule transforms of the unscaled functions evaluated at the unscaled variables. This stays true after any sequence of scale updates, in any order.",
["inputs","histories"],"all scale vectors, all points, all sequences of scale updates",
"Tests compare a few random scales at one point; a stale or transposed scale on another order of updates is not reached.",[N],[("scaled evaluation",N+":BaseConstraints"),("scaled evaluation",N+":BaseObjective")],["scaled callbacks vs unscaled functions"])
p("C03","Every constraint and objective follows the problem's variable scales",
"After the scales of a problem are set, and for every constraint or objective added before or after that, all of them (and the solver interface) use the same current vector of variable scales. The scale of each model equation and continuity equation is the scale of the variable it defines, in the order in which these equations are stacked, in both the full and the condensed formulation.",
["histories","configurations"],"all histories of adding functions and setting scales; all transcriptions, meshes and scale settings",
"Tests set scales once at construction, for one or two layouts.",[N,S,MS],[("propagation",S+":set_scales"),("propagation",N+":CompositeProblem.add_constraints"),("propagation",MS+":_update_problem_scales")])
p("C04","Users see only unscaled quantities at the solver boundary",
"Bounds and initial guesses are given, and solutions are returned, in unscaled units: the solver receives bounds and initial guess divided by the variable scales and its solution is multiplied by the same scales before it is returned. Constraint bounds and multiplier warm starts are handed over unchanged, and every problem callback is evaluated on the solver's scaled variables.",
["inputs","configurations"],"all scales, bounds and guesses",
"Solving needs IPOPT and tests use only a few default scale settings.",[N],[("solver boundary",N+":NLPFunction.solve")],["arguments of the solver, returned solution"])
p("C05","Stacked problem callbacks are aligned with their structure",
"For any collection of constraints and objectives, the stacked constraint values, jacobian values, hessian values and their row/column structures list the same entries in the same order: each constraint block's rows start where the previous blocks' rows end, and each block receives exactly its own multipliers. The hessian values and structure keep the same (upper triangular) entries, objective hessians are weighted by the objective factor and constraint hessians are not, and the total objective and gradient are the sums over all objectives.",
["inputs","programs"],"all numbers and sizes of constraints/objectives, all points and multipliers",
"Tests stack the two or three blocks of one problem.",[N],[("stacking",N+":CompositeProblem")])
p("C06","Adding and removing constraints or objectives keeps the problem coherent",
"Adding a constraint or objective whose name is already used, or whose number of inputs differs from the problem's, is rejected and changes nothing. After any sequence of additions and deletions the number of constraints, the structures and all values describe exactly the constraints and objectives then present, with nothing remembered from before.",
["histories"],"all sequences of add/delete/evaluate",
"Tests build a problem once; caches filled by an earlier evaluation are not exercised.",[N],[("registry",N+":CompositeProblem")])
p("C07","Continuity constraints agree with their jacobian, hessian and structures",
"For every transcription, number of intervals and states, mesh and mesh scaling, the continuity constraint of each interval, collocation equation and state is the transcription's linear combination of that interval's states minus interval length times its combination of that interval's state derivatives. Its reported jacobian entries, hessian entries and row/column structures are exactly the non-zero derivatives of that constraint, at the matching positions, for fixed and for variable mesh length.",
["inputs","configurations"],"all interval/stage/state counts, meshes, points, multipliers",
"Tests compare finite differences for a few small problems.",[S,F,U],[("continuity",S+":_continuity_*"),("fixed mesh",F+":_build_continuity_cons")])
p("C08","Objective gradients and hessians are the derivatives of the objectives",
"For every objective the library defines (total time with fixed or variable mesh, input penalties, objectives made from a variable) the gradient is the exact derivative of the objective with respect to each decision variable, and the hessian entries with their row/column structure are its exact non-zero second derivatives. This holds for every number of stages and every layout of the variables.",
["inputs","configurations"],"all points, stage counts, layouts, weights",
"Tests sample one problem size.",[S,F,L,MS],[("time",S+":_time_objective"),("penalty",L+":_inputs_penalty"),("variable",MS+":add_obj_from_var")])
p("C09","Cyclic constraints tie exactly the first and last stage",
"In a cyclic problem there is exactly one constraint for every state and input that was not declared non-cyclic, equal to its value at the first stage minus its value at the last stage, and its jacobian values and structure are the derivatives of that constraint. Declaring a non-existent variable as non-cyclic is rejected.",
["configurations","inputs"],"all models, stage counts and non-cyclic lists",
"Tests use one model and stage count.",[S],[("cyclic",S+":_cyclic_*")])
p("C10","One decision-variable layout is used everywhere",
"Every way of addressing the decision variables (by group, by name, by stage with negative stages counted from the end, as arrays per group, per stage or per interval, flattened or structured) refers to the same position for the same variable. Flattening and unflattening are inverse to each other, and stages out of range are rejected.",
["inputs","configurations"],"all group sizes, stage counts, global variables, indices",
"Tests check one layout.",[U],[("layout",U+":DecVarOperator")])
p("C11","Model equations keep one order in every place that relies on it",
"The residual vector of a model lists state-derivative equations, then constraint outputs, then residuals; its jacobian structure, the per-stage stacking, the model's flat input order, the constraint scales and the split of flat variables all use that same order and those sizes. Each stage's block of equations is evaluated on exactly that stage's variables and mesh point, and reported at that stage's rows and columns.",
["configurations","inputs"],"all models, group sizes and stage counts",
"Tests use models in which several groups are empty or have equal sizes.",[B,C,S],[("implicit form",B+":implicit"),("stacking",C+":ConvConstraints")])
p("C12","The condensed formulation is the full formulation with derivatives eliminated",
"A condensed problem's continuity constraints equal the full problem's with every state derivative replaced by the model's value at that stage, followed by the remaining model equations stage by stage; the multipliers, equation indices and sizes used for its jacobian and hessian follow from that substitution by the chain rule. Its reported jacobian structure is independent of the point of evaluation.",
["inputs","configurations"],"all transcriptions, interval/stage/state counts, points",
"Tests compare one or two discretisations.",[S],[("condensing",S+":_condensed_*")])
p("C13","Evaluating a model never changes the model's own parameters",
"Evaluating a model with explicitly given parameters, building its compiled functions or exporting code leaves the parameters stored in the model and its submodels as they were, even if the evaluation raises. No symbolic or traced value of a numerical backend is ever left behind in a model.",
["histories","fault_sequences"],"all evaluation histories incl. failing ones",
"Tests never look at the model after an evaluation through a backend.",[B,M],[("evaluation",B+":apply_and_forward*")])
p("C14","Parameter updates reach every evaluation",
"After a model parameter of a problem is changed, every later evaluation (constraints, jacobian, hessian, initial guess, logged outputs, in full and condensed form, for every backend) uses the new value. No compiled or mapped function keeps an old parameter value.",
["histories","configurations"],"all update/evaluate histories and formulations",
"Tests update one parameter in the full formulation.",[S,C,B],[("update",S+":modify_model_param"),("use",C+":set_params")])
p("C15","Mesh and track changes reach every evaluation",
"After the mesh, the mesh scale or the track of a problem is changed, every later evaluation of constraints, derivatives, bounds and outputs uses the new one. Nothing that depends on the mesh or on the point is cached, and only constant jacobians may be.",
["histories"],"all histories of mesh/track updates and evaluations",
"Tests evaluate problems right after construction.",[S,F,C,N,L],[("mesh",S+":set_normalized_mesh"),("scale",F+":set_mesh_scale"),("track",L+":set_track")])
p("C16","Boundary conditions win over bounds",
"A boundary condition once given stays in force at its stage after any later bound update; later bounds on the same variable override earlier ones elsewhere, and boundary conditions accumulate per problem without affecting any other problem. Bounds are checked (lower not above upper, one value per stage) before they are stored, and each lands at its variable's position and on its own side.",
["histories","inputs"],"all sequences of bound and boundary condition updates",
"Tests apply each once.",[S,MS],[("bounds",S+":update_bounds"),("boundary conditions",S+":update_boundary_conditions")])
p("C17","Configurations are never modified, shared or lost",
"Building or using a simulation never modifies the configuration, lists, dictionaries or arrays passed in by the caller, and no two simulations, models or configurations share mutable state. A configuration turned into a dictionary and rebuilt from it has the same typed content, nested parts included.",
["histories","configurations"],"all configs and construction sequences",
"Tests build one simulation per config.",[G,S,L],[("config",G+":SimConfig")])
p("C18","Parameter and configuration trees are isolated copies",
"Converting a tree to or from a dictionary, or reading parameters from or writing them to a model, always copies: changing one side afterwards never changes the other. A path addresses exactly the node it names, with whatever delimiter is given, and replacing a missing child is rejected.",
["histories","inputs"],"all trees, paths, delimiters, mutations",
"Tests mutate one side of one conversion.",[T,M],[("tree",T+":Tree")])
p("C19","Flattening parameters is lossless and order stable",
"Flattening a parameter tree and unflattening it again gives every parameter its own value and shape back, for numbers and arrays of any shape and for numeric as well as symbolic arrays. The order of the entries is determined by the tree alone and is the same in every place that flattens or unflattens.",
["inputs","programs"],"all trees, shapes and array kinds",
"Tests ravel a few trees with numpy arrays.",[T],[("ravel",T+":tree_ravel")])
p("C20","Model equations are backend independent",
"Every array operation a model or mapped function takes from the switchable array namespace exists in each backend and is called with arguments each of them accepts. Model equations apply no backend specific or scalar-only operation to, and take no branch or conversion on, values that may be traced or symbolic.",
["programs","configurations"],"all models, all backends, all inputs",
"Tests run each model on one or two backends at one point.",[V,KI,DM,"lumos/models/tires","lumos/models/aero/aero.py",B,NI],[("namespace",NI+":__getattr__")])
p("C21","Mapped evaluations use one calling convention",
"The order of arguments (variables, multipliers, mesh, parameters) and which of them vary per stage agree between every unit function, its mapped form for each backend, the generated code and every caller. Values of mapped sparse derivatives are delivered in the order of the sparsity structure reported with them.",
["programs","configurations"],"all backends and callers",
"A swap of two equally shaped arguments or a transposed structure passes tests with square or symmetric blocks.",[N,C,B,NU,MS],[("mapping",NU+":cmap,lmap"),("axes",N+":map_args")])
p("C22","A cached compiled library is always the complete build of the current code",
"The compiled library that is loaded is identified by the content of the code just generated for the current model. A failed or interrupted compilation raises and never leaves anything that a later run would load.",
["crash_points","histories","fault_sequences"],"all compiler failures, crashes and earlier cache contents",
"Tests only compile successfully in a fresh directory.",[B],[("code cache",B+":_make_casadi_model_algebra_cons")])
p("C23","Derivative structures are fixed",
"The row/column structures reported for jacobians and hessians depend only on the problem's definition: no random value, point of evaluation or multiplier influences them, and they do not change between calls.",
["inputs","histories"],"all points and call sequences",
"Structural zeros that happen at a sampled point are invisible to tests.",[S,N,C,B],[("structures","*structure functions")])
p("C24","Evaluations do not modify the caller's data",
"Evaluating constraints, objectives, derivatives, models, tracks or helper functions never modifies the arrays, dictionaries or lists passed in, and never hands out a reference through which changing a result changes later results.",
["inputs","histories"],"all evaluation entry points and arguments",
"Tests do not compare arguments before and after.",[N,S,F,L,U,B,V],[("callbacks","all evaluation functions")])
p("C25","Logged results are unscaled, complete and correctly labelled",
"Logged variables, outputs and mesh are in unscaled units and each column holds the quantity its label names, for full, condensed and cyclic problems. Constraint values are those of the scaled problem at the same iterate, every solve starts a new history, and the last iterate is always recorded.",
["histories","configurations"],"all problems and logging intervals",
"Tests only check that files exist.",[S],[("logging",S+":_create_result_df")])
p("C26","Tracks provide consistent data in the vehicle's sign convention",
"Every track gives heading, curvature and the distances to the left and to the right border for any distance, each looked up from its own data over the same distance axis, which starts at zero. A lap simulation bounds the lateral position between minus the right distance and plus the left distance, fixes curvature and heading to the track's, and uses the track's total length, all at the same mesh points.",
["inputs","histories"],"all tracks and meshes",
"Tests use symmetric or constant tracks.",[K,L],[("lookup",K+":RaceTrack"),("bounds",L+":set_track")])
p("C27","Transcriptions are consistent discretisations",
"For every selectable transcription the two continuity matrices have one row per continuity equation and one column per stage of the interval, a constant state with zero derivative satisfies all equations, and the schemes with fixed coefficients also hold exactly for linear trajectories. Every advertised transcription can be selected and any other name is rejected.",
["configurations","inputs"],"all schemes and stage counts",
"Tests integrate one or two trajectories.",[TR],[("schemes",TR+":Transcription")])
p("C28","Models produce exactly what they declare",
"Every model in the library reads only declared states, inputs, declared parameters and values returned by its submodels, and returns exactly its declared state derivatives, outputs and residuals. Each declared submodel is evaluated exactly once per evaluation and with its declared inputs, and its outputs are collected under its name.",
["programs","inputs"],"all library models and submodel choices",
"Tests evaluate a few models; a missing or misspelt key in an untested one fails only at run time.",[V,KI,DM,"lumos/models/simple_vehicle_on_track.py","lumos/models/tires","lumos/models/aero/aero.py",B],[("contract",B+":model_io")])
p("C29","Invalid requests are rejected, never silently ignored",
"An unknown transcription, backend, collocation scheme, model type, variable name, axis or option raises an error. Errors are raised and not returned, and no handler swallows them.",
["inputs","configurations"],"all invalid values",
"Tests try a few invalid values.",[TR,B,M,N,"lumos/numpy/casadi_numpy"],[("validation","option dispatch sites")])
p("C30","Model equations are dimensionally consistent",
"In the drone, track kinematics and vehicle models every sum, comparison and returned quantity combines only quantities of equal physical dimension, angles and ratios being dimensionless. Each state derivative has the dimension of its state per unit of the independent variable (time, or distance on a track), and each residual compares like with like.",
["inputs","programs"],"all model inputs and parameters",
"Tests compare numbers recorded from the code itself.",[V,KI,DM,"lumos/models/simple_vehicle_on_track.py"],[("models","forward")])
p("C31","Vehicle, kinematics and drone models are mirror symmetric",
"Mirroring the motion left-to-right (lateral quantities, angles, yaw and curvature change sign and left and right wheels swap) mirrors every state derivative and output of the vehicle, track kinematics and drone models. No sign or side is treated differently from its mirror image.",
["inputs"],"all states, inputs and parameters",
"Tests evaluate single asymmetric points without an independent oracle.",[V,KI,DM],[("models","forward")])
p("C32","Vehicle force and torque distribution is conservative",
"The wheel loads add up to the weight plus the aerodynamic downforce, the driven wheels' torques deliver exactly the requested power, brake torques add up to the total brake torque, and load transfer moves load between axles and sides without creating any. The body accelerations are the total force over mass and total moment over inertia.",
["inputs"],"all states, inputs and parameters",
"Tests compare single evaluations with recorded numbers.",[V],[("vehicle",V+":SimpleVehicle.forward")])
p("C33","Model composition is consistent",
"A submodel type is registered under its own unique name, an unregistered or mismatching type is rejected, every submodel named in a default configuration is registered, and a model is built with exactly the submodels and parameters its configuration names. Parameters reach each submodel under its own name, in reading and in writing.",
["configurations","histories"],"all configurations and registries",
"Tests build a few trees.",[M,B,"lumos/models/__init__.py"],[("composition",M+":ModelMaker,CompositeModel")])
p("N01","The optimiser converges to an optimum","Solving a well posed problem converges to a feasible local optimum within the iteration limit.",
["inputs","configurations"],"all problems","Tests solve a few problems.",[N],[("solve",N+":solve")])
p("N02","Collocation and quadrature matrices are numerically accurate","Differentiation and integration matrices are exact for polynomials up to the scheme's order, and collocation points are the roots of the stated polynomials.",
["inputs"],"all orders","Tests check low orders.",["lumos/optimal_control/collocation.py"],[("matrices","lumos/optimal_control/collocation.py")])
p("N03","All backends give the same numbers","A model evaluated with numpy, jax and casadi gives the same outputs and derivatives up to rounding.",
["inputs","configurations"],"all models and points","Tests compare single points.",[B],[("backends",B+":make_model_algebra_cons")])
p("N04","Tire and aerodynamic models reproduce the published formulas","The tire forces and aerodynamic coefficients equal those of the cited publications for all slips and loads.",
["inputs"],"all slips/loads","Tests compare recorded values.",["lumos/models/tires/pacejka.py","lumos/models/tires/perantoni.py"],[("formulas","forward")])
p("N05","Evaluations are fast enough for large meshes","Evaluation and compilation time stay within the documented limits for large meshes and models.",
["inputs"],"all sizes","Timing is not asserted.",[NU,N],[("mapping",NU+":cmap")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
