import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=""):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=[obs] if obs else [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b) for a,b in state]
    P.append(d)
C='src/tdycore.c';T='src/tdyti.c';IO='src/tdyio.c';MP='src/materials/tdymaterialproperties.c';CO='src/tdyconditions.c';CC='src/materials/tdycharacteristiccurves.c'
p('C01','Lifecycle call order and supported mode/discretization pairs',
 "A dycore accepts the documented setup sequence (create, choose mode, choose discretization, set options, set properties and conditions, setup, run) for exactly the supported pairs: every discretization in Richards mode, only MPFA-O in TH and salinity modes, whether the pair is given by calls or by command-line options. A call made before the step it requires, after the step that closes it, or asking for an unsupported pair returns an error and leaves the dycore's mode, discretization and progress as they were, so the sequence can go on correctly. Destroying a dycore is safe at any point of the sequence. (Repeating the options or setup step on the same dycore is not part of the sequence.)",
 ['histories','configurations'],'all sequences of lifecycle calls (each with valid or invalid arguments and options) up to the bound, for all modes and discretizations','The unit tests run one straight-line setup; no test makes an out-of-order call or asks for an unsupported pair, and there are combinatorially many sequences.',
 [C,'src/tdydriver.c'],[('setup flags','tdycore.c setup_flags checks in TDySetDiscretization/TDySetFromOptions/TDySetup/TDySetDMConstructor/TDyCreateVectors/TDySetIFunction…'),('dispatch table','TDySetMode/TDySetDiscretization')],[('setup_flags','progress of the lifecycle'),('options.mode/discretization','what will be solved')],'return codes of public calls, TDyGetDiscretization, options after the call')
p('C02','The last value set for a property or condition is the one used',
 "For each material property and each source, sink and boundary condition, the value used at every point is the one given by the most recent call that set that quantity, whether constant or spatially varying and whatever earlier calls set, and before any call the quantity counts as unset or, if it has a command-line option, takes the value that option gives. Properties are read when the dycore is set up, conditions whenever they are used. Setting one quantity never changes another, and when several dycores are alive each keeps its own values.",
 ['histories','inputs'],'all interleavings of set calls (constant and function, every rank of tensor, several dycores) up to the bound','Tests set every property once; overwriting, mixing constant and function forms, and several instances are never exercised.',
 [C,MP,CO,'src/tdydriver.c'],[('property slots','MaterialPropSet*/MaterialPropCompute*/MaterialPropHas*'),('condition slots','ConditionsSet*/ConditionsCompute*/ConditionsHas*')],[('slot per quantity','compute function + context + destructor')],'values returned by the property and condition evaluation calls')
p('C03','Contexts supplied by the user are released exactly once',
 "A context registered with a destructor for a material property, condition or forcing term is passed to that destructor exactly once: when it is replaced by a later setting of the same quantity or when the dycore is destroyed. It is not released earlier, not used afterwards, and contexts registered without a destructor are never released.",
 ['histories'],'all interleavings of setting, replacing and destroying','No test registers a context with a destructor and replaces it, nor looks at what happens at destruction.',
 [MP,CO],[('replace','SetFunction-style helpers in tdymaterialproperties.c and tdyconditions.c'),('destroy','MaterialPropDestroy, ConditionsDestroy')],[('context,dtor per slot','ownership')],'destructor call log')
p('C04','Named function registry and selection by name',
 "After a function is registered under a name, looking that name up (or selecting it for a boundary condition, by call or by command-line option) yields the function most recently registered under an equal name, no matter what happened to the memory the name was passed in. Looking up or selecting a name that is not registered is an error, and a failed selection leaves the condition as it was.",
 ['histories','inputs'],'all sequences of register/lookup/select over sets of names, including names in reused buffers and re-registration','Tests register one or two literal names and look each up once.',
 [C],[('registry','TDyRegisterFunction/TDyGetFunction'),('selection','TDySelectBoundary*Function, ReadCommandLineOptions')],[('funcs_','name to function map')],'TDyGetFunction results, values of the selected boundary condition')
p('C05','Shutdown hooks run once, in reverse order, and the library can restart',
 "Finalizing the library calls every registered shutdown hook exactly once, in the reverse of the order of registration, however many there are. Finalizing leaves nothing behind: after it the library reports itself uninitialized, and it can be initialized and used again with no function names, hooks or timers surviving from the previous session.",
 ['histories'],'all sequences of init, register hook, use registry/timers and finalize over several sessions','The unit test initializes and finalizes once.',
 [C,'src/tdytimers.c'],[('shutdown list','TDyOnFinalize/TDyFinalize'),('registry teardown','DestroyFunctionRegistry, TDyDestroyTimers')],[('shutdown_funcs_','hooks')],'hook call log over several sessions')
p('C06','A run to a target time ends exactly there and tiles the interval',
 "When a run to a target time succeeds, the simulation clock equals the target and the converged nonlinear solves, taken in order, cover the interval from the previous clock to the target exactly once: each starts from the state and time at which its predecessor ended and no step is negative, skipped or repeated. This holds for any number of consecutive runs on the same dycore, with either integrator, whatever step sizes and nonlinear failures occur.",
 ['histories','fault_sequences','configurations'],'all sequences of runs, target times, step-size options and solver outcomes up to the bound','Demos run once to one time with steps that converge.',
 [T],[('stepping loop','TDyTimeIntegratorRunToTime, UpdateDT'),('solve','TDyTimeIntegratorSNESSolve / TS path')],[('time, dt, dt_save, istep','integrator clock')],'clock after each run; step size and previous state seen by every nonlinear solve')
p('C07','Step size growth, cap, cut and restoration',
 "After each converged step the next step is the previous one times the configured growth factor, limited by the configured maximum; after a failed solve the step is retried with the step size times the configured reduction factor. A step is shortened to land on a target time, and a step size that was shortened only for that purpose is restored for the following step.",
 ['histories','fault_sequences','configurations'],'all sequences of solver outcomes, target times and step-size options up to the bound','Tests use constant steps that converge and divide the final time.',
 [T],[('UpdateDT','tdyti.c'),('time cut','TDyTimeIntegratorSNESSolve')],[('dt, dt_save, dt_max, dt_growth_factor','step control')],'step size seen by every nonlinear solve')
p('C08','A failed nonlinear solve leaves no trace and retries are bounded',
 "With the built-in integrator, a solve that fails to converge contributes nothing to the solution: the retry starts from the last converged state, and the solution, the time and the number of completed steps are the same as if the failed attempt had not happened. After a bounded number of failures within a run, or at the first one when the discretization does not support retrying, the run returns an error with the clock and accepted state of the last completed step.",
 ['fault_sequences','histories'],'all sequences of nonlinear solver outcomes (including cascades of failures) up to the bound','No test contains a failing nonlinear solve.',
 [T,'src/fv/fvtpf'],[('retry loop','TDyTimeIntegratorSNESSolve'),('TDyTimeCut','tdycore.c')],[('soln, soln_prev','candidate and accepted state')],'initial guess and previous state seen by every solve; state after the run')
p('C09','Checkpoints are written on schedule and hold the step they name',
 "With periodic checkpointing every k steps, a run writes a checkpoint after exactly those completed steps whose number, counted over the whole life of the dycore, is a multiple of k, and one more at the end of the run if its last step was not such a step. Each checkpoint is named for the time of that completed step and contains its step number and state; periodic output likewise happens once per completed step whose number is a multiple of its interval, and never for a failed attempt.",
 ['histories','fault_sequences','configurations'],'all interval settings, run sequences and solver outcomes up to the bound','One test writes a checkpoint at a single interval with converging solves; schedules, failures and several runs are not exercised.',
 [T,IO],[('schedule','tdyti.c checkpoint test'),('writer','TDyIOOutputCheckpoint')],None,'checkpoint files after each run')
p('C10','A restart from a checkpoint reproduces the saved state cell by cell',
 "Writing a checkpoint of any state stores, under the time and step of the run, the value of every unknown of every cell in the order of the input mesh; initializing any run on the same mesh from that file (or from a file in that order written by the user) gives every cell exactly those values, in the global vectors and in every process's local one. Checkpoints of different times do not disturb each other. None of this depends on the mesh or its source, on the number of processes of either run or on which process has which cell.",
 ['inputs','histories','configurations'],'all histories of runs, states, checkpoints and restarts, all partitions of small meshes, unknown counts, mesh shapes and sources and process counts explored','One pair of tests restarts from one file on one serial mesh.',
 [IO,'src/tdydriver.c','src/tdydiscretization.c'],[('write','TDyIOOutputCheckpoint'),('read','TDyIOReadIC')],None,'state vectors of the two runs in natural order')
p('C11','Output files contain every quantity in natural cell order',
 "Output written at a time (times that differ in their first six digits) adds to the HDF5 file one dataset for every unknown and one for the saturation, named by the time, in which entry i is the value at cell i of the input mesh, of the state at that time. The mesh in the file has the input cells in the same order with the input geometry, and the companion description is well formed and refers to exactly those cells, times and datasets with the right sizes. A run that writes output starts the files anew, and none of this depends on the number of processes or on which process has which cell.",
 ['inputs','configurations','histories'],'all output sequences, states, partitions and process counts explored','Tests compare a few regression values only; output files are never read back.',
 [IO],[('HDF5 output','TDyIOWriteHDF5Var, TDyIOWriteVec'),('XMF output','TDyIOWriteXMF*')],None,'contents of the HDF5/XMF files')
p('C12','Natural, global and local vector transfers are consistent',
 "Moving data between natural, global and local orderings is lossless: natural to global to natural is the identity, global to local gives every process the owner's value at each cell it owns or borrows, and local to global returns owned values unchanged. Every cell of the input mesh occurs exactly once in natural and in global order.",
 ['inputs','configurations'],'all partitions, unknown counts and meshes up to the bound','All stable tests are serial, where the maps are identities.',
 ['src/tdydiscretization.c','src/fv/share/tdyugdm.c','src/tdycore.c'],[('transfers','TDyDiscretization*To*')],None,'vectors holding cell identifiers pushed through the transfers')
p('C13','Distributing an unstructured grid keeps every cell exactly once',
 "For any assignment of cells to processes, the distributed grid read from a mesh file gives each input cell exactly one owner, each process a complete set of borrowed face-neighbour cells, and numbers the owned cells contiguously by process. Vertices, cell shapes and neighbour relations of each local cell are those of the input cell with the same identifier.",
 ['inputs','configurations'],'all assignments of cells to processes for small meshes of mixed cell types, 1 to 3 processes','All stable tests are serial and use structured box meshes.',
 ['src/fv/share/tdyugrid.c','src/fv/share/tdyugdm.c'],[('reader and partition','TDyUGridCreateFromPFLOTRANMesh, TDyUGDMCreate…')],None,'per-process grid tables and vector transfers')
p('C14','The discrete problem does not depend on the number of processes',
 "For the same mesh, properties, conditions and state, the residual and the Jacobian row of every cell, and the solution of a run, are the same (to round-off) for any number of processes and any assignment of cells to processes. This holds for the finite-volume discretizations (FV-TPF and MPFA-O) in every flow mode they support.",
 ['configurations','inputs'],'all partitions, process counts, numberings and states explored, against one specification that knows no processes','All stable tests run on a single process.',
 ['src/fv/fvtpf','src/fv/mpfao','src/fv/share','src/tdydiscretization.c'],[('residual','TDyFVTPFSNESFunction, TDyMPFAOSNESFunction, TDyMPFAOIFunction…')],None,'residual, Jacobian and solution of every cell in natural order')
p('C15','Mesh connectivity tables agree with each other and with the geometry',
 "In the mesh built from a grid, cell-face, face-cell, cell-vertex, face-vertex, subcell and neighbour relations are mutual inverses; every interior face has exactly two cells and every boundary face exactly one; face normals point from the first cell to the second. Cell volumes, face areas, normals, centres and distances are those of the input geometry: volumes sum to the domain volume, and the areas of each cell's faces close (their outward area vectors sum to zero).",
 ['inputs','configurations'],'all box and mixed-cell meshes up to the bound','Tests only check label counts on two meshes.',
 ['src/fv/share'],[('mesh build','TDyMeshCreateFromPlex/…')],None,'mesh tables')
p('C16','Fluxes between cells cancel and mass is conserved',
 "Each interior face contributes equal and opposite amounts to the residuals of its two cells and nothing to any other cell, for any state; so the sum of the residual over all cells equals the rate of change of stored mass minus boundary inflow and sources. A closed domain conserves total mass over any sequence of converged steps, and a state without a driving force (hydrostatic, or uniform without gravity) has no flow.",
 ['inputs','histories'],'all assignments of a small set of pressure levels to cells of small meshes; random states, meshes and partitions beyond','Tests compare a handful of solution values for a handful of states.',
 ['src/fv/fvtpf','src/fv/mpfao'],[('flux assembly','TDyFVTPFSNESFunction / MPFA-O functions')],None,'residual vectors')
p('C17','Each boundary face follows its own kind of condition',
 "A boundary face with a fixed-pressure condition exchanges flux according to the pressure set there and the fluid state that belongs to it, a face with a fixed-flux condition without a flux is closed, and a seepage face lets no fluid in unless the pressure set there exceeds the reference (atmospheric) pressure. The kind and the value at one face do not influence any other face.",
 ['inputs','configurations'],'all assignments of kinds and values to the boundary faces of small meshes','Tests use a single kind for the whole boundary.',
 ['src/fv/fvtpf','src/fv/mpfao',CO],[('boundary fluxes','boundary loops of TDyFVTPFSNESFunction, MPFA-O boundary state and flux')],None,'residual vectors')
p('C18','Saturation and relative permeability models apply per point as assigned',
 "Each point uses the saturation model and the relative-permeability model, with the parameters, most recently assigned to it, independently of the order and grouping of the assignments and of what other points use. Saturation stays between residual saturation and one, relative permeability between zero and one, and both never decrease with pressure.",
 ['inputs','histories'],'all sequences of assignments of models to subsets of points up to the bound','Tests assign one model to all points.',
 [CC],[('assignment','SaturationSet*Points, RelativePermeabilitySet*Points'),('evaluation','SaturationCompute, RelativePermeabilityCompute')],None,'computed arrays')
p('C19','A command-line option changes only the parameter it names',
 "Every option the library reads sets the parameter it names to the given value, for any subset of options given together and whatever mode and discretization are chosen, and leaves all other parameters at their defaults or at the values calls gave them; what the parameter governs (material properties, boundary conditions, fluid and curve models, gravity, initial field, time stepping, output) follows it, and calls made after the options win. Values that are no numbers, flags or names the option knows, functions that are not registered, pairs of mode and discretization that do not exist, an initial file together with a random initial field, a PFLOTRAN mesh with a discretization that cannot use one, and regression testing without a file name are reported as errors.",
 ['configurations'],'all subsets of options up to the bound and all pairs','Tests use a few fixed option lines and never look at the other parameters.',
 [C,T,IO],[('option reading','ReadCommandLineOptions, TDyTimeIntegratorSetFromOptions, TDyIOSetFromOptions')],None,'parameters observable after option processing')
p('C20','The regression file reports the right cells and statistics',
 "The regression file names the requested number of distinct cells of every process (as many as the process with the fewest cells has, if that is less), each by its number in the solution vector, and gives for each the value the solution has at that cell, for every field of the mode. Minimum, maximum and mean are those of the whole solution, field by field. The file shows the solution that was output last, every dycore reports its own cells, and all of this holds for any number of processes.",
 ['inputs','configurations','histories'],'all solutions, per-process counts, distributions of cells and orders of output of several dycores up to the bounds','Tests rely on the file but use one cell selection in serial.',
 ['src/tdyregression.c'],[('selection','TDyRegressionInitialize'),('output','TDyRegressionOutput')],None,'regression file contents')
p('C21','Profiling stages and timers nest and record what was asked',
 "Entering and leaving profiling stages nests: time is attributed to the innermost stage entered by name, re-entering a name uses the same stage, and when timing is disabled nothing is recorded. The timing profile written at the end contains exactly the metadata last recorded for each dycore and the stages used. Leaving a stage leaves the innermost open one, and leaving or entering needs no particular storage for the name.",
 ['histories'],'all sequences of add/enter/exit stage, enable and metadata calls up to the bound','No test uses timers.',
 ['src/tdytimers.c'],[('stages','TDyEnterProfilingStage/TDyExitProfilingStage'),('metadata','TDySetTimingMetadata, TDyWriteTimingProfile')],None,'PETSc log stage stack; written profile')
p('C22','Functions set from Fortran are routed to the quantity they were set for',
 "Each spatial function registered through the Fortran interface is called for exactly the quantity and dycore it was set for, whatever other Fortran functions have been registered or set before or after. Registering under a name makes that name refer to the most recent function, and a name that was never registered is reported as an error.",
 ['histories'],'all sequences of Fortran registrations and settings up to the bound','Fortran demos set each quantity once in a fixed order.',
 ['src/f90-mod/tdycoremod.F90','src/f90-mod/tdycoref.c'],[('registry','FindOrAppendSpatialFunction, TDyRegisterFunction (Fortran)')],None,'values computed for each quantity')
p('C24','Equations of state and their derivatives are accurate','Density, viscosity and enthalpy match the published correlations within their accuracy, and the reported derivatives are derivatives of the values.',['inputs'],'all pressures and temperatures','Tests evaluate no equation of state directly.',['src/materials/tdyeos.c'],[('EOS','Compute*Density/Viscosity/Enthalpy')])
p('C25','Discretizations converge at their theoretical order','On refined meshes the error of the solution decreases at the theoretical order, and linear fields are reproduced exactly where the method promises it.',['inputs','configurations'],'all smooth solutions and mesh families','Tests compare few meshes.',['src/fe','src/fv'],[('operators','fe and fv residuals')])
p('C26','Property files give every cell its own value',
 "A porosity file gives the cell with number i in the input mesh entry i of its dataset, and an anisotropic permeability file gives it a diagonal tensor made of entry i of its three datasets, both for cells a process owns and for its copies of the cells of others. This holds for any mesh and mesh source, number of unknowns, number of processes and assignment of cells to processes.",
 ['inputs','configurations'],'all property values, partitions of small meshes, mesh shapes and sources and process counts explored','One test reads property files, on one serial mesh.',
 [IO,'src/tdydriver.c'],[('reading','TDyIOReadPorosity, TDyIOReadPermeability, TDyIOReadVariable')],None,'porosity and permeability arrays the discretizations use')
p('C27','Residuals are Darcy flow and storage, and Jacobians are their derivatives',
 "The residual of a cell is its change of stored mass (porosity, density, saturation, volume, time step) plus the Darcy fluxes through its faces (permeability of both cells, relative permeability and density on the upstream side, pressure difference and gravity) minus its source. The assembled Jacobian is the derivative of that residual with respect to the unknowns, entry by entry, wherever the residual is differentiable.",
 ['inputs'],'all states over small sets of exactly representable values on boxes (values compared exactly); any mesh, state and liquid model explored (Jacobian against differences of the residual)','Tests solve a few problems and would only notice slow convergence.',
 ['src/fv/fvtpf','src/fv/mpfao'],[('residual and Jacobian','TDyFVTPFSNESFunction/Jacobian, TDyMPFAOSNESFunction/Jacobian, MPFA-O IFunction/IJacobian, TH IFunction/IJacobian')],None,'residual vectors and Jacobian matrices')
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert x['statement'].count('. ')<=3,x['id']
