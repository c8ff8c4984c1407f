import json
P=[]
def add(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
H='pyphs/numerics/simulations/h5data/h5data.py'; HT='pyphs/numerics/simulations/h5data/tools.py'; S='pyphs/numerics/simulations/simulation.py'
N='pyphs/numerics/numerical_core/_numerical_core.py'; M='pyphs/numerics/numerical_method/_method.py'; D='pyphs/numerics/numerical_method/_discrete_calculus.py'
add('P01','Results read back are exactly what was given and computed',
 "After a simulation is initialised with input and parameter sequences (arrays, lists, generators, one- or two-dimensional, or left out) and processed, every stored quantity read back equals, bit for bit and row by row, the sequence that was given or the value the numerical core computed at that time step. This holds for every time slice, component index or slice, default reading window and post-processing, and the derived quantities (time, energy, dissipated and source power, energy variation, stacked vectors, observers) agree with the stored rows they are derived from. It stays true after any history of further runs, windows, re-openings without erasing and process restarts on the same folder, and no read or run leaves the results file open.",
 ['histories','inputs','fault_sequences'],'for every model, input form and length, every sequence of init / process / set window / read / reopen / restart, and transient storage faults (short or interrupted system calls) at any operation',
 'The tests run a few models once with one input form, and only read whole default windows; they compare nothing with an independent record and never reopen, window, restart or disturb the storage.',
 [H,HT,S],[('one global dataset with per-variable column ranges','H5Data.inds/_dimsinit'),('row writer used at every step','H5Data.h5dump_vecs'),('blockwise writer of input sequences','set_dataset_from_iterable'),('reader with window defaults and component ranges','H5Data._tslice/_tuple2slice/_read_data')],
 ['simulation.data.<name>(tslice, vslice)','simulation.data[name, t, v]','data.E/pd/ps/dtE/dtx/a/b/args/o/t'])
add('P02','Storage faults and crashes never give silently wrong results',
 "Whatever storage error (full disk, I/O error, permission, short or interrupted call) or process crash strikes at whatever point of building, initialising, processing or reading a simulation, a call that returns normally has produced exactly the results of an undisturbed run; otherwise it raises or the process dies. After a crash or a failure, a new process that runs the same simulation on the same folder obtains exactly the undisturbed results, and finished results of other simulations are untouched. Reading finished results, with or without faults or crashes, never changes them and never returns wrong values.",
 ['crash_points','fault_sequences','histories'],'for every storage operation of the run as the place of a fault or crash, every fault kind, every earlier content of the folder',
 'No test injects any fault or crash; the space is (operation index x fault kind x history).',
 [H,HT,S],[('results file created anew by every init','H5Data._h5new'),('file released on every exit path','Simulation._process_py, H5Data.init_data'),('readers open read-only','H5Data.h5open')],
 ['return or exception of Simulation(), init, process and the readers','bytes of the results folder'])
add('P03','Simulations do not influence each other',
 "Several simulations alive in one program, built from the same method, core or from different ones, with different folders, sample rates, parameters, schemes, initial values and reading windows, give exactly the results each gives alone, whatever the order in which their constructions, initialisations, runs, reads and re-configurations are interleaved, and also when they run in different threads preempted at arbitrary lines. Using a core or a method in one simulation leaves what others hold (the core, the method, the shared default configuration, the caller's arrays and dictionaries, the working directory) unchanged; values given to init(subs=...) are a deliberate change of the method it uses.",
 ['schedules','histories','configurations'],'for every interleaving of the operations of 2 to 4 simulations, in one thread or in several threads switched at any executed line of pyphs',
 'The tests use one simulation at a time; an interleaving is never chosen.',
 [S,H,N,M,'pyphs/config.py','pyphs/core/core.py'],[('configuration dictionaries copied per simulation','Simulation.__init__'),('core copied by the method','Method.__init__ / Core.__copy__'),('method rebuilt, not mutated, when options change','Simulation.init_method')],
 ['stored rows of each simulation','method and core attributes, caller objects, os.getcwd()'])
add('P04','A failing C++ build or run is reported, a good one is complete',
 "A C++ simulation's process call returns normally only if the configure, build and executable steps were each run, in this order, in the simulation's own source folder, on sources complete and current for the present model, parameters and configuration, and all succeeded; a failure at any step (missing tool, non-zero exit, death by signal, missing executable) raises. The call never blocks on the amount of output the tools write, keeps the caller's working directory, and after a failure the same simulation processes correctly once the tools work again.",
 ['fault_sequences','histories','schedules'],'for every sequence of tool outcomes (exit codes, signals, missing files, output volumes and delays) over several init/process attempts',
 'The tests only build with a working toolchain and never look at a failing one.',
 [S,'pyphs/numerics/cpp/simu2cpp.py','pyphs/numerics/cpp/method2cpp.py','pyphs/numerics/cpp/cmake.py'],[('checked subprocess calls','Simulation._process_cpp'),('system_call with check','system_call'),('sources regenerated by init and process','method2cpp, simu2cpp')],
 ['return or exception of process','what the (simulated) tools were given: working directory, arguments, files'])
add('P05','The generated C++ simulation agrees with the Python one',
 "For the same model, scheme, sample rate, parameters, initial values and input and parameter sequences, the compiled C++ simulation and the Python simulation store the same trajectories to numerical precision, also after any history of re-initialisations with other inputs, lengths, initial values, parameter values, sample rates or schemes on the same simulation object.",
 ['histories','configurations','inputs'],'for every model of the pool and random models, every scheme, every sequence of re-initialisations before the compared run',
 'The tests compile two examples once and do not compare their trajectories with the Python ones.',
 ['pyphs/numerics/cpp/method2cpp.py','pyphs/numerics/cpp/functions.py','pyphs/numerics/cpp/arguments.py','pyphs/numerics/cpp/operations.py','pyphs/numerics/cpp/simu2cpp.py','pyphs/templates',S],[('C++ code generated from the same update actions','method2cpp'),('parameters regenerated on change','Simulation.init_parameters')],
 ['rows of the results file written by both backends'])
add('P06','A saved core loads back as the same core, or loading fails',
 "Loading a core that was saved gives a core equal to the one saved (variables, storage function, dissipation laws, structure, parameters and their values, observers, connectors, label) which simulates identically, in the same or another process, and later changes to either do not reach the other or the file. If saving meets a storage fault it raises unless the save is complete; after a crash during a save, loading gives the previous saved core or the new one, never a mixture, and saving again works.",
 ['crash_points','fault_sequences','histories'],'for every sequence of saves, loads, modifications and restarts, with a fault or crash at any storage operation',
 'The tests save and load one core once, without faults.',
 ['pyphs/core/core.py'],[('one pickled dictionary in one database entry','Core.save'),('all copied attributes restored','Core.load')],
 ['Core.save / Core.load and the public attributes of the core'])
add('P07','Netlists survive writing, reading and editing',
 "A netlist written to disk and read back lists the same components in the same order, with the same dictionary, component, label, nodes and parameter values, and yields the same core, for any sequence of added, replaced and deleted lines, writes to the same or other paths, re-readings and restarts. A write that meets a storage fault raises unless the file is complete, and a netlist rewritten after a fault or crash is again complete.",
 ['histories','inputs','crash_points','fault_sequences'],'for every editing history and every parameter form (label and value, value, label, string), with a fault or crash at any storage operation',
 'The tests read fixed netlists and write one.',
 ['pyphs/graphs/netlists.py','pyphs/graphs/graph.py'],[('line printer and parser','print_netlist_line, Netlist.read'),('line editing','Netlist.add_line/setline/delline')],
 ['Netlist items after reading, Netlist.to_core()'])
add('P08','Exporters write complete files or raise, deterministically',
 "Every exporter (C++ sources of a method, C++ simulation sources, Faust code, JUCE snippet, LaTeX document of a netlist, wave files) either leaves on disk exactly the files an undisturbed export of the same object writes, or raises; exporting again after a failure or crash, over partial or older files, gives exactly those files. Exports do not depend on what was exported before, do not modify the exported object, and a wave file contains the requested component of the requested signal at the requested rate.",
 ['crash_points','fault_sequences','histories'],'for every exporter and model, every order of exports, earlier content of the target folder, fault kind and storage operation',
 'The tests call some exporters once on a working disk and only check that nothing is raised.',
 ['pyphs/numerics/cpp/method2cpp.py','pyphs/numerics/cpp/simu2cpp.py','pyphs/numerics/cpp/cmake.py','pyphs/misc/faust/_faust.py','pyphs/misc/juce/_fx.py','pyphs/misc/latex','pyphs/misc/signals/waves.py'],[('files opened, written and closed in one call','each exporter'),('templates filled from the method','pyphs/templates')],
 ['bytes of the target folder after each export'])
add('P09','Results do not depend on clocks, timers or verbosity',
 "The value of the wall clock and monotonic clock, their jumps and drift, the slowness of the machine, and the display options (progress bar, timer, verbosity) change nothing in what is built, computed and stored, raise nothing, and no operation of pyphs waits for more than a bounded simulated time. (The date written in the header of generated files is excepted, and what make(1) concludes from file dates is outside.)",
 ['schedules','configurations','fault_sequences'],'for every clock trajectory (start, rate, forward and backward jumps at any clock reading) and every display option',
 'The tests run on the real clock, which neither jumps nor stalls.',
 [S,'pyphs/misc/faust/_faust.py','pyphs/core/tools/_simplify.py','pyphs/config.py'],[('times only printed','Simulation.process'),('progress bar fed with step numbers','Simulation._update_pb')],
 ['stored rows, exported files, exceptions, simulated time slept'])
add('P10','Everything is deterministic across environments',
 "Building a core, graph, method, simulation or export gives the same object, the same results to numerical precision and the same component order whatever the iteration order of sets, the hash seed, the state of the byte-code cache, the garbage collector's schedule, the working directory and what was built before in the same process; running the same thing twice gives identical results.",
 ['schedules','configurations','histories'],'for every seeded permutation of every set iteration in pyphs, byte-code cache cold or warm, collection points and earlier work in the process',
 'The tests run under one interpreter with one hash seed and ordering and cannot see an order dependence.',
 ['pyphs/graphs/analysis.py','pyphs/graphs/graph.py',M,'pyphs/core/core.py','pyphs/core/tools/_free_symbols.py','pyphs/misc/tools.py'],[('symbols ordered by their place in the argument list','misc.tools.find'),('edges and types compared by value','graphs.analysis')],
 ['symbols order, structure matrix, stored rows and exports'])
add('P11','Every simulated step obeys the model: balance, laws, structure',
 "At every stored time step of every Python simulation that converges, the state increment, gradient, dissipation and port values satisfy the model that was given: the stored gradient is the chosen discrete gradient of the energy over the step, the dissipation variables follow their laws, flows and efforts are related by the interconnection structure evaluated according to the scheme, and the next state is the state plus the increment. With the discrete-gradient scheme the energy variation therefore equals minus dissipated power minus power given to the ports at each step, whatever the inputs, changing parameters, initial values, restarts and substitutions; a netlist of linear components moreover follows the circuit equations of its components and nodes.",
 ['inputs','histories','configurations'],'for every model (fixed, random, netlists), scheme, sample rate, input and parameter schedule, initial value and history of re-initialisations',
 'The tests plot or run a few models and never check the balance or the laws on the stored steps.',
 [D,M,N,'pyphs/core/structure','pyphs/graphs/analysis.py','pyphs/dictionary',H],[('discrete gradient','discrete_gradient_monovar/multivar, gradient_theta, gradient_trapez'),('implicit function and Newton iteration','Method.set_structure, Numeric._iterexecs'),('linear/nonlinear and explicit/implicit splits','Core.linear_nonlinear, Method.explicit_implicit')],
 ['rows x, dx, dxH, w, z, u, y, p of the results file'])
add('P12','A re-configured simulation equals a new one',
 "After any sequence of initialisations that change inputs, length, parameters, initial values, numerical options, sample rate, results folder or language, with runs, failures and reads in between, processing gives exactly the results of a new simulation created directly with the final settings; settings that were not changed keep their value. An initialisation with invalid settings raises and a following valid one works as on a new simulation.",
 ['histories','configurations'],'for every sequence of init calls with any subset of changes, valid or not, with or without processing in between',
 'The tests initialise each simulation once.',
 [S,N,H],[('rebuild decision','Simulation.init'),('restart from initial values','Numeric.init')],
 ['stored rows after the last process','simulation.config'])
add('P13','Interrupted and segmented runs continue exactly',
 "A run interrupted by an exception at any point (a failing input, an interrupt, a failing step) releases its results file, whose rows up to the last completed step are exactly those of the uninterrupted run, and the same simulation then runs again exactly like a new one. A run continued in segments, in the same or another process, from the stored state, increments and dissipation variables of any step gives exactly the rows of the single run.",
 ['schedules','crash_points','histories'],'for every interruption point, cut point, number of segments and restart between segments',
 'No test interrupts or continues a run.',
 [S,H,N],[('release of the file in finally clauses','Simulation._process_py, H5Data.init_data'),('initial values of every argument','Numeric.init'),('state update at the start of a step','Method update actions')],
 ['rows of the results file','exceptions'])
# not applicable
add('P14','Graph analysis yields the Kirchhoff structure of any graph',
 "For every realisable graph the structure matrix expresses the conservation laws of the nodes and loops of the graph with the orientation of its edges.",['inputs'],'for every graph','Tests cover the examples only.',['pyphs/graphs/analysis.py','pyphs/graphs/realizability'],[('realizability analysis','GraphAnalysis')],['Core.M'])
add('P15','Symbolic core operations preserve the model',
 "Adding, connecting, splitting, substituting and simplifying cores preserves the solutions of the model they denote.",['programs','inputs'],'for every sequence of symbolic operations','Tests sample a few cores.',['pyphs/core'],[('moves, splits, connect','pyphs/core/structure')],['Core attributes'])
add('P16','LaTeX, reStructuredText and plots show the model faithfully',
 "Generated documents and figures show the expressions and signals of the object they are made from.",['inputs'],'for every model','Tests only call them.',['pyphs/misc/latex','pyphs/misc/plots','pyphs/misc/rst'],[('printers','misc.latex')],['generated text'])
add('P17','Signal synthesis and dictionary laws match their documentation',
 "Each synthesised signal and each dictionary component follows the formula in its documentation.",['inputs'],'for every parameter value','Tests sample.',['pyphs/misc/signals','pyphs/dictionary'],[('formulas','each module')],['returned arrays, component expressions'])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
NA={'P14':'A pure function of the graph: no schedule, time, I/O or multi-party behaviour to simulate. (The consequence for linear netlists along simulated runs is part of P11, independence from set order is part of P10.)',
'P15':'Pure symbolic algebra on in-memory objects: nothing to schedule and no fault to inject; deciding it is equational reasoning, not simulation.',
'P16':'A pure function from expressions to text or figures; its only interaction with the environment, writing files, is P08.',
'P17':'Pure formulas; the laws met by simulated models are observed through P11.'}
import sys
claimed=sys.argv[1:]
checks=[]
for p in P:
    if p['id'] in NA: continue
    if p['id'] in claimed:
        checks.append(dict(property=p['id'],quick_cmd='./check.py '+p['id'],thorough_cmd='./check.py %s --tier thorough'%p['id'],
          technique='deterministic simulation with fault injection: seeded search over histories, schedules and faults, exact replay',
          level='exploration',level_note='Seeded random exploration of the real code in simulated processes; no exhaustive claim. Trusts the simulator (LD_PRELOAD seam, fork isolation), the reference computations in /verif/sim and, below the seam, the kernel, HDF5, sympy and numpy.'))
    else: NA[p['id']]='check under construction'
m=dict(version=1,setup_cmd='./check.py --setup',checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in sorted(NA.items())],
 notes='No hooks in /repo: the seams are the file system and clock calls (LD_PRELOAD), module import, the tool paths of the configuration, and the public API.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
