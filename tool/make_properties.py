import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    d={"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if obs: d["anchors"]["observe_at"]=obs
    assert len(title)<=80,title
    P.append(d)
CTI,TM,TR,ROE,CCD,UT,RN,MN="src/cti.cpp","src/trap_managers.cpp","src/traps.cpp","src/roe.cpp","src/ccd.cpp","src/util.cpp","src/read_noise.cpp","src/main.cpp"
IF="python/arcticpy/src/interface.cpp"; PYX="python/arcticpy/src/wrapper.pyx"; PC="python/arcticpy/cti.py"
p("C01","Results do not depend on threads or their schedule",
 "For any number of threads and any assignment of columns (or pixels) to threads, adding CTI, removing CTI and estimating read noise give the same pixels as a single-threaded run. No datum written by one parallel iteration is read or written by another one, and no iteration starts from scratch or trap state that another iteration left behind.",
 ["schedules"],"all thread counts and all OpenMP schedules of the parallel loops, for every image and model",
 "The tests run one schedule on a handful of tiny images; a race or a carried-over value shows only for some thread counts and chunkings.",
 [CTI,RN,TM,TR],[("data-sharing clauses of the parallel loops","src/cti.cpp clock_charge_in_one_direction; src/read_noise.cpp"),("trap state reset and re-saved at the end of each column","src/cti.cpp clock_charge_in_one_direction"),("deep-copying trap managers","include/trap_managers.hpp")],
 [("trap occupancy","watermark volumes, fills and active range of every species and phase","include/trap_managers.hpp")],["add_cti / remove_cti return value"])
p("C02","Columns are independent, and columns outside the window are untouched",
 "When traps are emptied between columns, the output of one column is a function of that column's pixels and the model only: it does not change when any other column of the image changes, is added or is removed. Pixels in columns outside the requested column window are returned exactly as they were given.",
 ["inputs"],"all images, all column windows, all models that empty traps between columns",
 "Tests use one to three columns with fixed contents; the property compares runs over all contents of the other columns.",
 [CTI,TM],[("column loop bounds and column index of every pixel access","src/cti.cpp clock_charge_in_one_direction"),("reset between columns","src/cti.cpp; src/trap_managers.cpp reset_trap_states")],None,["add_cti return value"])
p("C03","Saving, restoring and emptying trap occupancy is exact and complete",
 "Saving, restoring and emptying the trap occupancy act on the complete state (every watermark volume, every fill and the active range) of every trap species type in every phase: restoring gives back exactly what was last saved whatever happened in between, and emptying gives back exactly the state of freshly built traps. Every express pass over a column starts from the restored state, and the state is saved where the clocking mode's save table says so.",
 ["histories"],"all histories of capture, release, pruning, saving, restoring and emptying",
 "Tests look at a few hand-set watermarks of one species; a forgotten field or species matters only after particular histories.",
 [TM,CTI],[("store/restore/reset of trap states","src/trap_managers.cpp TrapManagerBase, TrapManagerManager"),("restore before each express pass","src/cti.cpp clock_charge_in_one_direction")],
 [("saved occupancy","stored_* members","include/trap_managers.hpp")])
p("C04","Runs are repeatable: no state is carried from one call to the next",
 "Calling the library with equal arguments gives equal results, whatever calls were made before in the same process. Only the verbosity setting and what is printed may persist between calls; no call changes a default, and tables derived from the arguments are rebuilt before they are used.",
 ["histories"],"all sequences of library calls in one process",
 "Each test case starts its own process or new objects, so state leaking from an earlier call is never seen.",
 [CTI,ROE,TM,TR,CCD,UT,RN,IF],[("no mutable globals or statics besides verbosity","include/util.hpp, include/roe.hpp"),("clock sequence, express and save tables rebuilt per call","src/cti.cpp clock_charge_in_one_direction")])
p("C05","The caller's data are never modified",
 "Adding or removing CTI, through C++ or Python, leaves the caller's input image and the caller's trap species, CCD and readout parameters exactly as they were; the result is a new image. Only tables a readout object derives for itself (clock sequence, express and save tables) may change.",
 ["inputs","configurations"],"all images and models, C++ and Python entry points",
 "Tests build their inputs inline and never look at them again.",
 [CTI,IF,PC,"python/arcticpy/pixel_bounce.py","python/arcticpy/read_noise.py"],[("image copied before clocking","src/cti.cpp add_cti, remove_cti, clock_charge_in_one_direction"),("np.copy of the image","python/arcticpy/cti.py")])
p("C06","Every Python argument reaches its own C++ parameter unaltered",
 "Every argument a Python user gives to the CTI functions and model classes (clocking, CCD, each trap species parameter, express, offset, windows, pruning, flags, iterations, for parallel and for serial) arrives, unaltered, at the C++ parameter of the same meaning, direction and species type. No two arguments are exchanged, dropped, defaulted or reused for another purpose on the way through the Python, Cython and C interface layers.",
 ["inputs","configurations"],"all arguments and all combinations of given and omitted models",
 "Seven Python tests use mostly parallel clocking with default values, for which many exchanges are invisible.",
 [PC,PYX,IF,"python/arcticpy/traps.py","python/arcticpy/roe.py","python/arcticpy/ccd.py","python/arcticpy/src/interface.hpp"],[("argument lists of the three layers","python/arcticpy/cti.py add_cti; wrapper.pyx cy_add_cti; interface.cpp add_cti"),("packing of trap parameters in species order","python/arcticpy/cti.py; interface.cpp")])
p("C07","Results do not depend on the unit of time",
 "Expressing every time of the model (dwell times, release and capture timescales) in another unit, that is multiplying all of them by the same positive factor, does not change any output pixel beyond rounding. No time is compared with, added to or limited by a unit-less constant.",
 ["inputs"],"all models, all positive scale factors",
 "Tests only use timescales near one, where a hidden absolute constant does no harm.",
 [TR,TM,ROE,CTI,IF],[("rates are inverse timescales, used only multiplied by dwell times","src/traps.cpp, src/trap_managers.cpp"),("logarithmic time tables","src/traps.cpp prep_fill_fraction_and_time_elapsed_tables")])
p("C08","Results scale with the unit of charge",
 "Expressing every charge (pixel values, trap densities, full well and notch depths, pruning threshold) in another unit, that is multiplying all of them by the same positive factor, multiplies every output pixel by that factor and changes nothing else. No charge is compared with, added to or rounded by a unit-less constant.",
 ["inputs"],"all images and models, all positive scale factors",
 "Tests use electrons with full wells of 1e3-1e5 only.",
 [TR,TM,CCD,CTI,IF],[("cloud volume from the ratio of charges","src/ccd.cpp"),("fills carried as densities","src/trap_managers.cpp")])
p("C09","Serial clocking is parallel clocking of the transposed image",
 "Serial CTI on an image is exactly parallel CTI with the same model on the transposed image, transposed back, and parallel is applied before serial. Every serial option (readout, CCD, each species list, express, offset, window, time window, pruning) plays for the serial pass the role its parallel counterpart plays for the parallel pass, with the two windows exchanging the roles of row and column window.",
 ["inputs","configurations"],"all images, models and options",
 "Only a few serial tests exist, with equal or default options, for which mixing up an option is invisible.",
 [CTI,UT,IF],[("the two clocking passes","src/cti.cpp add_cti"),("transpose","src/util.cpp")])
p("C10","CTI removal inverts exactly the forward model it was given",
 "Each removal iteration models CTI on the current estimate with exactly the model and options given by the caller, the same in every iteration, and corrects the estimate by the difference between the input image and that modelled image; it starts from the input image and makes exactly the requested number of iterations, so zero iterations return the input. This holds for the C++ and for the Python removal.",
 ["inputs","configurations"],"all images, models, options and iteration counts",
 "Tests check that more iterations help for one image; a dropped or exchanged option still passes.",
 [CTI,PC,IF],[("iteration loop","src/cti.cpp remove_cti; python/arcticpy/cti.py remove_cti")])
p("C11","No negative pixel is returned when negatives are disallowed",
 "When negative pixels are disallowed, every pixel that clocking writes to is left non-negative, and CTI removal returns no negative pixel, whatever the image, model and number of iterations (at least one), in C++ and in Python.",
 ["inputs"],"all images, models and iteration counts",
 "Tests have non-negative results anyway or allow negatives.",
 [CTI,PC],[("clamping after each write","src/cti.cpp clock_charge_in_one_direction"),("clamping after each iteration","src/cti.cpp remove_cti; python/arcticpy/cti.py remove_cti")])
p("C12","Verbosity changes what is printed, never the result; zero is silent",
 "The verbosity setting has no effect on any pixel or on whether a call succeeds. At verbosity 0 adding or removing CTI and the read-noise routine print nothing.",
 ["inputs","configurations"],"all verbosity levels, images and models",
 "Tests run at one verbosity and do not compare outputs between levels.",
 [UT,"include/util.hpp",CTI,TM,TR,ROE,RN,IF],[("level-guarded printing","include/util.hpp print_v, src/util.cpp")])
p("C13","Charge exchanged with the traps is booked exactly once",
 "In every clocking step the charge read from the pixels is offered to each trap species type in turn, each seeing what the previous ones left, and the sum of what they return (released minus captured), times the express multiplier and the release fraction, is added once to the written pixels. What a species returns is the charge its own occupancy lost: every release that lowers the fill of a trap is counted in the returned charge on every path, and capture shortfalls scale the returned charge and the occupancy alike.",
 ["inputs","histories"],"all images, models and trap histories",
 "Tests compare a few final images within tolerances; charge lost on rare paths (empty clouds, shortage of electrons) stays below them.",
 [CTI,TM],[("accumulation over species","src/cti.cpp clock_charge_in_one_direction"),("release and capture bookkeeping","src/trap_managers.cpp n_electrons_released_and_captured")])
p("C14","Trap bookkeeping never outgrows its storage",
 "The number of occupancy levels a trap species can create in one clocking step never exceeds the number for which storage was reserved per transfer, and storage is reserved for every transfer that can happen between two resets (all steps, phases, rows, offset, and all columns when traps are not emptied between them).",
 ["histories","inputs"],"all images and clocking sequences",
 "The overflow corrupts memory silently and needs long histories of ever smaller charge packets.",
 [TM,CTI],[("levels per transfer and number of transfers","src/trap_managers.cpp constructors, initialise_trap_states; src/cti.cpp max_n_transfers")])
p("C15","Every resource acquired by a call is released",
 "Memory, integration workspaces, root solvers, files and model objects that a library call acquires for itself are released on every path out of the call that returns to the caller; nothing is released twice or used after release.",
 ["inputs","histories"],"all paths through all library functions",
 "Tests never measure leaks; each is small and every result stays right.",
 [TR,UT,IF,MN],[("workspace handling","src/traps.cpp"),("file handling","src/util.cpp"),("readout objects of the interface","python/arcticpy/src/interface.cpp")])
p("C16","A failed step is reported, never turned into a result",
 "A failure status of numerical integration or root finding, a failed file open, read or write, and invalid model arguments always lead to an error or exception; no value produced by the failed step is used or returned as if it were a result.",
 ["fault_sequences","inputs"],"all failures of integration, root finding, allocation and file access, all invalid arguments",
 "Tests cannot make the integrator, root finder or disk fail.",
 [TR,UT,CCD,ROE,CTI],[("status checks","src/traps.cpp"),("argument checks","src/roe.cpp, src/ccd.cpp, src/cti.cpp"),("file checks","src/util.cpp")])
p("C17","Any subset of the four trap types works, at any verbosity",
 "For every combination of present and absent trap species types, in either direction, at any verbosity, data belonging to an absent type are never accessed, and every present type takes part in clocking, saving, restoring, emptying and pruning.",
 ["configurations"],"all 16 subsets of species types, both directions, all verbosity levels",
 "Tests run mostly one type at a time at verbosity 0 or 1; absent-type accesses are undefined behaviour that may seem to work.",
 [CTI,TM,IF],[("presence guards","src/cti.cpp, src/trap_managers.cpp TrapManagerManager")])
p("C18","Both instant-capture models, and both slow-capture ones, capture alike",
 "The rule by which a charge cloud rearranges and fills occupancy levels is the same for single-timescale and continuum instant-capture traps, and the rule by which it inserts occupancy levels is the same for single-timescale and continuum slow-capture traps; they differ only in the release (and capture-probability) law.",
 ["inputs","histories"],"all occupancies and clouds",
 "Tests compare narrow continua with single timescales only within tolerances and for simple histories.",
 [TM],[("level updates","src/trap_managers.cpp update_watermarks_capture*, n_electrons_captured, n_electrons_released_and_captured")])
p("C19","Clocking tables cover every express pass and row consistently",
 "The express multiplier and occupancy-saving tables always have one entry for every express pass and every row of the image, laid out with the same row stride with which clocking reads them, for every readout type, express setting, offset and emptying mode.",
 ["configurations"],"all readout types, express settings, offsets and flags",
 "Tests list a few tables of small size; a wrong stride shows for specific combinations of settings only.",
 [ROE,CTI],[("table construction","src/roe.cpp set_express_matrix_from_rows_and_express, set_store_trap_states_matrix"),("table look-up","src/cti.cpp")])
p("C20","Volume and fill fractions stay between zero and one",
 "For every number of electrons and every valid CCD and trap model, the fractional volume of a charge cloud, the tabulated fill fractions and the release and capture probabilities used for a dwell time lie between 0 and 1.",
 ["inputs"],"all electron counts, times and valid parameters",
 "Tests evaluate a few points inside the range.",
 [CCD,TR,TM],[("clamping of the cloud volume","src/ccd.cpp"),("clamping of table look-ups","src/traps.cpp"),("exponential probabilities","src/trap_managers.cpp set_fill_probabilities")])
p("C21","Read-noise separation conserves the image and averages real neighbours only",
 "The read-noise routine splits every pixel exactly into signal plus noise, and the local mean it uses for a pixel divides by exactly the number of pixels summed, all of which lie inside the image (interior, edges and corners alike).",
 ["inputs"],"all images with at least two rows and two columns",
 "No test calls the routine.",
 [RN],[("neighbour sums","src/read_noise.cpp")])
p("C22","Conversions between image layouts lose or misplace no pixel",
 "Transposing, flattening, and copying an image from and to the flat Python buffer visit every pixel exactly once and put it where its row and column say, for every image shape including non-square ones; reading and writing images as text use the same order.",
 ["inputs"],"all image shapes",
 "Tests use small fixed shapes, several square.",
 [UT,IF],[("index arithmetic","src/util.cpp transpose, flatten, load/save; python/arcticpy/src/interface.cpp")])
p("C23","Command-line options do what the help says",
 "Every option the program's help describes is accepted in its short and long form with the described argument, selects the described behaviour, and unknown options are rejected with an error.",
 ["inputs"],"all command lines",
 "No test runs the command line.",
 [MN],[("option table","src/main.cpp parse_parameters, print_help")])
p("C24","The Python package refers only to things that exist",
 "Every name and attribute used by the Python package on its own modules, classes and objects, and every function it calls in the compiled wrapper, exists and is called with an accepted number of arguments and accepted keywords, so no documented Python function fails with a name, attribute or argument error.",
 ["programs"],"all functions and branches of the Python package",
 "Seven Python tests reach a small part of the package.",
 ["python/arcticpy"],[("definitions and uses","python/arcticpy/*.py, python/arcticpy/src/wrapper.pyx")])
p("C25","Results do not depend on the memory layout of NumPy inputs",
 "A NumPy image or parameter array gives the same result whatever its dtype, strides or memory order: every buffer handed to C++ is a C-contiguous array of the element type the C++ side expects, with the length the C++ side reads.",
 ["inputs"],"all NumPy arrays (transposed, sliced, Fortran order, other dtypes)",
 "Tests pass freshly created contiguous arrays only.",
 [PYX,PC,IF],[("contiguity check and typed arrays","python/arcticpy/src/wrapper.pyx")])
p("C26","Clocking only touches pixels of the image",
 "Clocking passes over exactly the rows of the requested window; every pixel it reads or writes, every table entry it looks up and every trap manager it asks lies inside the image, the tables and the arrays of managers, for every readout (any number of phases and steps, trap pumping, charge injection), offset, window and image size; charge that clocking carries beyond the edge of the image leaves it.",
 ["inputs","configurations"],"all readouts, numbers of phases, offsets, windows within the image and image sizes",
 "The pixels read and written are computed from the clock sequence at run time; tests run clocking with one phase, or with the neighbours inside the window.",
 [CTI,ROE],[("row arithmetic and edge conditions","src/cti.cpp clock_charge_in_one_direction")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sc)
print(len(P))
