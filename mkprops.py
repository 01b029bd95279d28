import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","A parallel batch call returns exactly what the sequential loop returns",
"Mapping a function over a list of argument tuples with the batch helper returns the list a plain sequential loop over those arguments returns: one result per argument, in argument order, every call made exactly once with its own positional, fixed and keyword arguments. This holds for every worker kind (none, thread, process), processor cap, process start context and progress bar setting, whatever order the workers start and finish in. When the progress bar is shown it ends at the number of calls made.",
["schedules","inputs","configurations"],"every interleaving of submission, start, completion and result delivery; every list length, argument shape, result value, cap and worker kind",
"The one existing test runs three fixed lists under whatever schedule the machine happens to produce; completion order is never inverted and argument/result shapes are fixed.",
["raytools/utility.py"],[("futures collected in submission order","pool_call"),("executor selection and sizing","TStqdm.__init__")],
[("futures","submitted calls in argument order","pool_call")],["return value","calls received by the workers","progress bar text"])

p("C02","A failing batch call raises the sequential error and leaves no work behind",
"If calls of a batch raise, the batch helper raises the exception of the first failing call in argument order and returns nothing; if a worker process dies, cannot be started, or the wait is interrupted, it raises as well - it never returns a partial, padded or reordered list and never blocks. Once it has returned or raised, no call of that batch starts or is still running and no worker thread or process of it is left.",
["schedules","fault_sequences","inputs"],"every set of failing calls, every point at which a worker dies, fails to start or the caller is interrupted, every schedule",
"No existing test makes a call fail, kills a worker or looks at the pool afterwards.",
["raytools/utility.py"],[("cancel and shut down on exit","pool_call / _finish_pool"),("ordered result()","pool_call")],
[],["exception raised","log of started calls","live workers after return"])

p("C03","The processor cap bounds concurrency and resolves in a fixed order",
"The number of worker processes is the cap given with the call, else the cap in force in the environment setting, else the number of CPUs; setting a positive cap stores it, setting a smaller number or unsetting it clears it, setting None changes nothing, a non-integer is rejected without changing it, and an unusable environment value is ignored. No batch of processes (including every metric of the command line tool, with -n or --no-parallel) ever has more calls running at one time than that number.",
["histories","schedules","configurations"],"every history of set/unset/environment changes mixed with batch calls, every schedule of the workers",
"The existing test checks five steps of one history of the setting and never observes how many calls run at once.",
["raytools/io.py","raytools/utility.py","raytools/cli.py","raytools/evaluate/hvsgsm.py"],[("get_nproc/set_nproc/unset_nproc","raytools/io.py"),("pool size","TStqdm.__init__"),("cap=1 for --no-parallel","cli.metric")],
[("RAYTOOLS_PROC_CAP","cap in force","os.environ")],["get_nproc()","pool size","peak number of running calls"])

p("C04","A completed image write left a complete and correct image",
"When writing a float array (one luminance channel or three colour channels, any width and height) as an HDR image returns normally, the destination - a file or standard output - holds a complete image of the same size and orientation whose pixels are the array values to within the precision of the format and whose header contains every requested header line. If an image tool fails, is missing or is killed, or the destination cannot be opened or filled (full disk, I/O error), the call raises instead of returning.",
["inputs","fault_sequences","crash_points"],"every array shape and value, header text and path; every point at which either helper process or the disk fails, and every split of the data into partial reads and writes",
"Tests write two or three fixed arrays with healthy tools and plenty of disk.",
["raytools/io.py"],[("exit status checked, output written after the tools succeeded","_array2hdr/call_tool")],[],["destination bytes decoded by an independent decoder","exception raised"])

p("C05","An image read returns the image's pixels or raises",
"Reading an HDR image as a luminance array, a colour array or with custom channel weights, from a path or an open stream, returns an array of the image's size and orientation holding exactly the stored pixel values. If the file is missing, truncated anywhere, or not an image, or the reading tool fails, is killed at any point or delivers too little, the call raises; it never returns other, fewer or padded values.",
["inputs","fault_sequences","crash_points"],"every image content, size, encoding and path; every truncation point; every failure point and data split of the helper process",
"Tests read a handful of intact images with a healthy tool.",
["raytools/io.py"],[("exit status and size check","_hdr_in/bytes2np")],[],["returned array against an independent decoder"])

p("C06","Header and view of an image are read truly or the read raises",
"Reading header lines, selected header items, the image size, the view (direction, angle, view point) or the is-it-an-HDR test from a file reports what that file's header says, the last view winning and an absent view reported as absent. If the file is missing or truncated within its header, or the reading tool fails or is killed at any point, the read raises - never a partial header, a default view or a default size presented as the file's own.",
["inputs","fault_sequences","crash_points"],"every header content, size and path; every truncation point of the header; every failure point of the helper process",
"Tests read the header of two intact images.",
["raytools/io.py","raytools/imagetools.py","raytools/evaluate/hvsgsm.py"],[("exit status checks","hdr_header/hdr2vm/img_size/call_tool")],[],["returned header, size, view"])

p("C07","Image input and output always finishes",
"Every image read, write, header read, transform and metric call finishes - with a result or an exception - however large the image, however little the operating system's pipes buffer, however much the helper processes print to their error output, however they interleave, stall for a while, or die. No call ever waits for something that can no longer happen.",
["schedules","fault_sequences","inputs"],"every pipe capacity, image size, stderr volume, stall and death point of the helper processes, every interleaving",
"Tests use small images and quiet, healthy tools: no pipe ever fills.",
["raytools/io.py","raytools/imagetools.py"],[("communicate() drains all pipes","call_tool/_hdr_in/hdr_header")],[],["deadlock detection of the simulator"])

p("C08","Calls leave no descriptors, processes or temporary files behind",
"After any history of library calls and command line runs - successful or failing, with files or standard input as the source - every file descriptor opened and every child process started by those calls is closed and reaped, and the working directory holds no new files other than the requested outputs. Arbitrarily long histories therefore never exhaust descriptors or processes.",
["histories","fault_sequences"],"every sequence of calls with failures injected at any process start, pipe, read or write",
"Tests never inspect descriptors, children or leftover files, and no call in them fails midway.",
["raytools/io.py","raytools/imagetools.py","raytools/cli.py"],[("run()/communicate and with-blocks","raytools/io.py"),("tmp_clean","raytools/cli.py")],[],["open descriptors, unreaped children, directory listing after each call"])

p("C09","A reused glare-sensation object scores like a fresh one",
"Scoring an image with a glare-sensation object that has already loaded and scored any other images, changed its view, or survived failed or interrupted loads, view changes and scorings gives the score a newly made object with the same settings and view gives for that image; the same holds for its saved response image. A load or view change that fails or is interrupted raises and leaves either the previous image or no image in force, never a mixture.",
["histories","fault_sequences","crash_points"],"every sequence of loads (any resolution), scores, view changes and failing loads (missing, torn, non-square, black image, dying tool, out of memory at any allocation)",
"Tests load one image once per object.",
["raytools/evaluate/hvsgsm.py"],[("cached view geometry rebuilt on new resolution or view","GSS.lum/GSS.vm setters")],
[("pixel geometry","values derived from view and resolution","GSS._res/_vecs/_omega/_mask/_ctheta/_sigma_c")],["score","saved response image"])

p("C10","Metric values do not depend on order, repetition, threads or neighbours",
"The value of each glare or illuminance metric depends only on the rays, view and settings given to its metric object: asking for metrics in any order, repeatedly, in any subset, from several objects alive at once, or from several threads each using its own object on shared input arrays gives the same values as one fresh single-threaded evaluation, also after an evaluation that failed or was interrupted. Evaluating metrics never changes the arrays or view object passed in.",
["schedules","histories","inputs","fault_sequences"],"every order and repetition of metric requests, an allocation failure or interrupt at any line, every set of coexisting objects, every preemption point of threads",
"Tests evaluate each object once, in one order, in one thread.",
["raytools/evaluate/basemetricset.py","raytools/evaluate/metricset.py","raytools/evaluate/colormetricset.py","raytools/evaluate/positionindex.py"],[("lazily cached properties keyed by instance","lru_cache properties")],
[("cached intermediate results","one per metric property","lru_cache(1)")],["metric values","input arrays"])

p("C11","Shared or reconfigured view mappers act like fresh ones; inputs stay intact",
"A coordinate mapper used repeatedly, from several threads at once, or after its direction or aspect was reassigned returns for every transform what a newly built mapper with the same settings returns for the same arguments. No coordinate transform, mapper method or image-array transform changes the arrays given to it (other than the image explicitly passed to be drawn into).",
["schedules","histories","inputs"],"every sequence of transforms and reassignments, every preemption point of threads sharing a mapper and input arrays",
"Tests call each transform once on fresh arrays in one thread.",
["raytools/mapper/mapper.py","raytools/mapper/angularmixin.py","raytools/mapper/viewmapper.py","raytools/mapper/solidviewmapper.py","raytools/mapper/perspectiveviewmapper.py","raytools/translate.py","raytools/imagetools.py"],[("pure transforms; setters rebuild rotation, area and inverse view","mapper property setters")],
[("rotation matrices, inverse mapper, area","derived from settings","mapper setters")],["transform results","input arrays"])

p("C12","Library calls do not change process-wide settings",
"Apart from the documented processor cap setting, library calls - whether they succeed, raise, or run in several threads - leave numpy's floating point error handling, the warning filters, the working directory, the environment, the global random state and the standard streams as they were. Registering the calculation-file search path puts the current directory and the package's own directory first, keeps every other entry in order without duplicates, and is unaffected by repetition.",
["histories","schedules","fault_sequences"],"every sequence and thread interleaving of calls, with failures injected inside them; every prior search path",
"Tests never compare process-wide settings before and after.",
["raytools/translate.py","raytools/mapper/viewmapper.py","raytools/evaluate/basemetricset.py","raytools/evaluate/hvsgsm.py","raytools/__init__.py","raytools/io.py"],[("np.errstate blocks","translate/mapper/evaluate"),("set_raypath","raytools/__init__.py")],
[("RAYPATH","search path","os.environ")],["numpy error state, warning filters, cwd, environ, RNG state before and after"])

p("C13","The metric table has one correct row per image in the order given",
"The metric command, and the batch glare-sensation score, give exactly one row (value) per image, in the order the images were given, each equal to what evaluating that image alone gives, under a header naming the requested metrics - for every number of workers, --no-parallel, and every schedule. If any image cannot be read or evaluated or a worker dies, the command ends with a nonzero status and prints no table.",
["schedules","inputs","configurations","fault_sequences"],"every list of images, metric selection and option set, every schedule of the workers, every failing image, tool or worker",
"No test runs the command line; the metric test evaluates one image.",
["raytools/cli.py","raytools/imagetools.py","raytools/evaluate/hvsgsm.py","raytools/utility.py"],[("ordered pool_call results zipped with image names","cli.metric"),("gss_compute","raytools/evaluate/hvsgsm.py")],[],["stdout table, exit status"])

p("C14","Batch image transforms write each image's own complete result",
"Projecting, aligning or converting a list of images (and saving glare response images) writes, for every image (when the source names, file extension aside, all differ), under an output name of its own, the image that processing it alone writes, complete, with source header information kept, and reports the output names in the order given; the source images are unchanged. If any image fails, the run ends with an error, and every output name it reports as written is a complete correct image.",
["schedules","inputs","fault_sequences","configurations"],"every list of images and options, every schedule of the workers, every failing image, tool, disk or worker",
"The existing test transforms single images with healthy tools and compares them loosely.",
["raytools/imagetools.py","raytools/cli.py","raytools/evaluate/hvsgsm.py"],[("per-image output names, pool_call","cli.project/align/solid2ang"),("hdr_* transforms","raytools/imagetools.py")],[],["output files decoded independently, stderr report, exit status, source file bytes"])

p("C15","Jittered samples stay in their own cell for every random stream",
"Whatever the random stream delivers, a jittered pixel or grid coordinate lies within its own pixel or cell (within the centred fraction given by the jitter rate), one sample per requested index in the requested order, so converting it back gives the index it came from; the two coordinates are jittered independently, and with jitter off the sample is the cell centre.",
["inputs","schedules","configurations"],"every random stream including extreme draws, every index set, grid shape, resolution and jitter rate",
"Tests draw a few uncontrolled random samples, or none (pixel jitter always raised).",
["raytools/mapper/mapper.py","raytools/mapper/viewmapper.py"],[("uniform offset added to cell index","idx2uv/pixels")],[],["returned coordinates"])

p("C16","Binary array files round-trip completely or the call raises",
"Writing arrays to a binary file (new or appended) and reading them back - from a path's open file or any stream that may deliver data in pieces - gives the same values in the same shape. If the write cannot be completed or the file holds too little or too much data for the requested shape, the call raises; text loading distinguishes a missing file, an unreadable content and a wrong argument type by the documented exceptions.",
["inputs","fault_sequences","crash_points"],"every array, dtype and shape, every append history, every short write, full disk, I/O error or truncation point",
"The tests write and read two small arrays on a healthy disk.",
["raytools/io.py"],[("np2bytefile/bytefile2np/bytes2np/load_txt","raytools/io.py")],[],["file bytes, returned array, exception"])

p("C25","Filter commands deliver one complete correct output or a failing status",
"The command line tools that act as filters (project, align and solid2ang with their standard output option, cleanheader, smooth) read a file, a redirected file or a pipe, and whenever they end with status 0 they have added exactly the complete, correct output to standard output - the image or table the command's function gives for that input, nothing in front of it, nothing behind it, nothing lost of what was there before, no entry of the header lost - so that chains of them compose. A complete input is never refused; with an incomplete image, a failing helper program, file, memory or interrupt, or an output that is closed, full or cut off, the status is nonzero.",
["inputs","fault_sequences","crash_points"],"every image or table, every chain of commands and options, every way of feeding them, every input torn at any byte, every fault and interruption point, every point at which standard output stops accepting data",
"The tests do not run the commands as filters at all; a pipeline silently fed with a partial or adulterated image produces plausible results downstream.",
["raytools/cli.py","raytools/io.py","raytools/imagetools.py"],[("project/align/solid2ang/cleanheader/smooth","raytools/cli.py"),("_array2hdr, call_tool, _hdr_in","raytools/io.py"),("CleanHeader","raytools/io.py"),("hdr_uv2ang/hdr_ang2uv/hdr_rotate/hdr_solid2ang","raytools/imagetools.py")],[],["standard output bytes","exit status"])

NA="pure function of its arguments: no scheduling, clock, I/O, fault or randomness can influence it, so seeded schedule/fault simulation decides nothing about it"
def na(id,title,statement,files,mech):
    p(id,title,statement,["inputs"],"every input","Tests sample a few inputs; the property is over all real-valued inputs.",files,[(mech,files[0])])
na("C17","Coordinate transforms invert each other","Converting directions to square, fisheye, equisolid, polar or altitude-azimuth coordinates and back returns the original direction for every direction in the view, and likewise starting from coordinates.",["raytools/translate.py","raytools/mapper/angularmixin.py"],"xyz2uv/uv2xyz, xyz2xy, xyz2vxy/vxy2xyz")
na("C18","Pixel solid angles of a view sum to the view's solid angle","For every view angle and resolution the solid angles of the pixels in view sum to the solid angle of the view cone, within discretisation error.",["raytools/mapper/angularmixin.py"],"pixel2omega")
na("C19","Metric formulas match their published definitions","For every set of rays each metric (illuminance, DGP, UGR, UGP, contrast ratios, position index, glare sensation) equals its published closed formula.",["raytools/evaluate/metricset.py","raytools/evaluate/positionindex.py","raytools/evaluate/hvsgsm.py"],"metric properties")
na("C20","Peak normalisation conserves energy","Consolidating the brightest pixels into one source keeps the sum of radiance times solid angle and the number of remaining rays consistent.",["raytools/imagetools.py"],"find_peak/normalize_peak")
na("C21","Header cleaning is idempotent and keeps information","Cleaning an image header keeps every distinct entry and the last view, and cleaning the result again changes nothing.",["raytools/io.py"],"CleanHeader")
na("C22","Resampling, smoothing and quantile filters behave as weighted averages","Resampled, smoothed and quantile-filtered values stay within the range of their inputs and reproduce constant inputs.",["raytools/translate.py"],"resample/non_uniform_gaussian_filter/weighted_quantile")
na("C23","Vector culling keeps one representative per cluster","Every culled vector is within the tolerance of a kept one and no two kept vectors are closer than the tolerance.",["raytools/translate.py"],"cull_vectors")
na("C24","Retinal density functions are continuous and non-negative","Retinal ganglion cell and receptive field densities are finite, non-negative and continuous across meridians for all eccentricities in range.",["raytools/evaluate/retina.py"],"rgcf_density/rgc_density")
with open('/verif/properties.jsonl','w') as f:
    for r in P: f.write(json.dumps(r,ensure_ascii=False)+"\n")
assert all(len(r['title'])<=80 for r in P),[r['title'] for r in P if len(r['title'])>80]
