#!/usr/bin/env python3
# writes properties.jsonl and the checks of MANIFEST.json: one table, so that both stay in step
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])], observe_at=observe, hook_needed=None)))
TESTS = "The tests run a few fixed sizes (mostly 10 to 30 per side), 1 to 12 processes, regular pencil/brick grids and whatever message timing the real MPI happens to produce"
F3 = "include/heffte_fft3d.h"; R2 = "include/heffte_fft3d_r2c.h"; PL = "src/heffte_plan_logic.cpp"; RS = "src/heffte_reshape3d.cpp"; CT = "src/heffte_compute_transform.cpp"
p("H01", "Forward transform computes the distributed DFT for every distribution",
  "For every way of distributing the index space over the processes (any legal boxes, box orders, process counts, communicators, 2-D or 3-D), the forward transform leaves in every process exactly the entries of the multi-dimensional discrete Fourier transform that its output box names, in the order of that box, up to the rounding of the precision in use for short and long, smooth and prime lengths alike. Real-valued input to a complex plan gives the transform of the same values with zero imaginary part. This holds whatever the relative speed of the processes and however messages are delayed or buffered.",
  ["inputs", "configurations", "schedules"], "all index-space sizes, legal distributions, box orders, process counts, communicators, backends, options, data, and message timings",
  TESTS + "; irregular, empty, reordered or mixed distributions and hostile timings are not reached.",
  [F3, PL, RS, CT, "include/heffte_backend_stock.h", "include/heffte_backend_fftw.h", "include/heffte_backend_mkl.h", "include/stock_fft"],
  [("plan of reshapes and 1-D/2-D/3-D transforms", PL + ": plan_operations"), ("execution of the stages", CT + ": compute_transform"), ("1-D executors", "include/heffte_backend_*.h: forward")], ["output array of forward()"])
p("H02", "Backward transform inverts the forward one; scaling is exact",
  "The backward transform computes the unnormalised inverse discrete transform of the distributed input for every legal distribution. Forward followed by backward with full scaling on one of them, or symmetric scaling on both, gives back the original data up to rounding; full scaling divides by the number of entries of the real-space index set, symmetric scaling by its square root, and no scaling changes nothing.",
  ["inputs", "configurations", "schedules"], "all sizes, distributions, scalings, directions, precisions and message timings, complex and real-to-complex plans",
  TESTS + "; scaling is tried in a handful of combinations.", [F3, R2, CT, PL, "include/heffte_common.h"],
  [("scaling", F3 + ": get_scale_factor; backend data_scaling::apply"), ("backward sweep of the stages", CT + ": compute_transform")], ["output array of backward()"])
p("H03", "Real-to-complex transforms store exactly the non-redundant half",
  "For every distribution and every choice of the shortened dimension, the real-to-complex forward transform yields the entries 0 … n/2 (rounded down, odd and even n) along that dimension of the full transform of the real data. The complex-to-real backward transform of such data, scaled, returns the real data. Both hold for every legal pair of input and output distributions.",
  ["inputs", "configurations", "schedules"], "all sizes (odd, even, one), shortened dimensions, distributions, precisions, scalings and message timings",
  TESTS + "; odd sizes, unusual distributions and the three directions are sampled sparsely.", [R2, PL, CT],
  [("shortening of the boxes", "include/heffte_geometry.h: box3d::r2c; " + PL + ": apply_r2c"), ("r2c executors", "include/heffte_backend_*.h: *_executor_r2c")], ["output arrays of forward() and backward()"])
p("H04", "Sine and cosine transforms compute their definitions and invert",
  "For every distribution, the sine and cosine transforms (type II/III and the type I variants where offered) compute the separable transform of their type along every dimension. The backward transform with full scaling after the forward one returns the original data.",
  ["inputs", "configurations", "schedules"], "all sizes, distributions, backends that offer the transform, precisions, scalings and message timings",
  TESTS + "; the real transforms are tried on very few sizes and distributions.", ["include/heffte_r2r_executor.h", "include/heffte_backend_fftw.h", F3, CT],
  [("pre- and post-processing around a real-to-complex transform", "include/heffte_r2r_executor.h: real2real_executor, cpu_cos_pre_pos_processor, cpu_sin_pre_pos_processor")], ["output arrays"])
p("H05", "A batch of transforms equals the transforms one after another",
  "Transforming a batch of arrays in one call gives, for every member of the batch, the same result as transforming that array alone. This holds for every batch size, plan kind, direction, scaling and communication option, with a caller-supplied or an internal workspace.",
  ["inputs", "configurations", "schedules"], "all batch sizes, plan kinds, distributions, options and message timings",
  "The tests use batches with few sizes, one or two options and few distributions.", [F3, R2, CT, RS],
  [("offsets per batch entry in stages and in message buffers", CT + "; " + RS + ": apply_base")], ["output arrays of the batch"])
p("H06", "In-place transforms agree with out-of-place ones; inputs stay intact",
  "A complex transform whose input and output are the same array gives the result of the transform with separate arrays, whatever the distributions. A transform with separate arrays never changes the input array.",
  ["inputs", "configurations", "schedules"], "all plan kinds, distributions, batch sizes, entry points and options",
  "The tests exercise in-place calls on a few distributions and never look at the input afterwards.", [F3, R2, CT],
  [("copy of the input when the first stage would work on it", CT + ": compute_transform")], ["input and output arrays (the input array is write protected during the call)"])
p("H07", "Advertised workspace suffices and nothing outside the arrays is touched",
  "Arrays of the advertised sizes are enough: a transform never reads or writes outside the input, the output and a workspace of the advertised size times the batch size, and the result does not depend on what the workspace or the output held before. The advertised sizes equal the sizes of the caller's boxes, do not change during the life of a plan, and are correct on every process, including one with an empty box.",
  ["inputs", "configurations", "schedules"], "all plan kinds, distributions, alignments, batch sizes and options, with unaligned arrays and arbitrary previous contents",
  "The tests allocate through std::vector, where an access outside goes unnoticed, and always from fresh memory.", [F3, R2, CT, RS, "include/heffte_pack3d.h"],
  [("size of the workspace", F3 + ": size_workspace; " + CT + "; include/heffte_reshape3d.h: get_workspace_size")], ["guard pages and canaries around every array"])
p("H08", "Options, backends and index widths never change the result",
  "Plans over the same distribution that differ only in the communication algorithm, the use of pencils or slabs, reordering, backend, index width or way of construction give the same result up to rounding, and the default options are among them.",
  ["configurations", "inputs", "schedules"], "all combinations of options, backends and index widths on the same distribution and data",
  "The tests compare few option sets, each against a fixed reference, on regular grids.", ["include/heffte_plan_logic.h", PL, RS, F3, "include/heffte_backends.h"],
  [("options", "include/heffte_plan_logic.h: plan_options"), ("choice of the reshape", "include/heffte_reshape3d.h: make_reshape3d")], ["output arrays of sibling plans"])
p("H09", "Results depend on the data only, not on what happened before",
  "Whatever was done before with this plan or with other plans (transforms in either direction, precision or batch size, moves, destruction and construction), a call gives the same result as the same call on a fresh plan, bit for bit when repeated on the same plan. A moved plan works like the original, and plans do not influence one another.",
  ["histories", "schedules"], "all sequences of create, transform, move and destroy over several plans and communicators",
  "The tests build a plan, use it once or twice and discard it.", [F3, R2, RS, "include/heffte_backend_fftw.h", "include/heffte_backend_mkl.h"],
  [("lazily built per-precision executors", "include/heffte_backend_fftw.h and heffte_backend_mkl.h: make_plan"), ("move constructors", F3)], ["outputs over a recorded history"],
  [("cached low-level plans", "made at the first use of a precision and direction", "include/heffte_backend_fftw.h, heffte_backend_mkl.h"), ("work vectors of the redistributions", "counts and displacements kept between calls", "include/heffte_reshape3d.h")])
p("H10", "Bitwise the same result under every message timing",
  "The same program on the same data gives bitwise the same result and the same advertised sizes on every run, whichever process is fast or slow, in whichever order messages arrive and complete, and whether the message layer buffers them or not.",
  ["schedules", "fault_sequences"], "all interleavings of the processes, completion orders, buffering decisions, stalls and clocks",
  "A test run observes one timing of the real MPI; it cannot choose the order of completions.", [RS, CT],
  [("unpacking by sender in the order of completion", RS + ": reshape3d_pointtopoint::apply_base"), ("displacements", RS + ": reshape3d_alltoallv, reshape3d_alltoall")], ["output of the same scenario under two schedules"])
p("H11", "Every collective call completes on every process",
  "When every process of a communicator makes the same sequence of calls, each construction, transform and destruction returns on every process after finitely many steps, even if no message is ever buffered, completions arrive in the worst order, processes stall, have empty boxes or take no part in some stage. No call waits for a process that has left the call sequence or for a message nobody sends.",
  ["schedules", "fault_sequences", "configurations"], "all schedules, buffering decisions and completion orders, process counts, distributions and subsets",
  "The real MPI buffers small messages, which hides every deadlock that needs a rendezvous.", [RS, F3, "include/heffte_geometry.h"],
  [("receives posted before sends; matched loops", RS), ("groups that exclude processes without data", RS + ": constructor and MPI_Comm_create in heffte_utils.h")], ["deadlock detector and step bound of the scheduler"])
p("H12", "Redistribution moves every entry exactly once, bit for bit",
  "Redistributing data from one legal distribution to another, with any algorithm, batch size and element type, leaves in every process exactly the entries of its output box in the order of that box, each bit pattern unchanged (NaN payloads and signed zeros included), and writes nothing else.",
  ["inputs", "configurations", "schedules"], "all pairs of distributions and orders, algorithms, element types, batch sizes and message timings",
  "The tests redistribute between a few regular grids and compare numerical values.", [RS, "include/heffte_reshape3d.h", "include/heffte_pack3d.h"],
  [("overlaps of boxes", RS + ": compute_overlap_map_direct_pack, compute_overlap_map_transpose_pack"), ("packing", "include/heffte_pack3d.h: direct_packer, transpose_packer")], ["output array against a map of global indexes"])
p("H13", "Message buffers stay valid and untouched until completion",
  "While a message is in flight its buffer stays allocated and is neither overwritten nor, for a receive, read; every message is received by a receive of matching size and type. When a call returns, no message, request or collective of it remains unfinished.",
  ["schedules", "fault_sequences"], "all schedules and buffering decisions, algorithms, plans, batch sizes",
  "A real MPI copies small messages at once, so an early reuse of a buffer is invisible in most timings.", [RS],
  [("wait for the sends before the buffers are reused or released", RS + ": reshape3d_pointtopoint")], ["every MPI call; message contents compared at post and at completion"])
p("H14", "Plans release everything they acquire",
  "After the destruction of a plan, or a rejected construction, everything it acquired is released exactly once on every process: memory, communicators, groups, datatypes, requests and backend plans. Repeating a cycle of construction, use, move and destruction any number of times leaves the process as the first cycle left it.",
  ["histories", "fault_sequences", "schedules"], "all cycles of construction (including rejected ones), use, move and destruction",
  "The tests do not count resources.", [F3, R2, RS, "include/heffte_utils.h", "include/heffte_backend_fftw.h", "include/heffte_backend_mkl.h"],
  [("destructors and smart pointers", "include/heffte_reshape3d.h; include/heffte_backend_*.h"), ("MPI_Comm_free, MPI_Group_free", "include/heffte_utils.h")], ["resource counters of the simulator between cycles"])
p("H15", "Plans do not interfere with other traffic or with other plans",
  "Messages and collectives of the caller on the same communicator, posted before and completed after transforms, and transforms of other plans on the same or overlapping communicators, neither disturb a transform nor are disturbed by it. No message of the library is matched by a receive of the caller, of another plan or of another call, and the reverse.",
  ["schedules", "programs", "histories"], "all interleavings of user messages, several plans and communicators, whatever process runs ahead",
  "The tests never communicate outside the library while a plan works.", [RS, "include/heffte_utils.h", F3],
  [("duplicated or derived communicators and tags", RS + ": constructors")], ["contents and matching of all messages"])
p("H16", "Transforms confined to a subset of the processes are still right",
  "When the caller limits the computation to a subset of the processes (the first k, or those of a given communicator), only those take part in the transforms (a stage that already has the caller's own distribution excepted), while every process still supplies its input box and receives its output box. The results are the same as without the limit.",
  ["configurations", "inputs", "schedules"], "all k, distributions, plan kinds and message timings",
  "The tests use two or three subset sizes with one grid.", [PL, F3, RS],
  [("subset in the plan", PL + ": plan_operations with num_subranks; include/heffte_plan_logic.h: use_num_subranks")], ["output arrays; boxes of the plan"])
p("H17", "Illegal distributions are rejected by every process, legal ones by none",
  "If the input or output boxes of all the processes do not partition an index space (a hole, an overlap, a wrong origin), construction in a build with assertions, such as the project's own, throws std::invalid_argument on every process, none hangs, nothing is leaked, and the communicator stays usable. Legal distributions are accepted on every process.",
  ["inputs", "configurations", "schedules"], "all illegal and legal collections of boxes, process counts and schedules",
  "The tests try one or two illegal geometries with two processes.", ["include/heffte_geometry.h", PL, F3, R2],
  [("test of the collection of boxes", "include/heffte_geometry.h: world_complete; " + F3 + " and " + R2 + ": constructors")], ["exception per process, progress of a later plan"])
p("H18", "All processes agree on one plan whose stages cover the index space",
  "From the same boxes and options every process derives the same sequence of stages. In each stage the boxes of the processes partition the index space and are complete along the transformed direction, every direction is transformed exactly once, and the sequence starts and ends with the caller's boxes; this holds for index spaces far larger than any test can allocate and for hundreds of processes.",
  ["inputs", "configurations"], "all sizes up to the limit of the index type, distributions, process counts and options",
  "The tests compare a few plans with hand-written answers; large index spaces are out of reach for them.", [PL, "include/heffte_plan_logic.h", "include/heffte_geometry.h"],
  [("planner", PL + ": plan_pencil_reshapes, plan_slab_reshapes, plan_operations"), ("gathering of the boxes", "include/heffte_geometry.h: mpi::gather_boxes")], ["plan computed on every simulated process"])
p("H19", "The documented recipe always gives a legal distribution",
  "For every index space and process count for which a grid of processes exists, the documented helpers for choosing a process grid and splitting the index space give one non-empty box per process, and these boxes partition the index space. The same boxes come out on every process, and a plan made from them works. Where every grid divides the index space evenly, the chosen grid has the smallest surface.",
  ["inputs", "configurations"], "all sizes and process counts for which a grid with non-empty boxes exists: up to 24 with the plan made from it, up to 512 for the grid and the split alone",
  "The tests use a few sizes that divide well.", ["include/heffte_geometry.h", "include/heffte_common.h"],
  [("grid and split", "include/heffte_geometry.h: proc_setup_min_surface, split_world, make_procgrid")], ["boxes per process; the plan made from them"])
p("H20", "The C interface does what the C++ interface does",
  "For every legal sequence of calls the C functions give the results, sizes and scalings of the C++ ones for the same boxes, options and data; the options asked for are the ones in effect, so that both communicate in the same way. Wrong arguments yield the documented error code, a plan that could not be made leaves no valid handle, no C++ exception leaves a C function that returns a code, and destroying a plan releases everything.",
  ["inputs", "programs", "configurations", "schedules"], "all legal call sequences, distributions, options, data kinds and wrong arguments",
  "The C tests cover a single size on one or two processes.", ["src/heffte_c.cpp", "include/heffte_c.h", "include/heffte_c_defines.h"],
  [("dispatch over backend, precision and kind", "src/heffte_c.cpp")], ["return codes, output arrays, resource counters"])
p("H21", "Tracing changes nothing and its files are complete",
  "Switching tracing on or off, at any time and any number of times, changes no result. The trace file of every process holds one well-formed line per recorded event with non-negative times under a monotone clock, it holds the events between the start and the end of its tracing and no others, so that the same operations traced again leave the same number of lines; a file that cannot be written affects nothing else.",
  ["histories", "fault_sequences", "schedules"], "all placements of the start and end of tracing, clocks with skew and jumps, unwritable or full trace files",
  "The tests write one trace with two events and compare names.", ["include/heffte_trace.h"],
  [("event log", "include/heffte_trace.h: add_trace, init_tracing, finalize_tracing")], ["trace files; outputs with and without tracing"])
p("H22", "A failed allocation or backend call is reported and harms nothing",
  "When memory runs out or a backend library reports an error anywhere inside a construction or a transform, the call ends with an exception on the process where it happened, never with a crash, a wrong result or a double release. On a process that works alone the library is as before the call and the same call succeeds when tried again.",
  ["fault_sequences", "crash_points"], "every allocation and backend call of every construction and transform, single or persistent failures, on one or all processes",
  "No test makes an allocation or a backend call fail.", [F3, R2, "include/heffte_backend_mkl.h", "include/heffte_backend_fftw.h", "include/heffte_backend_stock.h", "include/stock_fft", "include/heffte_trace.h"],
  [("exception safety of constructors and owners", "include/heffte_backend_*.h")], ["exception, memory in use, repeated call"])
p("H23", "Container overloads check and return the right sizes",
  "The overloads that take and return containers give the same result as those that take arrays, return containers with exactly the size of the box, and reject a container that is too small with std::invalid_argument before reading or writing anything.",
  ["inputs", "configurations", "schedules"], "all plan kinds, element types, directions, scalings, distributions and container sizes",
  "The tests check one short container and few element types.", [F3, R2, "include/heffte_backend_vector.h"],
  [("size checks", F3 + " and " + R2 + ": forward(buffer_container), backward(buffer_container), backward_real")], ["returned containers, exceptions"])
p("H24", "Fortran interface gives the results of the C++ classes",
  "The Fortran types (fft3d and fft3d_r2c of every CPU backend module) give for every distribution, box order, option, scaling, precision, batch and array kind the results of the transform they stand for. Sizes and scale factors are those of the plan, input arrays stay intact, nothing outside the arrays is touched, illegal geometries are refused, the options asked for are in effect, and assigning, aliasing and releasing the types neither leaks nor releases a plan twice.",
  ["inputs", "configurations", "schedules", "histories"], "all constructors, generic forms (arrays of either precision, with and without workspace and batch), distributions, options, scalings and message timings",
  "The tests run one c2c plan on two processes through one constructor and one pair of forms; the other overloads are never called.", ["fortran", "fortran/generated", F3, R2],
  [("generated types and overloads", "fortran/generated/heffte_*.f90"), ("glue between the types and the classes", "fortran/generated/heffte_*FORTRAN_wrap.cxx")], ["output arrays of forward() and backward(), sizes, exceptions"])
p("H25", "Python interface gives the results of the C interface and checks its arrays",
  "The functions fft3d and fft3d_r2c of the Python module and the plans they make give the right transform in both directions, with and without workspace, for every distribution, box order, backend, scaling and element type. They also work where inbox and outbox differ in size or a box is empty, and for contiguous arrays of any number of dimensions. Wrong array or workspace sizes or types, non-contiguous arrays, a wrong scaling, backend or real direction and an illegal geometry are refused with heffte_input_error before any array is touched. proc_setup and split_world split every world into a grid of boxes without gaps or overlaps, the options asked for are in effect, and plans are released exactly once.",
  ["inputs", "configurations", "schedules", "histories"], "all distributions, arrays, options, sequences of calls and message timings, legal and illegal",
  "The tests run one 4 x 4 x 4 problem on two processes with equal boxes on both sides, and never make a call that has to be refused.", ["python/heffte.py", "src/heffte_c.cpp"],
  [("checks of sizes and types", "python/heffte.py: forward, backward, forward_buffered, backward_buffered"), ("creation and release", "python/heffte.py: fft3d, fft3d_r2c, __del__"), ("recipe for boxes", "python/heffte.py: proc_setup, split_world")], ["arrays after the call, exceptions, boxes"])
p("H26", "CUDA backend gives the right results whatever the device and the streams do",
  "Plans of the CUDA backend (complex, real-to-complex, cosine, sine, cosine-I, redistributions, and the C interface) give for arrays on the device the results of the transform they stand for: every distribution, box order, precision, batch, scaling and option, on the default stream or a blocking or non-blocking stream of the user. This holds whether the device executes its work at once or as late as the program allows, and with an MPI that takes device memory or one that does not (use_gpu_aware off). Kernels and cuFFT calls stay inside their arrays and get the alignment and the kind of memory they need, no work is read before it is finished, input arrays stay intact, no device error is left behind, and destroyed plans leave neither device memory nor cuFFT plans.",
  ["inputs", "configurations", "schedules", "histories"], "all distributions, plan kinds, streams, batches, options, data, and orders in which the device and the MPI get their work done",
  "There is no device and no CUDA compiler where the tests run, so none of this code is compiled by them; on a real device asynchrony is rarely late enough to expose a missing synchronisation.",
  ["include/heffte_backend_cuda.h", "src/heffte_backend_cuda.cu", RS, CT, "include/heffte_backend_vector.h", "include/heffte_r2r_executor.h"],
  [("executors on cuFFT", "include/heffte_backend_cuda.h: cufft_executor, cufft_executor_r2c"), ("kernels", "src/heffte_backend_cuda.cu"), ("synchronisation and staging before MPI", RS + ": apply_base"), ("device containers", "include/heffte_backend_vector.h: device_vector, device_transfer")], ["device arrays after the call, device memory in use, device error state"])
p("H27", "ROCm backend gives the right results whatever the device and the streams do",
  "Plans of the ROCm backend (complex, real-to-complex, cosine, sine, cosine-I, redistributions, and the C interface) give for arrays on the device the results of the transform they stand for: every distribution, box order, precision, batch, scaling and option, on the default stream or one of the user's, whether the device works at once or as late as the program allows, with an MPI that takes device memory or one that does not. rocFFT is set up before it is used, its plans describe the arrays they are given, work spaces are large enough and apart from the data, inputs stay intact, and destroyed plans leave neither device memory nor objects of rocFFT.",
  ["inputs", "configurations", "schedules", "histories"], "all distributions, plan kinds, streams, batches, options, data, and orders in which the device and the MPI get their work done",
  "There is no HIP compiler and no device where the tests run, so none of this code is compiled by them.",
  ["include/heffte_backend_rocm.h", "src/heffte_backend_rocm.hip.cpp", RS, CT, "include/heffte_backend_vector.h"],
  [("executors on rocFFT", "include/heffte_backend_rocm.h: plan_rocfft, rocfft_executor, rocfft_executor_r2c"), ("kernels", "src/heffte_backend_rocm.hip.cpp")], ["device arrays after the call, device memory in use, objects of rocFFT, device error state"])
p("H28", "oneAPI backend gives the right results whatever the device and the queues do",
  "Plans of the oneAPI backend (complex, real-to-complex, cosine, sine and redistributions) give for arrays in device memory the results of the transform they stand for: every distribution, box order, precision, batch, scaling and option, on heFFTe's own queue or an in-order or out-of-order queue of the user, whether the device works at once or as late and in as strange an order as SYCL allows, with an MPI that takes device memory or one that does not. Commands that depend on each other are ordered by events or waits, no memory is released while a command uses it, kernels get no pointer to host memory, inputs stay intact, and destroyed plans leave no device memory.",
  ["inputs", "configurations", "schedules", "histories"], "all distributions, plan kinds, queues, batches, options, data, and orders in which the device and the MPI get their work done",
  "There is no SYCL compiler and no device where the tests run, so none of this code is compiled by them.",
  ["include/heffte_backend_oneapi.h", "src/heffte_backend_oneapi.cpp", RS, CT, "include/heffte_backend_vector.h"],
  [("executors on oneMKL", "include/heffte_backend_oneapi.h: onemkl_executor, onemkl_executor_r2c"), ("kernels", "src/heffte_backend_oneapi.cpp")], ["device arrays after the call, device memory in use"])
NA = []
for id, t, s, f, why in NA: p(id, t, s, ["inputs", "configurations"], "all inputs and configurations", "Not built or only smoke-tested here.", f, [("wrapper or backend", f[0])], ["results"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(here + "/properties.jsonl", "w") as o:
    for x in P: o.write(json.dumps(x, ensure_ascii=False) + "\n")
TRUST = "Seeded search, not proof: a clean run is evidence about the sampled schedules, faults and inputs. Real: all of heFFTe's code, FFTW, MKL. Simulated: MPI, scheduling, clock, allocator, and for the GPU backends the device and its FFT library. Trusts the models of MPI and of the devices, the reference transforms and the rounding bound of the oracle."
m = dict(version=1, setup_cmd="bash setup.sh",
  checks=[dict(property=x["id"], quick_cmd="bash check.sh %s quick" % x["id"], thorough_cmd="bash check.sh %s thorough" % x["id"], technique="deterministic simulation with fault injection (seeded search over schedules, buffering, faults and inputs)", level="exploration", level_note=TRUST) for x in P if x["id"][0] == "H"],
  not_applicable=[dict(property=i, reason=w) for i, _, _, _, w in NA],
  notes="No hooks in /repo: MPI, the allocator, the clock and the backend libraries are seams already. check.sh --replay FILE runs a replay file against the current tree.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False); open(here + "/MANIFEST.json", "a").write("\n")
