#!/usr/bin/env python3
# Source of /verif/properties.jsonl (regenerates it byte for byte).
import json, os
def P(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    return dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
                     observe_at=observe,hook_needed=None))
L=[]
T1="The 1441 tests run a few dozen fixed grids, 1-8 processes, in-place transforms only, regular tilings made by the drivers, and judge a round trip by an epsilon printed at the end"
L.append(P("C01","A forward 3d FFT is the 3d DFT of the global grid in the output layout",
 "For every supported global grid, number of processes, input tiling, output tiling, output permutation and option setting, a forward 3d FFT leaves on each process exactly its output tile of the unnormalised 3d discrete Fourier transform (e^{-i...}) of the global input, stored in the requested (0, 1 or 2 times permuted) index order, up to rounding of the working precision. Processes may own empty tiles, tiles may be of any shape and in any rank order, and input and output arrays may be the same or different.",
 ["inputs","configurations"],"all grids with dimensions >= 2 whose factors are 2,3,5; all process counts; all input/output tilings incl. empty and irregular tiles; permute 0/1/2; all collective/exchange/pack/memory settings; in place and out of place; both precisions and 1d libraries",
 T1+"; none of them ever compares a forward result with a DFT, so any error undone by the inverse is invisible, and irregular tilings, empty tiles and out-of-place calls never occur.",
 ["src/fft3d.cpp","src/remap3d.cpp","src/pack3d.h","src/kissfft.h"],
 [("sequence prefast remap / 1d FFT / fast-mid remap / 1d FFT / mid-slow remap / 1d FFT / postslow remap","src/fft3d.cpp compute()"),("pencil layouts and skip-remap decisions","src/fft3d.cpp setup()"),("remap plans","src/fft3d.cpp remap_forward_create()")],
 ["output array of FFT3d::compute(in,out,1)"]))
L.append(P("C02","A forward 2d FFT is the 2d DFT of the global grid in the output layout",
 "For every supported 2d grid, number of processes, input tiling, output tiling, permutation 0 or 1 and option setting, a forward 2d FFT leaves on each process exactly its output tile of the unnormalised 2d discrete Fourier transform of the global input, stored in the requested index order, up to rounding. Tiles may be empty, of any shape and in any rank order, and input and output arrays may be the same or different.",
 ["inputs","configurations"],"as C01, for 2d grids and permute 0/1",
 T1+"; the 2d code is a separate copy of the 3d code with its own remap plans and pack methods, and no test compares a 2d result with a DFT.",
 ["src/fft2d.cpp","src/remap2d.cpp","src/pack2d.h","src/kissfft.h"],
 [("sequence prefast remap / 1d FFT / fast-slow remap / 1d FFT / postslow remap","src/fft2d.cpp compute()"),("pencil layouts and skip-remap decisions","src/fft2d.cpp setup()")],
 ["output array of FFT2d::compute(in,out,1)"]))
L.append(P("C03","A backward 3d FFT is the inverse DFT, from output layout to input layout",
 "For every configuration of C01 a backward 3d FFT takes data in the output layout and leaves on each process its input tile of the inverse 3d DFT (e^{+i...}) in unpermuted order; with scaling on (the default) the result is divided by the number of grid points for every element, so forward followed by backward reproduces the original data, and with scaling off it is the exact unscaled sum (factor N after a round trip). Scaling can be switched on and off before any call and only ever affects backward transforms.",
 ["inputs","configurations","histories"],"all configurations of C01 with arbitrary (not only transformed) backward input, scaled 0/1 toggled between calls, in place and out of place",
 T1+"; different input and output layouts with unequal tile sizes, backward transforms of arbitrary data and out-of-place backward calls are not reached.",
 ["src/fft3d.cpp","src/remap3d.cpp"],
 [("inverse remap chain preslow/slowmid/midfast/postfast","src/fft3d.cpp compute(), remap_inverse_create()"),("norm, normnum and scale_ffts","src/fft3d.cpp")],
 ["output array of FFT3d::compute(in,out,-1)"]))
L.append(P("C04","A backward 2d FFT is the inverse DFT, from output layout to input layout",
 "For every configuration of C02 a backward 2d FFT takes data in the output layout and leaves on each process its input tile of the inverse 2d DFT in unpermuted order; with scaling on every element is divided by the number of grid points so that forward followed by backward reproduces the data, with scaling off it is the unscaled sum. Scaling can be toggled before any call and only affects backward transforms.",
 ["inputs","configurations","histories"],"all configurations of C02 with arbitrary backward input, scaled 0/1 toggled between calls, in place and out of place",
 T1+"; 2d runs with different input/output layouts of unequal sizes are rare and out-of-place 2d calls never occur.",
 ["src/fft2d.cpp","src/remap2d.cpp"],
 [("inverse remap chain preslow/slowfast/postfast","src/fft2d.cpp compute(), remap_inverse_create()"),("norm, normnum and scale_ffts","src/fft2d.cpp")],
 ["output array of FFT2d::compute(in,out,-1)"]))
L.append(P("C05","A 3d remap moves every datum to exactly its place in the new tiling",
 "For every pair of input and output tilings of the same 3d index space, every number of datums per element, permutation 0/1/2, packing method and communication mode, a 3d remap leaves on each process, bit for bit, the datums of exactly the elements of its output tile in the requested index order: nothing lost, duplicated, altered or misplaced, with input and output arrays the same or different and send/receive memory supplied by the caller or internal.",
 ["inputs","configurations"],"all input/output tilings (incl. empty tiles and index spaces of any size or offset), nqty >= 1, permute 0/1/2, pack 0/1/2, collective 0/1, memoryflag 0/1, 1..many processes, repeated remaps, both precisions",
 "The remap library has no test driver of its own: only nqty=2 between library-chosen pencils is exercised by FFT round trips, so nqty=1 or >2, user tilings and the standalone memory modes are never run, and a wrong mapping undone by its inverse passes.",
 ["src/remap3d.cpp","src/pack3d.h"],
 [("collide() and send/recv plans","src/remap3d.cpp setup()"),("pack_3d_*/unpack_3d_* kernels","src/pack3d.h"),("group closure for all2all","src/remap3d.cpp setup()")],
 ["output array of Remap3d::remap()"]))
L.append(P("C06","A 2d remap moves every datum to exactly its place in the new tiling",
 "For every pair of input and output tilings of the same 2d index space, every number of datums per element, permutation 0/1, packing method and communication mode, a 2d remap leaves on each process, bit for bit, the datums of exactly the elements of its output tile in the requested index order, with input and output arrays the same or different and send/receive memory supplied by the caller or internal.",
 ["inputs","configurations"],"all input/output tilings, nqty >= 1, permute 0/1, pack 0/1/2, collective 0/1, memoryflag 0/1, 1..many processes, repeated remaps, both precisions",
 "As C05: the 2d remap code is a second copy with its own kernels, no test calls it directly, and nqty other than 2 is never run.",
 ["src/remap2d.cpp","src/pack2d.h"],
 [("collide() and send/recv plans","src/remap2d.cpp setup()"),("pack_2d_*/unpack_2d_* kernels","src/pack2d.h")],
 ["output array of Remap2d::remap()"]))
L.append(P("C07","Communication, packing and memory options never change an FFT's result",
 "For a fixed grid, tilings, permutation and input, every combination of the collective, exchange, packing and memory options, in place or out of place, yields the same 2d/3d FFT result in both directions: these options only choose how data is moved.",
 ["configurations","inputs"],"all 3 x 2 x 3 x 2 option combinations against each other, in both directions, for generated grids, tilings and process counts",
 "Each test runs one option combination and judges only its own round trip; results of two option settings are never compared and most combinations of options with odd tilings are never run.",
 ["src/fft3d.cpp","src/fft2d.cpp","src/remap3d.cpp","src/remap2d.cpp"],
 [("collective_bp/collective_pp selection","src/fft3d.cpp, src/fft2d.cpp setup()"),("brick exchange (two-stage remaps)","remap_forward_create()/remap_inverse_create()"),("pack/unpack selection","src/remap*.cpp setup()")],
 ["output arrays of compute() under different settings"]))
L.append(P("C08","No operation touches memory outside the sizes it announces",
 "setup/tune announce the data, send and receive sizes; arrays of exactly those sizes (data arrays: 2 x announced FFT size, the input array of an out-of-place call only its own tile) suffice for every later compute, partial operation and remap: the library never reads or writes outside them or its own memory, never uses memory after releasing it, and never modifies the input array of an out-of-place call.",
 ["inputs","configurations","histories"],"all configurations and call histories of the FFT and remap classes, with exact-size caller buffers, memoryflag 0 and 1, either direction",
 "The drivers over-allocate or use internal memory with in-place calls, and run without any memory checker, so overruns that land in slack memory pass.",
 ["src/fft3d.cpp","src/fft2d.cpp","src/remap3d.cpp","src/remap2d.cpp","src/pack3d.h","src/pack2d.h","src/memory.cpp"],
 [("fftsize = max over all layouts; sendsize/recvsize = max over all remaps","src/fft3d.cpp, src/fft2d.cpp setup(), remap_*_create()"),("sendsize/recvsize per remap","src/remap3d.cpp, src/remap2d.cpp setup()")],
 ["caller buffers, sanitizer reports"]))
L.append(P("C09","Results do not depend on message timing, and no operation can deadlock",
 "Under every legal interleaving of the processes, message arrival order and amount of MPI buffering (including none: synchronous sends), setup, tune, compute, partial operations and remaps complete on all processes and give the same results; all processes of the communicator take part in the same collective operations, every message sent is received, and nothing stays pending after an operation sequence ends.",
 ["schedules","inputs","configurations"],"all schedules of the ranks at MPI-call granularity, all completion orders of pending receives, eager / synchronous / mixed sends, for generated configurations and histories of back-to-back operations",
 "Tests run under one MPI library whose eager buffering hides missing receives and ordering assumptions, on an unloaded machine where message order hardly varies.",
 ["src/remap3d.cpp","src/remap2d.cpp","src/fft3d.cpp","src/fft2d.cpp"],
 [("receives posted before sends, Waitany completion loop","src/remap3d.cpp, src/remap2d.cpp remap()"),("identical comm groups on all members","src/remap*.cpp setup()"),("collective decisions by Allreduce/Bcast","src/fft*.cpp setup(), tune()")],
 ["MPI calls issued by the library","results of operations"]))
L.append(P("C10","Instances are independent and operations carry no state from call to call",
 "Any number of FFT and remap instances, on the same or on different (sub-)communicators with any rank order, can be live together and used in any interleaved order; the result of each call depends only on that instance's setup and the call's arguments, never on earlier calls, on other instances, or on changes made after setup to options that are documented to take effect only at setup.",
 ["histories","configurations"],"histories of create/setup/compute/partial operation/toggle/destroy over several live instances on world and sub-communicators",
 "Each test process creates one instance, sets it up once, runs identical forward/backward pairs and exits.",
 ["src/fft3d.cpp","src/fft2d.cpp","src/remap3d.cpp","src/remap2d.cpp"],
 [("all state held in the instance","src/fft3d.h, src/fft2d.h, src/remap3d.h, src/remap2d.h"),("own communicator per collective remap","src/remap*.cpp setup()")],
 ["results of operations in generated histories"]))
L.append(P("C11","Tuning ends in one agreed, documented setting and a working setup",
 "Whatever the timings observed on each process, tune() completes on all processes, performs the documented sequence of trials for its time limit, never runs more FFTs per trial than requested, leaves the collective/exchange settings at those of the fastest collective/exchange trial and the packing at that of the fastest packing trial (documented defaults for options not trialled, the initial settings if no trial fits the limit), the same on every process, restores the caller's memory option, and leaves the instance set up exactly as setup() with those options would; its trial statistics are consistent with the trials run.",
 ["schedules","inputs","configurations"],"all per-process clock behaviours (skewed, coarse, zero, noisy, adversarial), tmax incl. 0 and tiny, niter, flag -1/0/1, tflag 0/1, any initial options, any grid/tiling/process count",
 "Tests use the real clock of one machine, where processes almost always observe the same ranking, and check only the final round trip.",
 ["src/fft3d.cpp","src/fft2d.cpp"],
 [("tune(): trial schedule, best selection, final setup","src/fft3d.cpp, src/fft2d.cpp tune(), tune_trial()"),("broadcast of timings so ranks agree","src/fft*.cpp tune()")],
 ["option fields and trial statistics after tune()","compute() after tune()"]))
L.append(P("C12","Invalid requests are refused on all processes, and valid ones are not",
 "A request the library documents as invalid (wrong precision, dimension below 2 or with a prime factor other than 2,3,5, input extents out of range or inverted on any one process, input tiles whose sizes do not add up to the grid, invalid tuning arguments, setup or tune a second time, supplying buffers before setup or without asking to, or computing/remapping before setup or before buffers were supplied) ends every process of the communicator with an error message and non-zero status: no hang, no crash, no silent acceptance, even when only one process's extents are wrong; every valid request, up to grids of more than 2^31 points, is accepted.",
 ["inputs","histories","fault_sequences"],"all invalid arguments, wrong extents on any one process, all misuse orders of the API, and all valid requests incl. very large grids (setup only)",
 "The test suite contains no negative tests and no grid larger than a few million points.",
 ["src/fft3d.cpp","src/fft2d.cpp","src/remap3d.cpp","src/remap2d.cpp","src/error.cpp"],
 [("argument checks with Allreduce of the error flag","src/fft*.cpp setup(), tune()"),("state flags setupflag/setup_memory_flag","src/fft*.cpp, src/remap*.cpp"),("collective error exit","src/error.cpp")],
 ["exit status and message of every process"]))
L.append(P("C13","Remap-only and partial operations do exactly their part of the transform",
 "With remap-only set, and through the remaps-only call, a transform moves the data bit for bit from the input layout to the output layout (backward: the reverse) without changing any value or scaling; the single-remap calls performed in sequence compose to the same movement; the 1d-FFT-only call performs the 1d transforms in place without communicating.",
 ["inputs","configurations","histories"],"all grids/tilings/permutations/options, both directions, in place and out of place, mixed with full transforms in one history",
 "The partial calls are only used for timing output on zero-filled data in the tests; their effect on data is never looked at.",
 ["src/fft3d.cpp","src/fft2d.cpp"],
 [("remaponly branch of compute(), only_remaps(), only_one_remap(), only_1d_ffts()","src/fft3d.cpp, src/fft2d.cpp"),("two-stage remap helper","src/fft3d.cpp, src/fft2d.cpp remap()")],
 ["arrays after only_*/remap-only calls"]))
L.append(P("C14","The C interface does exactly what the C++ classes do",
 "Every create/set/get/setup/setup_memory/tune/compute/partial/remap/destroy function of the C interface has the same effect and returns the same values as the corresponding C++ method or field, for every documented option and statistics name and every argument position; getters report the live value and correct vector length, and unknown names return the documented failure value.",
 ["inputs","histories"],"all C functions of the four interfaces, all documented keywords, generated arguments and histories compared against a C++ twin instance",
 "Tests check that the C driver's round trip works; keywords, getters, argument order for asymmetric grids/tilings and the C remap interface are not compared with the C++ behaviour.",
 ["src/fft3d_wrap.cpp","src/fft2d_wrap.cpp","src/remap3d_wrap.cpp","src/remap2d_wrap.cpp"],
 [("one-to-one forwarding wrappers and keyword tables","src/*_wrap.cpp, src/*_wrap.h")],
 ["return values, fields and results through the C functions"]))
L.append(P("C15","The Fortran interface equals the C++ one with 1-based indices",
 "Through the Fortran modules shipped with the library, create/set/get/setup/setup_memory/tune/compute/partial/remap/destroy have the same effect and results as the C++ classes, with all tile indices running from 1 to N, buffers passed by c_loc, and the same communicator.",
 ["inputs","histories"],"all module procedures of the four Fortran modules with generated arguments and histories, compared with C++ twins",
 "The Fortran tests compile private copies of the FFT modules kept in test/; the shipped modules and all remap modules are never compiled or run.",
 ["src/fft3d_wrap.f90","src/fft2d_wrap.f90","src/remap3d_wrap.f90","src/remap2d_wrap.f90","src/fft3d_wrap.cpp","src/fft2d_wrap.cpp","src/remap3d_wrap.cpp","src/remap2d_wrap.cpp"],
 [("bind(c) interfaces","src/*_wrap.f90"),("index shift by one in *_fortran wrappers","src/*_wrap.cpp")],
 ["results through the Fortran procedures"]))
L.append(P("C16","Destroying an instance releases everything and only what it owns",
 "An instance can be destroyed at any point of its life (just created, after setup, after tune, after any operations), and destruction then releases all memory, communicators, groups and 1d-FFT plans obtained on its behalf, leaves caller-supplied buffers and all other instances intact, and repeated create/use/destroy cycles do not accumulate resources.",
 ["histories","configurations"],"all instance life histories incl. destroy without setup, repeated tune/setup cycles in fresh instances, caller-supplied and internal memory, options changed after setup",
 "The drivers create one instance, use it and exit; leaks, double frees and destruction of unused instances are not observed.",
 ["src/fft3d.cpp","src/fft2d.cpp","src/remap3d.cpp","src/remap2d.cpp","src/memory.cpp"],
 [("destructors and deallocate_* methods","src/fft*.cpp, src/remap*.cpp")],
 ["live heap blocks, MPI objects and plans after destruction"]))
L.append(P("C17","Transforms of every supported length are accurate to working precision",
 "For every dimension length that is a product of 2s, 3s and 5s, in every grid dimension, in both directions, for both precisions and every 1d FFT library and for any finite data (impulses, constants, real, complex, wide dynamic range), each transform's error relative to the data's norm stays within a small multiple of the machine precision that grows at most slowly with the length; the transform is linear, preserves energy, and shifts map to phases.",
 ["inputs","configurations"],"all 2-3-5-smooth lengths up to a bound in every dimension, data classes incl. impulses at every position, large and tiny magnitudes",
 "Tests use random data of a few sizes (mostly powers of two and small multiples) and an absolute epsilon; most mixed-radix lengths and individual twiddle factors are never observed.",
 ["src/kissfft.h","src/fft3d.cpp","src/fft2d.cpp"],
 [("mixed-radix butterflies and factorisation","src/kissfft.h"),("1d plan setup and sharing between equal dimensions","src/fft3d.cpp, src/fft2d.cpp setup_ffts(), perform_ffts()")],
 ["output of compute() in both directions"]))
L.append(P("C18","Reported sizes and statistics describe the actual decomposition",
 "After setup or tune the reported values are truthful on every process: the FFT size is at least the input and output tile and no larger than the largest tile the process holds at any stage, send/receive sizes are sufficient for every operation, the pencil/brick process grids multiply to the number of processes with 1 along the transform direction, memory usage accounts for exactly the internally allocated send/receive buffers, and library name, precision and option values (documented defaults if never set) report what is in use, also before setup.",
 ["inputs","configurations"],"all grids/tilings/process counts/options, incl. options never set, values read before setup and very large grids (setup only)",
 "No test looks at the reported values.",
 ["src/fft3d.cpp","src/fft2d.cpp","src/remap3d.cpp","src/remap2d.cpp"],
 [("size computation and memusage","src/fft*.cpp setup(), src/remap*.cpp setup()"),("procfactors()","src/fft3d.cpp, src/fft2d.cpp")],
 ["public fields and output arguments after setup()/tune()"]))
L.append(P("C19","The Python wrapper marshals every call to the C interface faithfully",
 "Each method of the Python FFT and remap classes calls the C function of the same name and dimension exactly once, with the instance's own handle and with its arguments in order and type (the caller's numpy arrays, not copies, as buffers), returns exactly the values the C function produced (sizes, 32- and 64-bit integers, doubles, strings, vectors of the right length, None for NULL), and destroys the C instance exactly once; arguments that are not numpy arrays and unknown precisions are refused before any C call.",
 ["inputs","histories"],"all methods, arguments and call sequences of FFT3dMPI, FFT2dMPI, Remap3dMPI and Remap2dMPI, both precisions, both kinds of MPI communicator handle",
 "No Python test exists in the suite (no Python 2, no mpi4py here).",
 ["src/fftmpi.py"],[("ctypes argtypes and forwarding methods","src/fftmpi.py")],["arguments received by the C functions"]))
L.append(P("C20","Running out of memory ends in an error message, not a crash or wrong result",
 "If memory for a table, buffer or trial array, a 1d-FFT plan or the work array of a 1d transform cannot be obtained on any one process during setup, tune or a transform of an FFT or setup of a remap - whichever request it is, and whether later requests succeed or fail - that process prints an error message and the run is aborted on all processes with non-zero status (or the library copes and all later results are right); no process crashes, waits forever, or goes on to use the missing memory.",
 ["fault_sequences","configurations"],"failure of every single memory request (or of all from some request on) on any process, all options, tilings and process counts",
 "The tests never run out of memory; none of the error paths after allocations is executed by them.",
 ["src/remap3d.cpp","src/remap2d.cpp","src/fft3d.cpp","src/fft2d.cpp","src/memory.cpp","src/error.cpp","src/kissfft.h"],
 [("checks after memory->smalloc()/srealloc() and plan creation","src/remap*.cpp setup(), src/fft*.cpp setup(), tune(), setup_ffts(), perform_ffts(), src/kissfft.h kiss_fft_stride()"),("Error::one()","src/error.cpp")],
 ["exit status, output and results of every process"]))
L.append(P("C21","Collective and exchange options select the documented communication pattern",
 "The settings in force at setup() or chosen by tune() (default for FFTs: collective 2, exchange 0; for remaps: collective 1) decide how data travels: with collective 0 all data moves in point-to-point messages, with 1 all in collective operations, with 2 in messages for remaps from or to the caller's layout or bricks and in collectives for pencil-to-pencil remaps, in transforms, remaps-only and single remaps alike; exchange 1 really takes the pencil-to-pencil remaps by way of the reported brick grids, exchange 0 does not; settings changed after setup have no effect. A remap sends each datum of a process's input tile at most once, and only to another process that owns it in the output layout, so a process sends exactly the part of its tile that belongs elsewhere; a transform sends exactly what its single remaps send.",
 ["configurations","inputs"],"all geometries, process counts and option settings (also default, repeated, late, through the C interface, and tuned)",
 "Every test passes whatever way and volume of communication is used; none looks at it.",
 ["src/fft3d.cpp","src/fft2d.cpp","src/remap3d.cpp","src/remap2d.cpp"],
 [("collective argument of remap_forward_create()/remap_backward_create(), brick or pencil exchange","src/fft*.cpp"),("send lists excluding self; MPI_Send and MPI_Alltoallv branches of remap()","src/remap*.cpp")],
 ["bytes passed to MPI by each process"]))
out="".join(json.dumps(p)+"\n" for p in L)
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w").write(out)
