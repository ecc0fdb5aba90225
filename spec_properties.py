IMPNOTE = "Seeded exploration: holds on every explored (mesh, format variant, process/thread count, reader layout, schedule). Trusts the simulator's MPI/OpenMP/OS models and the independent writer/reader of the databases."
prop("C01", "Data exchange operations deliver exactly what a sequential model prescribes",
     "Every operation of the communication layer (exchanges with known/unknown sizes and neighbours, all-to-all with known/unknown targets, gathers, scatters, broadcasts, scans, sums, balancing, splitters and sorting, group operations, in-place and allocating variants) returns on every process exactly the data that a sequential reference model prescribes, terminates, and leaves no message behind - for any number of processes, any sizes (also empty), any groups and any arrival order of messages, however operations follow each other.",
     ["schedules", "inputs", "configurations"], "every valid program of communication operations, every number of processes, every message schedule and buffering",
     "The tests run with up to 6 processes on a local MPI where messages are buffered and nearly ordered; most of operations are called with a few sizes only.",
     ["src/wrappers/mpi/communication.cpp", "src/wrappers/mpi/communication.hpp", "src/wrappers/mpi/communication.h"],
     [("recursive doubling/halving exchange (all-to-all)", "src/wrappers/mpi/communication.hpp"), ("groups and subsets", "src/wrappers/mpi/communication.cpp"), ("probing of unknown sizes and targets", "src/wrappers/mpi/communication.hpp")],
     note="Seeded exploration of random programs of operations on 1-13 processes. Trusts the simulator's MPI model and the reference model in sim/lib/comm.cpp.",
     observe_at=["returned data", "termination", "messages left in the communicator"])
prop("C03", "Ansys CDB databases are imported completely and exactly",
     "Importing a valid Ansys CDB database yields exactly the elements, node coordinates and named element, face and node sets of the database. The imported mesh does not depend on the number of processes, threads, compute nodes or readers, on the way the file is read and divided, or on the order in which messages arrive.",
     ["inputs", "configurations", "schedules"], "every valid database, every division of the file among processes and threads, every message schedule",
     "The tests import no external database (inputs are generated); whether a record crosses a border of two processes depends on file content, sizes and process counts.",
     ["src/input/parsers/ansyscdb", "src/basis/io/inputfile.cpp", "src/input/parsers/distributedscanner.cpp", "src/input/meshbuilder.cpp", "src/input/scatteredinput.cpp"],
     [("division of the file and overlap of chunks", "src/basis/io/inputfile.cpp"), ("block scanning and per-process/thread parsing", "src/input/parsers/ansyscdb/parser"), ("clustering, linking, duplicate removal", "src/input/input.cpp, src/input/scatteredinput.cpp")],
     note=IMPNOTE, observe_at=["converted database written by the application"], hook_needed="minimal chunk size (ESPRESO_SIM)")
prop("C04", "EnSight and VTK databases are imported completely and exactly",
     "Importing a valid EnSight Gold (ASCII or binary) or VTK legacy database yields exactly the elements, node coordinates and named parts (volume, face and point parts) of the database. The imported mesh does not depend on the number of processes, threads, compute nodes or readers, on the way files are read and divided, or on the order in which messages arrive.",
     ["inputs", "configurations", "schedules"], "every valid database, every division of the files among processes and threads, every message schedule",
     "The tests import no external database; borders of processes and threads fall anywhere in the files.",
     ["src/input/parsers/ensight", "src/input/parsers/vtklegacy", "src/input/parsers/asciiparser.cpp", "src/input/parsers/mixedelementsparser.cpp", "src/basis/io/inputfile.cpp", "src/input/meshbuilder.cpp"],
     [("mixed elements recognition across processes", "src/input/parsers/mixedelementsparser.cpp"), ("coordinates exchange among readers", "src/input/parsers/ensight/parser/geometry.cpp"), ("clustering, linking, duplicate removal", "src/input/input.cpp, src/input/scatteredinput.cpp")],
     note=IMPNOTE, observe_at=["converted database written by the application"], hook_needed="minimal chunk size (ESPRESO_SIM)")
prop("C05", "Netgen and Neper databases are imported completely and exactly",
     "Importing a valid Netgen neutral or Neper mesh yields exactly the elements, node coordinates and named element, boundary and node sets of the mesh. The imported mesh does not depend on the number of processes, threads, compute nodes or readers, on the way the file is read and divided, or on the order in which messages arrive.",
     ["inputs", "configurations", "schedules"], "every valid mesh, every division of the file among processes and threads, every message schedule",
     "The tests import no external database; borders of processes and threads fall anywhere in the files.",
     ["src/input/parsers/netgen", "src/input/parsers/neper", "src/input/parsers/asciiparser.cpp", "src/basis/io/inputfile.cpp", "src/input/meshbuilder.cpp"],
     [("line counting across processes", "src/input/parsers/netgen/parser/neutralmesh.cpp"), ("node sets divided among processes", "src/input/parsers/neper/parser/msh.parser.cpp"), ("clustering, linking", "src/input/input.cpp, src/input/scatteredinput.cpp")],
     note=IMPNOTE, observe_at=["converted database written by the application"], hook_needed="minimal chunk size (ESPRESO_SIM)")
prop("C06", "A stored mesh database is complete, valid and independent of the parallel setup",
     "A mesh stored to EnSight Gold, VTK legacy, STL or Netgen is a valid database of the format that contains exactly the elements, coordinates and named regions of the mesh (its outer surface in the case of STL) - for any number of processes, threads, compute nodes and writers, any decomposition, writer, stripe size and any message schedule.",
     ["inputs", "configurations", "schedules"], "every mesh and set of regions, every output setting, every division among processes and writers, every message schedule",
     "The tests compare monitors only; no stored database is read. Placement of data in files depends on sizes on all processes.",
     ["src/output/visualization", "src/basis/io/outputfile.cpp", "src/basis/io/outputfile.h", "src/mesh/preprocessing"],
     [("division of data among writers", "src/basis/io/outputfile.cpp"), ("headers, offsets and sizes over processes", "src/output/visualization"), ("surface of the mesh", "src/mesh/preprocessing")],
     note="Seeded exploration over random meshes of up to ~300 elements, 1-6 processes and 1-3 threads. Trusts the simulator's MPI/OpenMP/OS models and the independent readers.",
     observe_at=["stored files"])
prop("C07", "Asynchronous output stores exactly the solution of each stored substep",
     "With the asynchronous output (MODE PTHREAD) every stored substep of an analysis contains exactly the values that were valid when the substep was finished, each variable and time is stored exactly once and in order, and the application ends only after everything is stored - however slow the output thread is with respect to the solver and whatever the schedule of processes and threads is.",
     ["schedules", "histories", "configurations"], "every interleaving of the solver and output threads, every sequence of load steps and substeps, every number of processes",
     "All tests use the synchronous output; an overwritten buffer needs the solver to be faster than the output thread.",
     ["src/wrappers/pthread", "src/output/output.cpp", "src/output/visualization", "src/mesh/store/nameddata.cpp"],
     [("hand-over between the solver and the output thread", "src/wrappers/pthread/w.pthread.cpp"), ("snapshot of data", "src/mesh/store/nameddata.cpp, src/output"), ("asynchronous executor", "src/output/output.cpp")],
     note="Seeded exploration over analytic histories (heat transfer and Newmark free fall, 1-3 load steps, up to 5 substeps), 1-6 processes. Trusts the simulator's models and independent readers.",
     observe_at=["stored EnSight/VTK results, case file"])
prop("C09", "The decomposition is a valid partition of the mesh for every decomposer",
     "With any decomposer and its options, every element belongs to exactly one process, domain and cluster; ids are contiguous, a domain is inside one cluster and one process and does not join parts that are not connected, clusters are exactly the connected components of domains of a process, bodies are exactly the connected components of the mesh, requested separation by regions is kept, each process owns some elements - and the decomposition terminates for any mesh, number of processes and threads and message schedule.",
     ["inputs", "configurations", "schedules"], "every mesh (also disconnected), every decomposer and options, every number of processes and threads, every schedule",
     "The tests use connected generated grids; holes, more bodies and empty neighbours depend on the mesh and the number of processes.",
     ["src/mesh/preprocessing", "src/wrappers/metis", "src/wrappers/parmetis", "src/output/visualization"],
     [("dual graph and parallel decomposers", "src/mesh/preprocessing/pure.cpp"), ("domains, clusters, bodies", "src/mesh/preprocessing/decomposition.cpp"), ("exchange of elements", "src/mesh/preprocessing/pure.cpp")],
     note="Seeded exploration over random meshes with holes and more bodies, 1-6 processes and 1-3 threads. Trusts the simulator's models, METIS/ParMETIS and the independent readers.",
     observe_at=["stored decomposition (DOMAIN, CLUSTER, MPI, BODY)"])
prop("C10", "FETI solution is right for every decomposition and schedule",
     "A steady-state linear heat transfer or elasticity problem solved by FETI either ends with the right solution of the finite element problem within the requested precision, stored for every node, or with a reported error. A well-posed problem is solved for any number of processes, threads and domains, decomposer, FETI variant (total/hybrid, implicit/explicit, preconditioner, projector, iterative solver) and any message and thread schedule; a non-converged or invalid solution is never reported as a converged one.",
     ["inputs", "configurations", "schedules"], "every mesh and decomposition, every supported FETI configuration, every message and thread schedule",
     "The tests run a few generated grids with fixed process counts; the ownership of multipliers, neighbours and kernels depends on the decomposition.",
     ["src/feti", "src/analysis", "src/mesh/preprocessing"],
     [("dual vectors and their synchronisation", "src/feti/common"), ("coarse problem across processes", "src/feti/projector"), ("iterative solvers", "src/feti/iterativesolver"), ("gluing of domains", "src/analysis/linearsystem, src/analysis/math")],
     note="Seeded exploration over patch tests (linear exact solutions) with meshes of up to ~160 cells, at most 6 processes and 3 threads. Trusts the simulator's MPI/OpenMP models, MKL and the analytic solutions.",
     observe_at=["stored TEMPERATURE/DISPLACEMENT fields", "exit code"])
prop("C12", "Stored results and monitors are the true history of the analysis",
     "For every sequence of load steps (steady state, transient) each stored substep contains the right solution of that substep (temperature, gradient, flux, displacement, velocity, acceleration, stress and strain) on exactly the nodes and elements of each region, exactly the substeps selected by the storing frequency are stored with the right load step, substep and time, and each monitored statistic is the statistic of the stored property over the whole region - for any number of processes, threads, domains, any output format and any schedule.",
     ["histories", "inputs", "configurations", "schedules"], "every sequence of load steps and substeps, every mesh and region, every division among processes and threads, every schedule",
     "The tests compare monitors of grids with fixed processes and never read stored results; a value of another thread, process, substep or load step is only visible in the whole history.",
     ["src/analysis", "src/output", "src/mesh/store", "src/feti/iterativesolver"],
     [("load steps and time integration", "src/analysis/physics"), ("results of elements and nodes", "src/analysis/assembler"), ("statistics over processes", "src/mesh/store/elementstore.cpp, src/mesh/store/nodestore.cpp, src/output/monitors"), ("stored results", "src/output/visualization")],
     note="Seeded exploration over analytic histories (uniform and linear in space heat transfer, Newmark free fall, constant strain) on random meshes with at least 24 elements per process, 1-6 processes, 1-2 threads. Trusts the simulator's models, MKL and independent readers.",
     observe_at=["stored EnSight/VTK results, case file, monitors"])
prop("C08", "A failed input or output operation never becomes a wrong result",
     "If an I/O operation fails (a file cannot be opened, a read or a write fails or transfers a part only, the disk is full, a directory cannot be created), the application either still gives exactly the right result - imported mesh, stored database, stored results and monitors - or it ends with a described error and a non-zero exit code. It never ends successfully with incomplete or wrong data, never crashes on data that were not read, and never hangs - whichever operation of whichever process fails.",
     ["fault_sequences", "inputs", "configurations", "schedules"], "every I/O operation of every process failing in every way the system reports, every scenario of imports, stored databases and analyses",
     "No test fails any I/O operation; a silently incomplete file is visible only if somebody reads it.",
     ["src/basis/io", "src/wrappers/mpi", "src/output", "src/config/reader", "src/input"],
     [("parallel reading of input files", "src/basis/io/inputfile.cpp, src/basis/io/loader.h"), ("parallel writing of output files", "src/basis/io/outputfile.cpp, src/basis/io/writer.h"), ("monitors and case files", "src/output/monitors/monitoring.cpp, src/output/visualization/ensightgold.cpp"), ("configuration", "src/config/reader/tokenizer.cpp")],
     note="Seeded exploration of I/O faults over the scenarios of C03-C07 and C12. Trusts the simulator's MPI-IO/stdio/OS fault models; faults are reported by the failed call (no silent corruption).",
     observe_at=["exit code and messages", "stored files"])
prop("C13", "Results of finished substeps survive a killed process",
     "If a process of a running analysis is killed at any point, stored results (EnSight/VTK, synchronous or asynchronous output) of all substeps finished and stored before that point, the geometry and, with the synchronous output, monitored values of these substeps are in files and are byte for byte the same as without the crash; monitors contain no values that were not computed, and the application never hangs because of the crash.",
     ["crash_points", "histories", "schedules"], "every process killed at every point of an analysis, every history of load steps, every schedule",
     "No test kills a process; data in a buffer of a process look stored until it is killed.",
     ["src/output", "src/basis/io/outputfile.cpp", "src/wrappers/pthread"],
     [("flushing of monitors", "src/output/monitors/monitoring.cpp"), ("writing of results", "src/basis/io/outputfile.cpp, src/output/visualization"), ("asynchronous output", "src/output/output.cpp, src/wrappers/pthread/w.pthread.cpp")],
     note="Seeded exploration: each history is executed undisturbed and with a kill at a random point under the same seed, files are compared. Trusts the simulator's storage model (written data survive, stdio buffers do not).",
     observe_at=["files left after the crash"])
prop("C11", "Results do not depend on the parallel setup and solver variant",
     "A given problem (mesh, materials, loads, load steps) gives the same stored fields, regions and monitored statistics - up to the precision of the solver - whether it is solved in one process, thread and domain or by any number of processes, threads, clusters and domains, any decomposer, FETI variant (total/hybrid, dual operator, preconditioner, projector option, iterative solver), writer and message schedule.",
     ["configurations", "inputs", "schedules"], "every problem in heat transfer and elasticity (2D/3D, all elements, steady/transient), every parallel setup, solver variant and schedule",
     "Tests compare a few problems with stored numbers of the same setup; assembly, gluing and statistics over borders of processes, threads and domains are exercised by a few regular grids.",
     ["src/analysis", "src/feti", "src/mesh", "src/input/generators", "src/output"],
     [("assembly over intervals, threads and domains", "src/analysis/assembler, src/analysis/pattern"), ("gluing and dual operators", "src/analysis/linearsystem/constrains, src/feti"), ("generated meshes", "src/input/generators"), ("statistics over processes", "src/mesh/store")],
     note="Seeded exploration: each problem is solved by a sequential reference setup and by a random one (1-8 processes). Trusts the simulator's models, MKL and independent readers.",
     observe_at=["stored EnSight/VTK results, monitors"])
prop("C14", "Contact: no penetration, no adhesion, glued bodies match, in any setup",
     "An elastic body in contact with rigid walls, spheres and tubes does not penetrate them, is only pushed by them and only where it touches them; bodies with non-matching meshes glued by mortar constraints find the whole common area and transfer temperature, displacement and load over it exactly for fields the meshes can represent - for any number of processes, threads, clusters and domains, any decomposition, FETI variant and schedule.",
     ["configurations", "inputs", "schedules"], "every wall, sphere, tube and gap; every pair of meshes, overlap and axis; every parallel setup, dual operator, preconditioner and schedule",
     "A few tests compare results of one fixed wall and one pair of grids in one setup; inequality constraints shared by more domains, halos of contact faces and explicit operators over them depend on the decomposition.",
     ["src/mesh/preprocessing/contacts.cpp", "src/feti", "src/analysis/linearsystem/constrains"],
     [("detection and exchange of contact faces", "src/mesh/preprocessing/contacts.cpp"), ("mortar constraints", "src/analysis/linearsystem/constrains/mortar.cpp"), ("inequality constraints of rigid obstacles", "src/analysis/linearsystem/constrains/fixedwall.cpp, fixedsphere.cpp"), ("solver with bounds", "src/feti/iterativesolver/smalbe.cpp, mprgp.cpp")],
     note="Seeded exploration: complementarity conditions at each node, analytic solutions and areas, and the reference setup. Trusts the simulator's models, MKL and independent readers.",
     observe_at=["stored EnSight results (DISPLACEMENT, CONTACT_FORCE, TEMPERATURE), printed contact interfaces"])
prop("N01", "Matrices and vectors of a single element are exact integrals",
     "For every element type, shape and material the local stiffness and mass matrix, right-hand side, gradients, fluxes, strains and stresses equal the integrals (by the element's quadrature) of their definitions.",
     ["inputs"], "every element, geometry and material", "Tests sample a few regular elements and materials.", ["src/analysis/assembler"], [("element kernels", "src/analysis/assembler/heattransfer, src/analysis/assembler/structuralmechanics")],
     na="A pure function of one element: no concurrency, time, I/O or other party, so there is nothing a simulated schedule or fault could decide (patch tests of C10-C12 execute it, but as a part of other properties).")
prop("N02", "Expressions in the configuration are evaluated by rules of arithmetic",
     "An expression of coordinates, time and temperature used in a configuration evaluates to its mathematical value for all values of its parameters.",
     ["inputs"], "every expression and values of its parameters", "Tests sample a few expressions.", ["src/wrappers/exprtk", "src/basis/evaluator"], [("evaluators", "src/basis/evaluator")],
     na="A pure function of its parameters; schedules and faults do not influence it.")
