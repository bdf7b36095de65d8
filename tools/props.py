NOTES = "Every check rebuilds /repo with /opt/vp/build.sh (into the git-ignored /repo/build), compiles its harness from /verif/checks against the current headers and libraries, and explores. See DESIGN.md."
NA = []

prop("C01", "Neighbour and targeted exchanges deliver exactly what was sent, on any schedule",
 "Whenever a group of processes performs any sequence of neighbour exchanges, one-directional exchanges or targeted sends, each process ends up with exactly the data its peers addressed to it, attributed to the right peer and to the right call, whatever the order in which messages arrive. The operations always terminate, whether or not the message layer buffers sends, and leave no message behind.",
 ["schedules", "inputs", "configurations"], "all message arrival orders, all neighbour graphs, all mixes of empty and non-empty messages, buffered and unbuffered sends, consecutive calls",
 "Tests run 1-4 processes on one machine where messages practically always arrive in one order and small sends are always buffered; a mismatched wildcard receive, a missing barrier or an unsafe send order shows up only on other schedules.",
 ["src/wrappers/mpi/communication.h", "src/wrappers/mpi/communication.hpp"],
 [("exchange with known and unknown sizes", "Communication::exchangeKnownSize, exchangeUnknownSize, exchangeKnownSizeInPlace"), ("one-directional exchange", "Communication::receiveLower*, receiveUpper*, gatherUniformNeighbors"), ("targeted messages", "Communication::sendVariousTargets")],
 "stateless model checking of the real code: all wildcard-match schedules under a controlled MPI runtime", "model_checking",
 "Exhaustive over message-match orders for 2-6 processes, all labelled neighbour graphs up to 3 processes (selected graphs above), one or two consecutive calls; trusts the MPI semantics implemented in /verif/mcmpi.")

prop("C02", "Collective redistribution equals its sequential definition for any process count",
 "Gathering, scattering, broadcasting, reducing, scanning, rebalancing, all-to-all routing and computing balanced splitters of distributed data give, on every process, the result of the sequential definition applied to all contributions, for every number of processes (including odd and prime ones), every sub-range or sub-group of processes, and every combination of empty and non-empty contributions. The operations terminate with and without buffering of sends, and no contribution is lost, duplicated or reordered.",
 ["inputs", "configurations", "schedules"], "all process counts up to the bound, all contribution-size vectors over {0,1,2} for small counts, presence patterns for larger, several element types, both send semantics",
 "The suite uses 1, 2 or 4 processes, never odd counts above one, never empty contributions by construction, and one element type per call site.",
 ["src/wrappers/mpi/communication.h", "src/wrappers/mpi/communication.hpp", "src/wrappers/mpi/communication.cpp"],
 [("recursive-halving collectives", "Communication::RecursiveHalving, gatherUnknownSize, allGatherUnknownSize, allGatherInplace, uniqueAllGatherUnknownSize, allReduce, scatterv, scatter, allToAllWithDataSizeAndTarget"), ("balanced splitters", "Communication::computeSplitters"), ("rebalancing", "Communication::balance"), ("process subsets", "MPISubset, MPITools::setSubset")],
 "exhaustive bounded enumeration of inputs executed on the real code under a controlled MPI runtime (buffered and unbuffered)", "model_checking",
 "All process counts 1-10 (thorough 1-15) with enumerated contribution sizes; the oracle is the sequential definition; trusts /verif/mcmpi's MPI semantics.")

prop("C03", "Loading a database gives exactly the mesh it describes, however it is divided",
 "Loading a database (EnSight Gold ASCII and binary, VTK legacy, Netgen neutral, Neper, Ansys CDB) gives exactly the nodes, elements, materials, regions and (Neper) orientations the files describe, wherever the files are cut among reading processes and threads, for every number of processes and readers, every loader, stripe, chunk and overlap size, line-end style (where the format is text read line by line) and layout allowed by the format; the loading terminates and reads every character of every file exactly once.",
 ["inputs", "configurations"], "files of 0-60 characters x chunk, overlap, stripe x loaders x 1-5 processes x readers; databases of all formats x element types x layouts x 1-6 processes x readers x threads x chunk sizes (positions of cuts)",
 "The suite reads no database at all (all tests use the mesh generator), and a defect shows only when a cut among processes or threads hits a specific record.",
 ["src/input/parsers", "src/basis/io", "src/input/meshbuilder.cpp"],
 [("division of files among processes", "InputFilePack, InputFile, loaders (src/basis/io)"), ("search of keywords", "DistributedScanner"), ("numbers cut among processes and threads", "ASCIIParser, MixedElementsParser"), ("formats", "src/input/parsers/{ensight,vtklegacy,netgen,neper,ansyscdb}")],
 "exhaustive bounded enumeration of databases and their divisions executed on the real parsers under a controlled MPI runtime, compared with the mesh written by an independent generator", "model_checking",
 "Small meshes (up to tens of elements), a product of enumerated layouts and cuts; trusts /verif/mcmpi's MPI semantics. Netgen and EnSight with CRLF, OpenFOAM, Abaqus, XDMF, gmsh and nglib formats are not covered.")

prop("C04", "Merging repeated nodes and elements recovers the original mesh",
 "When the input contains the same node several times (exactly, or moved by less than the duplication tolerance) or the same element several times, on one process or spread over several, the resulting mesh is the mesh without repetitions: each node and element exists once, element connectivity is preserved, and each region contains exactly the nodes and elements of which at least one copy was listed in it. The result does not depend on how copies are spread over processes or threads.",
 ["inputs", "configurations"], "enumerated meshes of all element types x which parts are repeated x copies moved within the tolerance x spread over 1-5 (7) processes x identifier schemes x thread counts",
 "The suite never reads a mesh with duplicates (all tests generate meshes), and a defect shows only for particular placements of copies relative to process and bucket borders.",
 ["src/input/builders/scatteredinput.cpp", "src/input/builders/sequentialinput.cpp", "src/input/builders/input.cpp"],
 [("merging of nodes", "ScatteredInput::mergeDuplicatedNodes, Input::searchDuplicateNodes"), ("merging of elements", "Input::removeDuplicateElements"), ("regions", "SequentialInput::reindexERegions, reindexNRegions, ScatteredInput region masks")],
 "exhaustive bounded enumeration of inputs and placements executed on the real builder under a controlled MPI runtime, compared with the mesh without duplicates", "model_checking",
 "Product of enumerated meshes, repetition modes, placements, process and thread counts; small meshes; trusts /verif/mcmpi's MPI semantics.")

prop("C05", "The distributed mesh is the input mesh, for any distribution of the input",
 "However the nodes, elements and regions of a mesh are initially spread over processes, the mesh held after loading and preprocessing is the same global mesh: every element exists on exactly one process with its type, nodes and material, every node has its coordinates and lists exactly the processes that use it, neighbours of processes are symmetric and complete, element neighbours are exactly the elements sharing a face, each region (elements, boundary elements, nodes) contains exactly what the input put in it, and all global numberings, offsets and totals are consistent on all processes.",
 ["inputs", "configurations"], "all placements of a 2x2 mesh on two processes, and the product of meshes of all element types (linear, quadratic, mixed, several bodies) x input distributions x decomposers x 1-5 (8) processes x threads x region variants",
 "The suite only uses the uniform mesh generator with 1, 2 or 4 processes; loading from a scattered distribution, odd process counts, empty processes, quadratic/mixed elements with boundary regions, and the resulting global numbering are never examined.",
 ["src/input/builders/scatteredinput.cpp", "src/input/builders/sequentialinput.cpp", "src/input/builders/input.cpp", "src/mesh/mesh.cpp", "src/mesh/preprocessing"],
 [("distributed builder", "ScatteredInput, SequentialInput, MeshBuilder::build"), ("reclusterization", "Mesh::reclusterize, mesh::computeElementsClusterization, exchangeElements, sortNodes"), ("regions and statistics", "mesh::computeRegionsElementNodes, computeRegionsElementDistribution, computeRegionsBoundaryDistribution, fillRegionMask"), ("neighbours", "mesh::computeElementsFaceNeighbors, linkNodesAndElements")],
 "exhaustive bounded enumeration of meshes and distributions executed on the real code under a controlled MPI runtime, every process state compared with an independent reference", "model_checking",
 "Product of enumerated meshes, distributions, decomposers, process and thread counts; small meshes; trusts /verif/mcmpi's MPI semantics and METIS/ParMETIS.")

prop("C06", "Bodies, domains and clusters describe the real structure of the mesh",
 "After preprocessing, bodies are exactly the connected components of the whole mesh (through faces, across processes) with unique consistent numbers and statistics, domains are a non-empty partition of the elements of each process, the dual graph of domains connects exactly the domains sharing a face, clusters are exactly the connected groups of domains of a process, nodes list exactly the domains that contain them, element intervals cover all elements without mixing domains or element types, and requested constraints hold (domains do not mix regions or materials when separation is requested; processes are connected when continuity is forced). Preprocessing terminates.",
 ["inputs", "configurations"], "enumerated meshes with one to three bodies x 1-5 (7) processes x distributions x decomposers x 1-5 domains x decomposition options x threads",
 "Tests use the generator whose uniform clusters and domains skip the decomposition code, so discontinuous clusters, several bodies and graph partitioning are practically never exercised; results only depend on it indirectly.",
 ["src/mesh/preprocessing/pure.cpp", "src/mesh/preprocessing/decomposition.cpp", "src/mesh/mesh.cpp"],
 [("bodies", "mesh::computeBodies"), ("clusterization", "mesh::computeElementsClusterization, computeContinuousClusterization, getStronglyConnectedComponents"), ("domains", "mesh::computeElementsDecomposition, computeDomainDual, computeClustersDistribution, computeNodeDomainDistribution"), ("intervals", "mesh::computeElementIntervals")],
 "exhaustive bounded enumeration of meshes, distributions and decomposition settings executed on the real code under a controlled MPI runtime, compared with a graph oracle", "model_checking",
 "Product of enumerated meshes, settings, process and thread counts; small meshes; trusts /verif/mcmpi's MPI semantics and METIS/ParMETIS.")

prop("C07", "The computed solution does not depend on the solver or on the parallelization",
 "For a linear steady-state problem, the temperatures, displacements and derived results are the solution of the assembled problem (up to the requested precision), whatever solver computes them: a direct solver or any FETI variant (total/hybrid, dual operator, projector, preconditioner, iterative solver, regularization), for every number of processes, threads, domains and clusters, every decomposition of the mesh and every execution order of threads. Settings that cannot be used fall back to a usable one or stop with a message; they never give a different solution.",
 ["inputs", "configurations", "schedules"], "product of solver settings x decompositions x processes x threads x element types x physics; orders of threads in parallel regions",
 "Tests compare a handful of configurations of one mesh with uniform decomposition; domains without a kernel, without inner DOFs, several clusters per process, single-domain processes and most combinations of FETI options are never run.",
 ["src/feti", "src/analysis/linearsystem", "src/analysis/pattern", "src/analysis/math", "src/math"],
 [("FETI", "FETI::set, update, solve; TotalFETI*, HybridFETI*, DualOperator, Projector, Preconditioner, IterativeSolver"), ("direct solver", "MKLPDSSLinearSystemSolver"), ("mapping of the mesh to algebra", "UniformBuilderFETI, UniformBuilderDirect, DecompositionFETI")],
 "exhaustive bounded enumeration of solver configurations, decompositions and thread orders executed on the real solver under controlled MPI and OpenMP runtimes, compared with an independent dense reference solution", "model_checking",
 "Product of enumerated settings on small meshes; steady-state problems; trusts /verif/mcmpi, MKL and SuiteSparse.")

prop("C08", "Steady heat transfer solves the stated boundary value problem",
 "For every mesh, element type, material model (isotropic to anisotropic conductivity, constant or depending on coordinates), coordinate system, thickness, and every combination of prescribed temperature, heat source, heat flux and heat flow on regions, the temperature, its gradient and the flux reported in all nodes and elements are those of the finite element discretization of the stated problem, including when several loads share nodes, faces or elements.",
 ["inputs", "configurations"], "product of element types x materials x coordinate systems x loads x constant/coordinate-dependent expressions x distorted meshes x processes x domains x solvers",
 "Each test compares one configuration with stored numbers (which encode whatever was computed then); combinations of material, element, load and expression kinds are not covered.",
 ["src/analysis/assembler/heattransfer.cpp", "src/analysis/assembler/heattransfer", "src/analysis/assembler/general"],
 [("assembler", "HeatTransfer::analyze, connect, evaluate, updateSolution"), ("element kernels", "HeatTransferKernel (kernel.h), op.conductivity, op.integration"), ("boundary kernels", "boundary kernels of heattransfer/kernel.h")],
 "exhaustive bounded enumeration of problems executed on the real assembler and solver under a controlled MPI runtime, compared with an independent finite element reference", "model_checking",
 "Product of enumerated settings on small meshes; the reference is an independent dense FEM code (/verif/lib/feref.h); steady-state linear problems.")

prop("C09", "Linear elasticity solves the stated boundary value problem",
 "For every mesh, element type, isotropic material (constant or depending on coordinates, different in regions), element behaviour (plane stress, plane strain, axisymmetric, with thickness), and every combination of prescribed displacement, normal and directed pressure, nodal forces, acceleration and angular velocity on regions, the displacement, forces, reaction forces, strain and stress reported are those of the finite element discretization of the stated problem, including when several loads share nodes, faces or elements.",
 ["inputs", "configurations"], "product of element types x materials x behaviours x loads x constant/coordinate-dependent expressions x distorted meshes x processes x domains x solvers",
 "Each test compares one configuration with stored numbers; combinations of material, behaviour, element, load and expression kinds are not covered.",
 ["src/analysis/assembler/structuralmechanics.cpp", "src/analysis/assembler/structuralmechanics", "src/analysis/assembler/general"],
 [("assembler", "StructuralMechanics::analyze, connect, evaluate, updateSolution"), ("element kernels", "StructuralMechanicsKernel (kernel.h), op.material, op.matrix.elasticity, op.stress"), ("boundary kernels", "boundary kernels of structuralmechanics/kernel.h")],
 "exhaustive bounded enumeration of problems executed on the real assembler and solver under a controlled MPI runtime, compared with an independent finite element reference", "model_checking",
 "Product of enumerated settings on small meshes; the reference is an independent dense FEM code (/verif/lib/feref.h); steady-state linear problems.")

prop("C10", "Transient and multi-step analyses integrate the stated problem in time",
 "For every mesh, element type, material, time-integration method and its parameters, and every sequence of load steps, the results in every time step are those of the stated time discretization of the problem: heat transfer by the generalized trapezoidal rule (Crank-Nicolson, forward difference, Galerkin, backward difference, or user alpha) with the heat capacity, density and thickness of the material, structural mechanics by the Newmark method with the configured ALPHA and DELTA; loads depending on TIME are evaluated in the time of the step, a following load step continues from the state reached by the previous one with its own loads, and a temperature-dependent conductivity is solved to a consistent non-linear solution. The result does not depend on FETI options, processes and domains.",
 ["inputs", "histories", "configurations"], "product of sequences of load steps (transient, steady then transient, transient then transient, non-linear) x methods x constant/time-dependent loads x element types x materials x processes x domains x FETI options",
 "Tests compare a handful of transient configurations with stored numbers and never check a second load step, loads depending on time, or capacities and thickness different from one.",
 ["src/analysis/physics", "src/analysis/assembler", "src/analysis/scheme", "src/config/ecf/physics", "src/feti"],
 [("heat transfer", "HeatSteadyStateLinear, HeatTransientLinear, HeatSteadyStateNonLinear::run"), ("structural mechanics", "StructuralMechanicsSteadyStateLinear, StructuralMechanicsTransientLinear::run"), ("update of factors and right-hand sides between steps", "FETI::update, DualOperator, Projector, Preconditioner")],
 "exhaustive bounded enumeration of problems and sequences of load steps executed on the real code under a controlled MPI runtime, compared step by step with an independent dense time integration", "model_checking",
 "Product of enumerated settings on small meshes, sequences of at most two load steps and a few time steps; trusts /verif/mcmpi, MKL and SuiteSparse. The conjugate projector is explored with PCG and MPRGP only (the other iterative solvers do not implement it).")

prop("C11", "A configuration means the same however it is written, given and stored",
 "Every parameter of the configuration accepts exactly its documented values: every option sets the value of the same name, numbers, expressions, vectors and texts are read as written, anything else is refused. What a configuration file means does not depend on white space, line ends (also of other systems), comments, letter case of keywords, quotation marks, the optional assignment sign, or on how statements are divided among included files; a value may come from a positional argument, a default argument, a variable, an environment variable or a command line option, in any order of arguments, with the same effect. A malformed file is refused and never read as something else. All processes get the same configuration, and a stored configuration is read back as the same one.",
 ["inputs", "configurations"], "all parameters of all configuration objects x spellings of all their values; all gaps between tokens of a file x all kinds of filling; all blocks of statements moved to an included file; all subsets of values given by arguments or variables; all subsets (to the bound) and orders of command line arguments; all one-token changes of a file",
 "Tests read a few dozen files in one style with options that are in the files; misnumbered options, lost words or accepted malformed files are visible only on spellings and files nobody wrote.",
 ["src/config", "src/wrappers/mpi"],
 [("reader", "ECFReader::read, _read, store (src/config/reader/reader.cpp)"), ("tokenizer", "Tokenizer, CollectiveTokenizer (src/config/reader)"), ("parameters", "ECFValueHolder, ECFVectorHolder, ECFObject (src/config/holders, configuration.cpp)"), ("structure of the configuration", "src/config/ecf")],
 "exhaustive bounded enumeration of configuration files and command lines executed on the real reader on 1-3 processes under a controlled MPI runtime, compared with a reference reading of the token sequence and with the names of enumerators", "model_checking",
 "All 2011 parameters with patterns instantiated once; changes of one file of about 110 tokens (one or two gaps, one token); expressions themselves are taken as given. A line end inside a value of a map is outside of the property (the reader refuses it). Trusts /verif/mcmpi.")

prop("C12", "A generated mesh is exactly the configured grid on any number of processes",
 "The mesh made by the generator fills exactly the configured grid: every cell of every block that is not turned off is divided by elements of the configured type without gaps and overlaps, elements conform on the borders of cells, domains, clusters and blocks, nodes lie in the points of the (projected) lattice, and grids of a set or a tower stand where they are configured. Clusters and domains are the configured sub-grids if they should be uniform. Regions of nodes, edges, faces and elements given by intervals (closed or open) or by a chessboard contain exactly the entities inside, whatever the origin, size, division to blocks, clusters and domains, and also after the mesh is decomposed again.",
 ["inputs", "configurations"], "shapes (grid, set, tower) x element types x all divisions to blocks and clusters up to 8 (12) processes x all subsets of blocks turned off x domains x elements x origins and sizes x projections x region intervals x uniform or computed clusters and domains",
 "Most tests of the suite run on generated meshes but they use one grid with no holes and regions on its sides only; a misplaced block or a lost region node on another division changes results silently.",
 ["src/input/parsers/meshgenerator", "src/input/builders/generatedinput.cpp"],
 [("blocks and their indices", "GridGenerator, GridSetGenerator, GridTowerGenerator (composition)"), ("lattice and regions of a block", "BlockGenerator, BlockSettings (primitives), BlockBorder (selection)"), ("division of a cell to elements", "elements/2D, elements/3D"), ("assembly of the mesh", "GeneratedInput, MeshBuilder")],
 "exhaustive bounded enumeration of generator configurations executed on the real generator on 1-8 processes under a controlled MPI runtime, compared with the lattice, volume, conformity and region membership computed from the configuration", "model_checking",
 "Product of enumerated settings, coverings of pairs where the full product is too large. SPHERE, edge regions and volume node regions in 3D (not implemented), regions on planes inside blocks, sets of grids with more blocks are not covered. Trusts /verif/mcmpi, METIS and ParMETIS.")

prop("C13", "Stored output files and monitors describe the mesh and the results",
 "The stored geometry (EnSight Gold, VTK legacy) contains exactly the nodes, elements, regions and decomposition of the mesh, results stored for a step (scalars, numbered scalars, vectors, symmetric and general tensors, of nodes, elements and boundary elements) are the values held by the solver in the entities they belong to, monitors print exactly the statistics (minimum, maximum, average, norm, absolute minimum and maximum) of the monitored region and quantity in each monitored step, files are listed for exactly the steps selected by the storing and monitoring frequency in all load steps, and all of it is the same for every number of processes, writers, stripes, decompositions and distributions.",
 ["inputs", "histories", "configurations"], "formats x element types x distributions x data types x steps, load steps and frequencies x monitors x 1-4 (6) processes x writers x stripes x collective or independent writes",
 "The suite compares one kind of text output (reports of monitors) of a few quantities; visualization files are never read back and most data types are never stored.",
 ["src/output", "src/mesh/store", "src/basis/io"],
 [("visualization", "EnSightGold, VTKLegacy, OutputFilePack, writers"), ("monitors", "Monitoring, NodeData::statistics, ElementData::statistics"), ("division among writers", "Visualization, OutputFilePack, MPI collective writer")],
 "exhaustive bounded enumeration of meshes, data, histories of steps and divisions executed on the real output under a controlled MPI runtime, files are read back by an independent reader and compared with the data", "model_checking",
 "Product of enumerated settings on small meshes; trusts /verif/mcmpi's MPI and MPI I/O semantics. STL, Netgen and XDMF writers and outputs of contact interfaces are not covered.")

prop("C14", "Asynchronous output stores what the solver computed, on any schedule",
 "When the output runs in a separate thread, every stored file and monitor is the same as the one stored synchronously: values are those of the step for which they were stored, even if the solver changes them before the writer stores them; nothing is lost, repeated, or reordered; both threads always terminate, and the output thread never communicates through the communicator used by the solver.",
 ["schedules", "histories"], "all interleavings of the solver and output threads with at most 2 (3) preemptions, switched at synchronization operations, MPI calls and between updates of data; formats x element types x data x steps x load steps x frequencies",
 "A race between the writer and the solver depends on the relative speed of the file system and of the solver; the suite does not use the asynchronous output at all.",
 ["src/output/output.cpp", "src/wrappers/pthread", "src/mesh/store/nameddata.cpp"],
 [("asynchronous executor", "AsyncOutputExecutor, Pthread::Executor"), ("buffering of data", "NamedData::toBuffer, Mesh::toBuffer"), ("communicators", "MPIGroup / asynchronous communicators of MPITools")],
 "stateless model checking of the real code with a preemption bound: controlled scheduler of the two threads, all schedules enumerated, files read back and compared with the data of each step", "model_checking",
 "One process, preemption bound 2 (thorough 3); threads switch in synchronization operations, MPI calls and between updates of data, not at each memory access. Independence of communicators stands for interleavings of more processes.")
