E(AlternatingFrequencyTime::TYPE, "AUTOMATIC", AUTOMATIC)
E(AlternatingFrequencyTime::TYPE, "USER", USER)
E(AutoOptimizationConfiguration::ALGORITHM, "ALL_PERMUTATIONS", ALL_PERMUTATIONS)
E(AutoOptimizationConfiguration::ALGORITHM, "DIFFERENTIAL_EVOLUTION", DIFFERENTIAL_EVOLUTION)
E(AutoOptimizationConfiguration::ALGORITHM, "NONE", NONE)
E(AutoOptimizationConfiguration::ALGORITHM, "PARTICLE_SWARM", PARTICLE_SWARM)
E(AutoOptimizationConfiguration::ALGORITHM, "RANDOM", RANDOM)
E(AutoOptimizationConfiguration::ALGORITHM, "SOMA", SOMA)
E(AutoOptimizationConfiguration::ALGORITHM, "SOMAT3A", SOMAT3A)
E(ContactInterfaceConfiguration::CRITERION, "BOUND", BOUND)
E(ContactInterfaceConfiguration::CRITERION, "GAP", GAP)
E(ContactInterfaceConfiguration::CRITERION, "SKIP", SKIP)
E(ContactInterfaceConfiguration::DETECTION, "ALL_BODIES", ALL_BODIES)
E(ContactInterfaceConfiguration::DETECTION, "BODY_LIST", BODY_LIST)
E(ConvectionConfiguration::FLUID, "AIR", AIR)
E(ConvectionConfiguration::FLUID, "ENGINE_OIL", ENGINE_OIL)
E(ConvectionConfiguration::FLUID, "STEAM", STEAM)
E(ConvectionConfiguration::FLUID, "TRANSFORMER_OIL", TRANSFORMER_OIL)
E(ConvectionConfiguration::FLUID, "WATER", WATER)
E(ConvectionConfiguration::TYPE, "EXTERNAL_FORCED", EXTERNAL_FORCED)
E(ConvectionConfiguration::TYPE, "EXTERNAL_NATURAL", EXTERNAL_NATURAL)
E(ConvectionConfiguration::TYPE, "INTERNAL_FORCED", INTERNAL_FORCED)
E(ConvectionConfiguration::TYPE, "INTERNAL_NATURAL", INTERNAL_NATURAL)
E(ConvectionConfiguration::TYPE, "USER", USER)
E(ConvectionConfiguration::VARIANT, "AVERAGE_PLATE", AVERAGE_PLATE)
E(ConvectionConfiguration::VARIANT, "CIRCULAR_TUBE", CIRCULAR_TUBE)
E(ConvectionConfiguration::VARIANT, "HORIZONTAL_CYLINDER", HORIZONTAL_CYLINDER)
E(ConvectionConfiguration::VARIANT, "HORIZONTAL_PLATE_DOWN", HORIZONTAL_PLATE_DOWN)
E(ConvectionConfiguration::VARIANT, "HORIZONTAL_PLATE_UP", HORIZONTAL_PLATE_UP)
E(ConvectionConfiguration::VARIANT, "INCLINED_WALL", INCLINED_WALL)
E(ConvectionConfiguration::VARIANT, "PARALLEL_PLATES", PARALLEL_PLATES)
E(ConvectionConfiguration::VARIANT, "QUENCH", QUENCH)
E(ConvectionConfiguration::VARIANT, "QUENCH_PARALLEL", QUENCH_PARALLEL)
E(ConvectionConfiguration::VARIANT, "SPHERE", SPHERE)
E(ConvectionConfiguration::VARIANT, "TUBE", TUBE)
E(ConvectionConfiguration::VARIANT, "VERTICAL_WALL", VERTICAL_WALL)
E(CoordinateSystemConfiguration::TYPE, "CARTESIAN", CARTESIAN)
E(CoordinateSystemConfiguration::TYPE, "CYLINDRICAL", CYLINDRICAL)
E(CoordinateSystemConfiguration::TYPE, "SPHERICAL", SPHERICAL)
E(DecompositionConfiguration::ParallelDecomposer, "HILBERT_CURVE", HILBERT_CURVE)
E(DecompositionConfiguration::ParallelDecomposer, "METIS", METIS)
E(DecompositionConfiguration::ParallelDecomposer, "NONE", NONE)
E(DecompositionConfiguration::ParallelDecomposer, "PARMETIS", PARMETIS)
E(DecompositionConfiguration::ParallelDecomposer, "PTSCOTCH", PTSCOTCH)
E(DecompositionConfiguration::SequentialDecomposer, "KaHIP", KAHIP)
E(DecompositionConfiguration::SequentialDecomposer, "METIS", METIS)
E(DecompositionConfiguration::SequentialDecomposer, "NONE", NONE)
E(DecompositionConfiguration::SequentialDecomposer, "Scotch", SCOTCH)
E(DirichletGeneralSchurConfig::AUTOBOOL, "AUTO", AUTO)
E(DirichletGeneralSchurConfig::AUTOBOOL, "FALSE", FALSE)
E(DirichletGeneralSchurConfig::AUTOBOOL, "TRUE", TRUE)
E(DirichletGeneralSchurConfig::MATRIX_ORDER, "AUTO", AUTO)
E(DirichletGeneralSchurConfig::MATRIX_ORDER, "COL_MAJOR", COL_MAJOR)
E(DirichletGeneralSchurConfig::MATRIX_ORDER, "ROW_MAJOR", ROW_MAJOR)
E(DirichletGeneralSchurConfig::SCHUR_IMPL_CPU, "AUTO", AUTO)
E(DirichletGeneralSchurConfig::SCHUR_IMPL_CPU, "MANUAL_SIMPLE", MANUAL_SIMPLE)
E(DirichletGeneralSchurConfig::SCHUR_IMPL_CPU, "MKLPARDISO", MKLPARDISO)
E(DirichletGeneralSchurConfig::SCHUR_IMPL_CPU, "MUMPS", MUMPS)
E(DirichletGeneralSchurConfig::SCHUR_IMPL_CPU, "PASTIX", PASTIX)
E(DirichletGeneralSchurConfig::SCHUR_IMPL_CPU, "SPARSE_SOLVER", SPARSE_SOLVER)
E(DirichletGeneralSchurConfig::SCHUR_IMPL_CPU, "TRIANGULAR", TRIANGULAR)
E(DirichletGeneralSchurConfig::SCHUR_IMPL_GPU, "AUTO", AUTO)
E(DirichletGeneralSchurConfig::SCHUR_IMPL_GPU, "MANUAL_SIMPLE", MANUAL_SIMPLE)
E(DirichletGeneralSchurConfig::SCHUR_IMPL_GPU, "TRIANGULAR", TRIANGULAR)
E(DualOperatorGpuConfig::CONCURRENCY, "AUTO", AUTO)
E(DualOperatorGpuConfig::CONCURRENCY, "PARALLEL", PARALLEL)
E(DualOperatorGpuConfig::CONCURRENCY, "SEQ_CONTINUE", SEQ_CONTINUE)
E(DualOperatorGpuConfig::CONCURRENCY, "SEQ_WAIT", SEQ_WAIT)
E(DualOperatorGpuConfig::DEVICE, "AUTO", AUTO)
E(DualOperatorGpuConfig::DEVICE, "CPU", CPU)
E(DualOperatorGpuConfig::DEVICE, "GPU", GPU)
E(DualOperatorGpuConfig::MATRIX_ORDER, "AUTO", AUTO)
E(DualOperatorGpuConfig::MATRIX_ORDER, "COL_MAJOR", COL_MAJOR)
E(DualOperatorGpuConfig::MATRIX_ORDER, "ROW_MAJOR", ROW_MAJOR)
E(DualOperatorGpuConfig::MATRIX_STORAGE, "AUTO", AUTO)
E(DualOperatorGpuConfig::MATRIX_STORAGE, "DENSE", DENSE)
E(DualOperatorGpuConfig::MATRIX_STORAGE, "SPARSE", SPARSE)
E(DualOperatorGpuConfig::MEMORY_INFO, "ALL", ALL)
E(DualOperatorGpuConfig::MEMORY_INFO, "BASIC", BASIC)
E(DualOperatorGpuConfig::MEMORY_INFO, "NONE", NONE)
E(DualOperatorGpuConfig::PATH_IF_HERMITIAN, "AUTO", AUTO)
E(DualOperatorGpuConfig::PATH_IF_HERMITIAN, "HERK", HERK)
E(DualOperatorGpuConfig::PATH_IF_HERMITIAN, "TRSM", TRSM)
E(DualOperatorGpuConfig::QUEUE_COUNT, "AUTO", AUTO)
E(DualOperatorGpuConfig::QUEUE_COUNT, "PER_DOMAIN", PER_DOMAIN)
E(DualOperatorGpuConfig::QUEUE_COUNT, "PER_THREAD", PER_THREAD)
E(DualOperatorGpuConfig::TIMERS, "ALL", ALL)
E(DualOperatorGpuConfig::TIMERS, "BASIC", BASIC)
E(DualOperatorGpuConfig::TIMERS, "NONE", NONE)
E(DualOperatorGpuConfig::TRIANGLE_MATRIX_SHARING, "AUTO", AUTO)
E(DualOperatorGpuConfig::TRIANGLE_MATRIX_SHARING, "PRIVATE", PRIVATE)
E(DualOperatorGpuConfig::TRIANGLE_MATRIX_SHARING, "SHARED", SHARED)
E(DualOperatorGpuConfig::TRS1_SOLVE_TYPE, "AUTO", AUTO)
E(DualOperatorGpuConfig::TRS1_SOLVE_TYPE, "L", L)
E(DualOperatorGpuConfig::TRS1_SOLVE_TYPE, "LHH", LHH)
E(DualOperatorGpuConfig::TRS2_SOLVE_TYPE, "AUTO", AUTO)
E(DualOperatorGpuConfig::TRS2_SOLVE_TYPE, "U", U)
E(DualOperatorGpuConfig::TRS2_SOLVE_TYPE, "UHH", UHH)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::AUTOBOOL, "AUTO", AUTO)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::AUTOBOOL, "FALSE", FALSE)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::AUTOBOOL, "TRUE", TRUE)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::CPU_GPU, "AUTO", AUTO)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::CPU_GPU, "CPU", CPU)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::CPU_GPU, "GPU", GPU)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::MAINLOOP_UPDATE_SPLIT, "AUTO", AUTO)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::MAINLOOP_UPDATE_SPLIT, "COMBINED", COMBINED)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::MAINLOOP_UPDATE_SPLIT, "SEPARATE", SEPARATE)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::MATRIX_ORDER, "AUTO", AUTO)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::MATRIX_ORDER, "COL_MAJOR", COL_MAJOR)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::MATRIX_ORDER, "ROW_MAJOR", ROW_MAJOR)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::SCHUR_IMPL, "AUTO", AUTO)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::SCHUR_IMPL, "MANUAL_SIMPLE", MANUAL_SIMPLE)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::SCHUR_IMPL, "MKLPARDISO", MKLPARDISO)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::SCHUR_IMPL, "MUMPS", MUMPS)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::SCHUR_IMPL, "PASTIX", PASTIX)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::SCHUR_IMPL, "SPARSE_SOLVER", SPARSE_SOLVER)
E(DualopHybridfetiExplicitGeneralSchurCpuConfig::SCHUR_IMPL, "TRIANGULAR", TRIANGULAR)
E(DualopHybridfetiExplicitGeneralSchurGpuConfig::AUTOBOOL, "AUTO", AUTO)
E(DualopHybridfetiExplicitGeneralSchurGpuConfig::AUTOBOOL, "FALSE", FALSE)
E(DualopHybridfetiExplicitGeneralSchurGpuConfig::AUTOBOOL, "TRUE", TRUE)
E(DualopHybridfetiExplicitGeneralSchurGpuConfig::CPU_GPU, "AUTO", AUTO)
E(DualopHybridfetiExplicitGeneralSchurGpuConfig::CPU_GPU, "CPU", CPU)
E(DualopHybridfetiExplicitGeneralSchurGpuConfig::CPU_GPU, "GPU", GPU)
E(DualopHybridfetiExplicitGeneralSchurGpuConfig::MAINLOOP_UPDATE_SPLIT, "AUTO", AUTO)
E(DualopHybridfetiExplicitGeneralSchurGpuConfig::MAINLOOP_UPDATE_SPLIT, "COMBINED", COMBINED)
E(DualopHybridfetiExplicitGeneralSchurGpuConfig::MAINLOOP_UPDATE_SPLIT, "SEPARATE", SEPARATE)
E(DualopHybridfetiExplicitGeneralSchurGpuConfig::MATRIX_ORDER, "AUTO", AUTO)
E(DualopHybridfetiExplicitGeneralSchurGpuConfig::MATRIX_ORDER, "COL_MAJOR", COL_MAJOR)
E(DualopHybridfetiExplicitGeneralSchurGpuConfig::MATRIX_ORDER, "ROW_MAJOR", ROW_MAJOR)
E(DualopHybridfetiExplicitGeneralSchurGpuConfig::SCHUR_IMPL, "AUTO", AUTO)
E(DualopHybridfetiExplicitGeneralSchurGpuConfig::SCHUR_IMPL, "MANUAL_SIMPLE", MANUAL_SIMPLE)
E(DualopHybridfetiExplicitGeneralSchurGpuConfig::SCHUR_IMPL, "TRIANGULAR", TRIANGULAR)
E(DualopHybridfetiImplicitGeneralSparseSolverCpuConfig::AUTOBOOL, "AUTO", AUTO)
E(DualopHybridfetiImplicitGeneralSparseSolverCpuConfig::AUTOBOOL, "FALSE", FALSE)
E(DualopHybridfetiImplicitGeneralSparseSolverCpuConfig::AUTOBOOL, "TRUE", TRUE)
E(DualopHybridfetiImplicitGeneralSparseSolverCpuConfig::SPARSE_SOLVER_IMPL, "AUTO", AUTO)
E(DualopHybridfetiImplicitGeneralSparseSolverCpuConfig::SPARSE_SOLVER_IMPL, "MKLPARDISO", MKLPARDISO)
E(DualopHybridfetiImplicitGeneralSparseSolverCpuConfig::SPARSE_SOLVER_IMPL, "MUMPS", MUMPS)
E(DualopHybridfetiImplicitGeneralSparseSolverCpuConfig::SPARSE_SOLVER_IMPL, "PASTIX", PASTIX)
E(DualopHybridfetiImplicitGeneralSparseSolverCpuConfig::SPARSE_SOLVER_IMPL, "STRUMPACK", STRUMPACK)
E(DualopHybridfetiImplicitGeneralSparseSolverCpuConfig::SPARSE_SOLVER_IMPL, "SUITESPARSE", SUITESPARSE)
E(DualopHybridfetiImplicitGeneralSparseSolverCpuConfig::SPARSE_SOLVER_IMPL, "SUPERLU_DIST", SUPERLU_DIST)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::AUTOBOOL, "AUTO", AUTO)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::AUTOBOOL, "FALSE", FALSE)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::AUTOBOOL, "TRUE", TRUE)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::CPU_GPU, "AUTO", AUTO)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::CPU_GPU, "CPU", CPU)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::CPU_GPU, "GPU", GPU)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::MAINLOOP_UPDATE_SPLIT, "AUTO", AUTO)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::MAINLOOP_UPDATE_SPLIT, "COMBINED", COMBINED)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::MAINLOOP_UPDATE_SPLIT, "SEPARATE", SEPARATE)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::MATRIX_ORDER, "AUTO", AUTO)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::MATRIX_ORDER, "COL_MAJOR", COL_MAJOR)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::MATRIX_ORDER, "ROW_MAJOR", ROW_MAJOR)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::SCHUR_IMPL, "AUTO", AUTO)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::SCHUR_IMPL, "MANUAL_SIMPLE", MANUAL_SIMPLE)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::SCHUR_IMPL, "MKLPARDISO", MKLPARDISO)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::SCHUR_IMPL, "MUMPS", MUMPS)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::SCHUR_IMPL, "PASTIX", PASTIX)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::SCHUR_IMPL, "SPARSE_SOLVER", SPARSE_SOLVER)
E(DualopTotalfetiExplicitGeneralSchurCpuConfig::SCHUR_IMPL, "TRIANGULAR", TRIANGULAR)
E(DualopTotalfetiExplicitGeneralSchurGpuConfig::AUTOBOOL, "AUTO", AUTO)
E(DualopTotalfetiExplicitGeneralSchurGpuConfig::AUTOBOOL, "FALSE", FALSE)
E(DualopTotalfetiExplicitGeneralSchurGpuConfig::AUTOBOOL, "TRUE", TRUE)
E(DualopTotalfetiExplicitGeneralSchurGpuConfig::CPU_GPU, "AUTO", AUTO)
E(DualopTotalfetiExplicitGeneralSchurGpuConfig::CPU_GPU, "CPU", CPU)
E(DualopTotalfetiExplicitGeneralSchurGpuConfig::CPU_GPU, "GPU", GPU)
E(DualopTotalfetiExplicitGeneralSchurGpuConfig::MAINLOOP_UPDATE_SPLIT, "AUTO", AUTO)
E(DualopTotalfetiExplicitGeneralSchurGpuConfig::MAINLOOP_UPDATE_SPLIT, "COMBINED", COMBINED)
E(DualopTotalfetiExplicitGeneralSchurGpuConfig::MAINLOOP_UPDATE_SPLIT, "SEPARATE", SEPARATE)
E(DualopTotalfetiExplicitGeneralSchurGpuConfig::MATRIX_ORDER, "AUTO", AUTO)
E(DualopTotalfetiExplicitGeneralSchurGpuConfig::MATRIX_ORDER, "COL_MAJOR", COL_MAJOR)
E(DualopTotalfetiExplicitGeneralSchurGpuConfig::MATRIX_ORDER, "ROW_MAJOR", ROW_MAJOR)
E(DualopTotalfetiExplicitGeneralSchurGpuConfig::SCHUR_IMPL, "AUTO", AUTO)
E(DualopTotalfetiExplicitGeneralSchurGpuConfig::SCHUR_IMPL, "MANUAL_SIMPLE", MANUAL_SIMPLE)
E(DualopTotalfetiExplicitGeneralSchurGpuConfig::SCHUR_IMPL, "TRIANGULAR", TRIANGULAR)
E(DualopTotalfetiImplicitGeneralSparseSolverCpuConfig::AUTOBOOL, "AUTO", AUTO)
E(DualopTotalfetiImplicitGeneralSparseSolverCpuConfig::AUTOBOOL, "FALSE", FALSE)
E(DualopTotalfetiImplicitGeneralSparseSolverCpuConfig::AUTOBOOL, "TRUE", TRUE)
E(DualopTotalfetiImplicitGeneralSparseSolverCpuConfig::SPARSE_SOLVER_IMPL, "AUTO", AUTO)
E(DualopTotalfetiImplicitGeneralSparseSolverCpuConfig::SPARSE_SOLVER_IMPL, "MKLPARDISO", MKLPARDISO)
E(DualopTotalfetiImplicitGeneralSparseSolverCpuConfig::SPARSE_SOLVER_IMPL, "MUMPS", MUMPS)
E(DualopTotalfetiImplicitGeneralSparseSolverCpuConfig::SPARSE_SOLVER_IMPL, "PASTIX", PASTIX)
E(DualopTotalfetiImplicitGeneralSparseSolverCpuConfig::SPARSE_SOLVER_IMPL, "STRUMPACK", STRUMPACK)
E(DualopTotalfetiImplicitGeneralSparseSolverCpuConfig::SPARSE_SOLVER_IMPL, "SUITESPARSE", SUITESPARSE)
E(DualopTotalfetiImplicitGeneralSparseSolverCpuConfig::SPARSE_SOLVER_IMPL, "SUPERLU_DIST", SUPERLU_DIST)
E(ECF::INPUT_TYPE, "EXTERNAL_FILE", EXTERNAL_FILE)
E(ECF::INPUT_TYPE, "GENERATOR", GENERATOR)
E(ECFHarmonicExpressionVector::Type, "COMPONENTS", COMPONENTS)
E(ElasticityPropertiesConfiguration::MATERIAL_MODEL, "BONET_WOOD", BONET_WOOD)
E(ElasticityPropertiesConfiguration::MATERIAL_MODEL, "KIRCHHOFF", KIRCHHOFF)
E(ElasticityPropertiesConfiguration::MATERIAL_MODEL, "NEO_HOOKEAN_CMP", NEO_HOOKEAN_CMP)
E(ElasticityPropertiesConfiguration::MODEL, "ISOTROPIC", ISOTROPIC)
E(FETIConfiguration::DUAL_OPERATOR, "EXPLICIT", EXPLICIT)
E(FETIConfiguration::DUAL_OPERATOR, "EXPLICIT_GENERALSCHUR_CPU", EXPLICIT_GENERALSCHUR_CPU)
E(FETIConfiguration::DUAL_OPERATOR, "EXPLICIT_GENERALSCHUR_GPU", EXPLICIT_GENERALSCHUR_GPU)
E(FETIConfiguration::DUAL_OPERATOR, "EXPLICIT_GPU", EXPLICIT_GPU)
E(FETIConfiguration::DUAL_OPERATOR, "IMPLICIT", IMPLICIT)
E(FETIConfiguration::DUAL_OPERATOR, "IMPLICIT_GENERALSPARSESOLVER_CPU", IMPLICIT_GENERALSPARSESOLVER_CPU)
E(FETIConfiguration::DUAL_OPERATOR, "IMPLICIT_GPU", IMPLICIT_GPU)
E(FETIConfiguration::FIX_POINTS, "METIS_CENTERS", METIS_CENTERS)
E(FETIConfiguration::FIX_POINTS, "RANDOM", RANDOM)
E(FETIConfiguration::FIX_POINTS, "SPHERICAL", SPHERICAL)
E(FETIConfiguration::ITERATIVE_SOLVER, "BiCGStab", BICGSTAB)
E(FETIConfiguration::ITERATIVE_SOLVER, "GMRES", GMRES)
E(FETIConfiguration::ITERATIVE_SOLVER, "MPRGP", MPRGP)
E(FETIConfiguration::ITERATIVE_SOLVER, "PCG", PCG)
E(FETIConfiguration::ITERATIVE_SOLVER, "SMALBE", SMALBE)
E(FETIConfiguration::ITERATIVE_SOLVER, "orthogonalPCG", orthogonalPCG)
E(FETIConfiguration::METHOD, "HYBRID_FETI", HYBRID_FETI)
E(FETIConfiguration::METHOD, "TOTAL_FETI", TOTAL_FETI)
E(FETIConfiguration::PRECONDITIONER, "DIRICHLET", DIRICHLET)
E(FETIConfiguration::PRECONDITIONER, "DIRICHLET_GENERALSCHUR_CPU", DIRICHLET_GENERALSCHUR_CPU)
E(FETIConfiguration::PRECONDITIONER, "DIRICHLET_GENERALSCHUR_GPU", DIRICHLET_GENERALSCHUR_GPU)
E(FETIConfiguration::PRECONDITIONER, "DIRICHLET_IMPLICIT", DIRICHLET_IMPLICIT)
E(FETIConfiguration::PRECONDITIONER, "LUMPED", LUMPED)
E(FETIConfiguration::PRECONDITIONER, "NONE", NONE)
E(FETIConfiguration::PROJECTOR, "CONJUGATE", CONJUGATE)
E(FETIConfiguration::PROJECTOR, "ORTHOGONAL", ORTHOGONAL)
E(FETIConfiguration::PROJECTOR_OPT, "DEFAULT", DEFAULT)
E(FETIConfiguration::PROJECTOR_OPT, "FULL", FULL)
E(FETIConfiguration::PROJECTOR_OPT, "WITH_FACTORS", WITH_FACTORS)
E(FETIConfiguration::REGULARIZATION, "ALGEBRAIC", ALGEBRAIC)
E(FETIConfiguration::REGULARIZATION, "ANALYTIC", ANALYTIC)
E(FETIConfiguration::REGULARIZATION, "SVD", SVD)
E(FETIConfiguration::STOPPING_CRITERION, "ABSOLUTE", ABSOLUTE)
E(FETIConfiguration::STOPPING_CRITERION, "RELATIVE", RELATIVE)
E(GENERATOR_ELEMENT_TYPE, "HEXA20", HEXA20)
E(GENERATOR_ELEMENT_TYPE, "HEXA8", HEXA8)
E(GENERATOR_ELEMENT_TYPE, "PRISMA15", PRISMA15)
E(GENERATOR_ELEMENT_TYPE, "PRISMA6", PRISMA6)
E(GENERATOR_ELEMENT_TYPE, "PYRAMID13", PYRAMID13)
E(GENERATOR_ELEMENT_TYPE, "PYRAMID5", PYRAMID5)
E(GENERATOR_ELEMENT_TYPE, "SQUARE4", SQUARE4)
E(GENERATOR_ELEMENT_TYPE, "SQUARE8", SQUARE8)
E(GENERATOR_ELEMENT_TYPE, "TETRA10", TETRA10)
E(GENERATOR_ELEMENT_TYPE, "TETRA4", TETRA4)
E(GENERATOR_ELEMENT_TYPE, "TRIANGLE3", TRIANGLE3)
E(GENERATOR_ELEMENT_TYPE, "TRIANGLE6", TRIANGLE6)
E(GpuHerkDdnxDdnyTriaConfig::HERK_TRIA_STRATEGY, "AUTO", AUTO)
E(GpuHerkDdnxDdnyTriaConfig::HERK_TRIA_STRATEGY, "SQUARES", SQUARES)
E(GpuHerkDdnxDdnyTriaConfig::HERK_TRIA_STRATEGY, "STAIRS", STAIRS)
E(GpuHerkDdnxDdnyTriaConfig::PARTITION_ALGORITHM, "AUTO", AUTO)
E(GpuHerkDdnxDdnyTriaConfig::PARTITION_ALGORITHM, "MINIMUM_WORK", MINIMUM_WORK)
E(GpuHerkDdnxDdnyTriaConfig::PARTITION_ALGORITHM, "UNIFORM", UNIFORM)
E(GpuHerkDdnxDdnyTriaConfig::PARTITION_STRATEGY, "AUTO", AUTO)
E(GpuHerkDdnxDdnyTriaConfig::PARTITION_STRATEGY, "CHUNK_COUNT", CHUNK_COUNT)
E(GpuHerkDdnxDdnyTriaConfig::PARTITION_STRATEGY, "CHUNK_SIZE", CHUNK_SIZE)
E(GpuSchurHcsxDdnyManualSimpleConfig::MATRIX_ORDER, "AUTO", AUTO)
E(GpuSchurHcsxDdnyManualSimpleConfig::MATRIX_ORDER, "COL_MAJOR", COL_MAJOR)
E(GpuSchurHcsxDdnyManualSimpleConfig::MATRIX_ORDER, "ROW_MAJOR", ROW_MAJOR)
E(GpuSchurHcsxDdnyManualSimpleConfig::SPARSE_SOLVER_IMPL, "AUTO", AUTO)
E(GpuSchurHcsxDdnyManualSimpleConfig::SPARSE_SOLVER_IMPL, "MKLPARDISO", MKLPARDISO)
E(GpuSchurHcsxDdnyManualSimpleConfig::SPARSE_SOLVER_IMPL, "MUMPS", MUMPS)
E(GpuSchurHcsxDdnyManualSimpleConfig::SPARSE_SOLVER_IMPL, "PASTIX", PASTIX)
E(GpuSchurHcsxDdnyManualSimpleConfig::SPARSE_SOLVER_IMPL, "STRUMPACK", STRUMPACK)
E(GpuSchurHcsxDdnyManualSimpleConfig::SPARSE_SOLVER_IMPL, "SUITESPARSE", SUITESPARSE)
E(GpuSchurHcsxDdnyManualSimpleConfig::SPARSE_SOLVER_IMPL, "SUPERLU_DIST", SUPERLU_DIST)
E(GpuSchurHcsxDdnyManualSimpleConfig::SPDN, "AUTO", AUTO)
E(GpuSchurHcsxDdnyManualSimpleConfig::SPDN, "DENSE", DENSE)
E(GpuSchurHcsxDdnyManualSimpleConfig::SPDN, "SPARSE", SPARSE)
E(GpuSchurHcsxDdnyTriaConfig::MATRIX_ORDER, "AUTO", AUTO)
E(GpuSchurHcsxDdnyTriaConfig::MATRIX_ORDER, "COL_MAJOR", COL_MAJOR)
E(GpuSchurHcsxDdnyTriaConfig::MATRIX_ORDER, "ROW_MAJOR", ROW_MAJOR)
E(GpuSchurHcsxDdnyTriaConfig::SPARSE_SOLVER_IMPL, "AUTO", AUTO)
E(GpuSchurHcsxDdnyTriaConfig::SPARSE_SOLVER_IMPL, "MKLPARDISO", MKLPARDISO)
E(GpuSchurHcsxDdnyTriaConfig::SPARSE_SOLVER_IMPL, "MUMPS", MUMPS)
E(GpuSchurHcsxDdnyTriaConfig::SPARSE_SOLVER_IMPL, "PASTIX", PASTIX)
E(GpuSchurHcsxDdnyTriaConfig::SPARSE_SOLVER_IMPL, "STRUMPACK", STRUMPACK)
E(GpuSchurHcsxDdnyTriaConfig::SPARSE_SOLVER_IMPL, "SUITESPARSE", SUITESPARSE)
E(GpuSchurHcsxDdnyTriaConfig::SPARSE_SOLVER_IMPL, "SUPERLU_DIST", SUPERLU_DIST)
E(GpuTrsmHcsxDdnyTriaConfig::MATRIX_ORDER, "AUTO", AUTO)
E(GpuTrsmHcsxDdnyTriaConfig::MATRIX_ORDER, "COL_MAJOR", COL_MAJOR)
E(GpuTrsmHcsxDdnyTriaConfig::MATRIX_ORDER, "ROW_MAJOR", ROW_MAJOR)
E(GpuTrsmHcsxDdnyTriaConfig::PARTITION_ALGORITHM, "AUTO", AUTO)
E(GpuTrsmHcsxDdnyTriaConfig::PARTITION_ALGORITHM, "MINIMUM_WORK", MINIMUM_WORK)
E(GpuTrsmHcsxDdnyTriaConfig::PARTITION_ALGORITHM, "UNIFORM", UNIFORM)
E(GpuTrsmHcsxDdnyTriaConfig::PARTITION_STRATEGY, "AUTO", AUTO)
E(GpuTrsmHcsxDdnyTriaConfig::PARTITION_STRATEGY, "CHUNK_COUNT", CHUNK_COUNT)
E(GpuTrsmHcsxDdnyTriaConfig::PARTITION_STRATEGY, "CHUNK_SIZE", CHUNK_SIZE)
E(GpuTrsmHcsxDdnyTriaConfig::PRUNING_STRATEGY, "AUTO", AUTO)
E(GpuTrsmHcsxDdnyTriaConfig::PRUNING_STRATEGY, "COLS_ONLY", COLS_ONLY)
E(GpuTrsmHcsxDdnyTriaConfig::PRUNING_STRATEGY, "NO_PRUNING", NO_PRUNING)
E(GpuTrsmHcsxDdnyTriaConfig::PRUNING_STRATEGY, "ROWS_AND_COLS", ROWS_AND_COLS)
E(GpuTrsmHcsxDdnyTriaConfig::PRUNING_STRATEGY, "ROWS_ONLY", ROWS_ONLY)
E(GpuTrsmHcsxDdnyTriaConfig::SPDN, "AUTO", AUTO)
E(GpuTrsmHcsxDdnyTriaConfig::SPDN, "DENSE", DENSE)
E(GpuTrsmHcsxDdnyTriaConfig::SPDN, "SPARSE", SPARSE)
E(GpuTrsmHcsxDdnyTriaConfig::SPDN_CRITERIA, "AUTO", AUTO)
E(GpuTrsmHcsxDdnyTriaConfig::SPDN_CRITERIA, "DENSE_ONLY", DENSE_ONLY)
E(GpuTrsmHcsxDdnyTriaConfig::SPDN_CRITERIA, "FACTOR_DENSITY", FACTOR_DENSITY)
E(GpuTrsmHcsxDdnyTriaConfig::SPDN_CRITERIA, "FRACTION_OF_FACTOR_SIZE", FRACTION_OF_FACTOR_SIZE)
E(GpuTrsmHcsxDdnyTriaConfig::SPDN_CRITERIA, "FRACTION_OF_NUM_CHUNKS", FRACTION_OF_NUM_CHUNKS)
E(GpuTrsmHcsxDdnyTriaConfig::SPDN_CRITERIA, "SPARSE_ONLY", SPARSE_ONLY)
E(GpuTrsmHcsxDdnyTriaConfig::TRSM_TRIA_STRATEGY, "AUTO", AUTO)
E(GpuTrsmHcsxDdnyTriaConfig::TRSM_TRIA_STRATEGY, "SPLIT_FACTOR", SPLIT_FACTOR)
E(GpuTrsmHcsxDdnyTriaConfig::TRSM_TRIA_STRATEGY, "SPLIT_RHS", SPLIT_RHS)
E(GridTowerGeneratorConfiguration::COMPOSITION, "FREE", FREE)
E(GridTowerGeneratorConfiguration::COMPOSITION, "GLUED", GLUED)
E(GridTowerGeneratorConfiguration::DIRECTION, "X", X)
E(GridTowerGeneratorConfiguration::DIRECTION, "Y", Y)
E(GridTowerGeneratorConfiguration::DIRECTION, "Z", Z)
E(HYPREBiCGSTABConfiguration::PRECONDITIONER, "BoomerAMG", BoomerAMG)
E(HYPREBiCGSTABConfiguration::PRECONDITIONER, "Euclid", Euclid)
E(HYPREBiCGSTABConfiguration::PRECONDITIONER, "NONE", NONE)
E(HYPREBiCGSTABConfiguration::PRECONDITIONER, "ParaSails", ParaSails)
E(HYPREBiCGSTABConfiguration::PRECONDITIONER, "Pilut", Pilut)
E(HYPREBiCGSTABConfiguration::SOLVER_INFO, "NO_INFO", NO_INFO)
E(HYPREBiCGSTABConfiguration::SOLVER_INFO, "SETUP_INFO", SETUP_INFO)
E(HYPREBiCGSTABConfiguration::SOLVER_INFO, "SETUP_SOLVE_INFO", SETUP_SOLVE_INFO)
E(HYPREBiCGSTABConfiguration::SOLVER_INFO, "SOLVE_INFO", SOLVE_INFO)
E(HYPREBoomerAMGConfiguration::AGGRESSIVE_COARSENING_INTERP, "MULTIPASS", MULTIPASS)
E(HYPREBoomerAMGConfiguration::AGGRESSIVE_COARSENING_INTERP, "TWO_STAGE_EXTENDED", TWO_STAGE_EXTENDED)
E(HYPREBoomerAMGConfiguration::AGGRESSIVE_COARSENING_INTERP, "TWO_STAGE_IEXTENDED", TWO_STAGE_IEXTENDED)
E(HYPREBoomerAMGConfiguration::AGGRESSIVE_COARSENING_INTERP, "TWO_STAGE_STANDARD", TWO_STAGE_STANDARD)
E(HYPREBoomerAMGConfiguration::COARSENING_TYPE, "CGC", CGC)
E(HYPREBoomerAMGConfiguration::COARSENING_TYPE, "CGC_E", CGC_E)
E(HYPREBoomerAMGConfiguration::COARSENING_TYPE, "CLJP", CLJP)
E(HYPREBoomerAMGConfiguration::COARSENING_TYPE, "Falgout", Falgout)
E(HYPREBoomerAMGConfiguration::COARSENING_TYPE, "HMIS", HMIS)
E(HYPREBoomerAMGConfiguration::COARSENING_TYPE, "PMIS", PMIS)
E(HYPREBoomerAMGConfiguration::COARSENING_TYPE, "Ruge_Stuben", Ruge_Stuben)
E(HYPREBoomerAMGConfiguration::CYCLE_TYPE, "V_CYCLE", V_CYCLE)
E(HYPREBoomerAMGConfiguration::CYCLE_TYPE, "W_CYCLE", W_CYCLE)
E(HYPREBoomerAMGConfiguration::HYPREBoomerAMGCycleRelaxTypeConfiguration::RELAX_TYPE_CYCLE, "COAREST", COAREST)
E(HYPREBoomerAMGConfiguration::HYPREBoomerAMGCycleRelaxTypeConfiguration::RELAX_TYPE_CYCLE, "DOWN", DOWN)
E(HYPREBoomerAMGConfiguration::HYPREBoomerAMGCycleRelaxTypeConfiguration::RELAX_TYPE_CYCLE, "UP", UP)
E(HYPREBoomerAMGConfiguration::HYPREBoomerAMGCycleSweepsConfiguration::RELAX_TYPE_CYCLE, "COAREST", COAREST)
E(HYPREBoomerAMGConfiguration::HYPREBoomerAMGCycleSweepsConfiguration::RELAX_TYPE_CYCLE, "DOWN", DOWN)
E(HYPREBoomerAMGConfiguration::HYPREBoomerAMGCycleSweepsConfiguration::RELAX_TYPE_CYCLE, "UP", UP)
E(HYPREBoomerAMGConfiguration::INTERPOLATION_TYPE, "CLASSIC_BLOCK", CLASSIC_BLOCK)
E(HYPREBoomerAMGConfiguration::INTERPOLATION_TYPE, "CLASSIC_BLOCK_DIAG", CLASSIC_BLOCK_DIAG)
E(HYPREBoomerAMGConfiguration::INTERPOLATION_TYPE, "CLASSIC_HYPERBOLIC", CLASSIC_HYPERBOLIC)
E(HYPREBoomerAMGConfiguration::INTERPOLATION_TYPE, "CLASSIC_MODIFF", CLASSIC_MODIFF)
E(HYPREBoomerAMGConfiguration::INTERPOLATION_TYPE, "DIRECT", DIRECT)
E(HYPREBoomerAMGConfiguration::INTERPOLATION_TYPE, "EXTENDED", EXTENDED)
E(HYPREBoomerAMGConfiguration::INTERPOLATION_TYPE, "EXTENDED_I", EXTENDED_I)
E(HYPREBoomerAMGConfiguration::INTERPOLATION_TYPE, "EXTENDED_I_NO_NEIGHBOR", EXTENDED_I_NO_NEIGHBOR)
E(HYPREBoomerAMGConfiguration::INTERPOLATION_TYPE, "FF", FF)
E(HYPREBoomerAMGConfiguration::INTERPOLATION_TYPE, "FF1", FF1)
E(HYPREBoomerAMGConfiguration::INTERPOLATION_TYPE, "LS", LS)
E(HYPREBoomerAMGConfiguration::INTERPOLATION_TYPE, "MULTIPASSS_SEPARATION", MULTIPASSS_SEPARATION)
E(HYPREBoomerAMGConfiguration::INTERPOLATION_TYPE, "MULTLIPASS", MULTLIPASS)
E(HYPREBoomerAMGConfiguration::INTERPOLATION_TYPE, "STANDARD", STANDARD)
E(HYPREBoomerAMGConfiguration::INTERPOLATION_TYPE, "STANDARD_SEPPARATION", STANDARD_SEPPARATION)
E(HYPREBoomerAMGConfiguration::INTERP_VEC_VARIANT, "GM1", GM1)
E(HYPREBoomerAMGConfiguration::INTERP_VEC_VARIANT, "GM2", GM2)
E(HYPREBoomerAMGConfiguration::INTERP_VEC_VARIANT, "LM", LM)
E(HYPREBoomerAMGConfiguration::INTERP_VEC_VARIANT, "NONE", NONE)
E(HYPREBoomerAMGConfiguration::MEASURE_TYPE, "GLOBAL", GLOBAL)
E(HYPREBoomerAMGConfiguration::MEASURE_TYPE, "LOCAL", LOCAL)
E(HYPREBoomerAMGConfiguration::NODAL_SYS_COARSENING, "ALL_BLOC_SUM", ALL_BLOC_SUM)
E(HYPREBoomerAMGConfiguration::NODAL_SYS_COARSENING, "FROBENIUSNORM", FROBENIUSNORM)
E(HYPREBoomerAMGConfiguration::NODAL_SYS_COARSENING, "LARGEST_ELEM_BLOCK", LARGEST_ELEM_BLOCK)
E(HYPREBoomerAMGConfiguration::NODAL_SYS_COARSENING, "SUM_ABSOLUTE_BLOCK", SUM_ABSOLUTE_BLOCK)
E(HYPREBoomerAMGConfiguration::NODAL_SYS_COARSENING, "SUM_ROW", SUM_ROW)
E(HYPREBoomerAMGConfiguration::NODAL_SYS_COARSENING, "UNKNOWN", UNKNOWN)
E(HYPREBoomerAMGConfiguration::RELAX_TYPE, "CG", CG)
E(HYPREBoomerAMGConfiguration::RELAX_TYPE, "Chebyshev", Chebyshev)
E(HYPREBoomerAMGConfiguration::RELAX_TYPE, "FCF", FCF)
E(HYPREBoomerAMGConfiguration::RELAX_TYPE, "GE", GE)
E(HYPREBoomerAMGConfiguration::RELAX_TYPE, "GSIP", GSIP)
E(HYPREBoomerAMGConfiguration::RELAX_TYPE, "GSS", GSS)
E(HYPREBoomerAMGConfiguration::RELAX_TYPE, "HCHGS", HCHGS)
E(HYPREBoomerAMGConfiguration::RELAX_TYPE, "HGSB", HGSB)
E(HYPREBoomerAMGConfiguration::RELAX_TYPE, "HGSF", HGSF)
E(HYPREBoomerAMGConfiguration::RELAX_TYPE, "HSGS", HSGS)
E(HYPREBoomerAMGConfiguration::RELAX_TYPE, "Jacobi", Jacobi)
E(HYPREBoomerAMGConfiguration::RELAX_TYPE, "LSHSGS", LSHSGS)
E(HYPREBoomerAMGConfiguration::RELAX_TYPE, "LSJ", LSJ)
E(HYPREBoomerAMGConfiguration::SMOOTH_TYPE, "EUCLID", EUCLID)
E(HYPREBoomerAMGConfiguration::SMOOTH_TYPE, "PARASAILS", PARASAILS)
E(HYPREBoomerAMGConfiguration::SMOOTH_TYPE, "PILUT", PILUT)
E(HYPREBoomerAMGConfiguration::SMOOTH_TYPE, "SCHWARZ", SCHWARZ)
E(HYPREBoomerAMGConfiguration::SOLVER_INFO, "NO_INFO", NO_INFO)
E(HYPREBoomerAMGConfiguration::SOLVER_INFO, "SETUP_INFO", SETUP_INFO)
E(HYPREBoomerAMGConfiguration::SOLVER_INFO, "SETUP_SOLVE_INFO", SETUP_SOLVE_INFO)
E(HYPREBoomerAMGConfiguration::SOLVER_INFO, "SOLVE_INFO", SOLVE_INFO)
E(HYPRECGNRConfiguration::PRECONDITIONER, "BoomerAMG", BoomerAMG)
E(HYPRECGNRConfiguration::PRECONDITIONER, "NONE", NONE)
E(HYPRECGNRConfiguration::SOLVER_INFO, "NO_INFO", NO_INFO)
E(HYPRECGNRConfiguration::SOLVER_INFO, "SETUP_INFO", SETUP_INFO)
E(HYPRECGNRConfiguration::SOLVER_INFO, "SETUP_SOLVE_INFO", SETUP_SOLVE_INFO)
E(HYPRECGNRConfiguration::SOLVER_INFO, "SOLVE_INFO", SOLVE_INFO)
E(HYPREConfiguration::SOLVER_TYPE, "BiCGSTAB", BiCGSTAB)
E(HYPREConfiguration::SOLVER_TYPE, "BoomerAMG", BoomerAMG)
E(HYPREConfiguration::SOLVER_TYPE, "CGNR", CGNR)
E(HYPREConfiguration::SOLVER_TYPE, "FlexGMRES", FlexGMRES)
E(HYPREConfiguration::SOLVER_TYPE, "GMRES", GMRES)
E(HYPREConfiguration::SOLVER_TYPE, "LGMRES", LGMRES)
E(HYPREConfiguration::SOLVER_TYPE, "PCG", PCG)
E(HYPREFlexGMRESConfiguration::PRECONDITIONER, "BoomerAMG", BoomerAMG)
E(HYPREFlexGMRESConfiguration::PRECONDITIONER, "Euclid", Euclid)
E(HYPREFlexGMRESConfiguration::PRECONDITIONER, "NONE", NONE)
E(HYPREFlexGMRESConfiguration::PRECONDITIONER, "ParaSails", ParaSails)
E(HYPREFlexGMRESConfiguration::PRECONDITIONER, "Pilut", Pilut)
E(HYPREFlexGMRESConfiguration::SOLVER_INFO, "NO_INFO", NO_INFO)
E(HYPREFlexGMRESConfiguration::SOLVER_INFO, "SETUP_INFO", SETUP_INFO)
E(HYPREFlexGMRESConfiguration::SOLVER_INFO, "SETUP_SOLVE_INFO", SETUP_SOLVE_INFO)
E(HYPREFlexGMRESConfiguration::SOLVER_INFO, "SOLVE_INFO", SOLVE_INFO)
E(HYPREGMRESConfiguration::PRECONDITIONER, "BoomerAMG", BoomerAMG)
E(HYPREGMRESConfiguration::PRECONDITIONER, "Euclid", Euclid)
E(HYPREGMRESConfiguration::PRECONDITIONER, "NONE", NONE)
E(HYPREGMRESConfiguration::PRECONDITIONER, "ParaSails", ParaSails)
E(HYPREGMRESConfiguration::PRECONDITIONER, "Pilut", Pilut)
E(HYPREGMRESConfiguration::SOLVER_INFO, "NO_INFO", NO_INFO)
E(HYPREGMRESConfiguration::SOLVER_INFO, "SETUP_INFO", SETUP_INFO)
E(HYPREGMRESConfiguration::SOLVER_INFO, "SETUP_SOLVE_INFO", SETUP_SOLVE_INFO)
E(HYPREGMRESConfiguration::SOLVER_INFO, "SOLVE_INFO", SOLVE_INFO)
E(HYPRELGMRESConfiguration::PRECONDITIONER, "BoomerAMG", BoomerAMG)
E(HYPRELGMRESConfiguration::PRECONDITIONER, "Euclid", Euclid)
E(HYPRELGMRESConfiguration::PRECONDITIONER, "NONE", NONE)
E(HYPRELGMRESConfiguration::PRECONDITIONER, "ParaSails", ParaSails)
E(HYPRELGMRESConfiguration::PRECONDITIONER, "Pilut", Pilut)
E(HYPRELGMRESConfiguration::SOLVER_INFO, "NO_INFO", NO_INFO)
E(HYPRELGMRESConfiguration::SOLVER_INFO, "SETUP_INFO", SETUP_INFO)
E(HYPRELGMRESConfiguration::SOLVER_INFO, "SETUP_SOLVE_INFO", SETUP_SOLVE_INFO)
E(HYPRELGMRESConfiguration::SOLVER_INFO, "SOLVE_INFO", SOLVE_INFO)
E(HYPREPCGConfiguration::PRECONDITIONER, "BoomerAMG", BoomerAMG)
E(HYPREPCGConfiguration::PRECONDITIONER, "Euclid", Euclid)
E(HYPREPCGConfiguration::PRECONDITIONER, "NONE", NONE)
E(HYPREPCGConfiguration::PRECONDITIONER, "ParaSails", ParaSails)
E(HYPREPCGConfiguration::PRECONDITIONER, "Pilut", Pilut)
E(HYPREPCGConfiguration::SOLVER_INFO, "NO_INFO", NO_INFO)
E(HYPREPCGConfiguration::SOLVER_INFO, "SETUP_INFO", SETUP_INFO)
E(HYPREPCGConfiguration::SOLVER_INFO, "SETUP_SOLVE_INFO", SETUP_SOLVE_INFO)
E(HYPREPCGConfiguration::SOLVER_INFO, "SOLVE_INFO", SOLVE_INFO)
E(HYPREParaSailsConfiguration::SYMMETRY, "NON_DEF_SPD", NON_DEF_SPD)
E(HYPREParaSailsConfiguration::SYMMETRY, "NON_INF", NON_INF)
E(HYPREParaSailsConfiguration::SYMMETRY, "SPD", SPD)
E(HarmonicOuputConfiguration::STORE_FREQUENCY, "EVERY_FREQUENCY", EVERY_FREQUENCY)
E(HarmonicOuputConfiguration::STORE_FREQUENCY, "EVERY_NTH_FREQUENCY", EVERY_NTH_FREQUENCY)
E(HarmonicOuputConfiguration::STORE_FREQUENCY, "NEVER", NEVER)
E(HarmonicOuputConfiguration::STORE_FREQUENCY, "SPECIFIC_FREQUENCIES", SPECIFIC_FREQUENCIES)
E(HarmonicSolverConfiguration::INTERVAL_TYPE, "LINEAR", LINEAR)
E(HarmonicSolverConfiguration::INTERVAL_TYPE, "LOGARITHMIC", LOGARITHMIC)
E(HarmonicSolverConfiguration::INTERVAL_TYPE, "OCTAVE_BAND", OCTAVE_BAND)
E(HarmonicSolverConfiguration::OCTAVE_BAND, "1", BAND_1)
E(HarmonicSolverConfiguration::OCTAVE_BAND, "1/12", BAND_12)
E(HarmonicSolverConfiguration::OCTAVE_BAND, "1/2", BAND_2)
E(HarmonicSolverConfiguration::OCTAVE_BAND, "1/24", BAND_24)
E(HarmonicSolverConfiguration::OCTAVE_BAND, "1/3", BAND_3)
E(HarmonicSolverConfiguration::OCTAVE_BAND, "1/6", BAND_6)
E(HeatTransferGlobalSettings::KERNEL, "OLD", OLD)
E(HeatTransferGlobalSettings::KERNEL, "OPT", OPT)
E(HeatTransferGlobalSettings::KERNEL, "VEC", VEC)
E(HeatTransferGlobalSettings::STABILIZATION, "CAU", CAU)
E(HeatTransferGlobalSettings::STABILIZATION, "SUPG", SUPG)
E(HerkDnxDnyTriaConfig::HERK_TRIA_STRATEGY, "AUTO", AUTO)
E(HerkDnxDnyTriaConfig::HERK_TRIA_STRATEGY, "SQUARES", SQUARES)
E(HerkDnxDnyTriaConfig::HERK_TRIA_STRATEGY, "STAIRS", STAIRS)
E(HerkDnxDnyTriaConfig::PARTITION_ALGORITHM, "AUTO", AUTO)
E(HerkDnxDnyTriaConfig::PARTITION_ALGORITHM, "MINIMUM_WORK", MINIMUM_WORK)
E(HerkDnxDnyTriaConfig::PARTITION_ALGORITHM, "UNIFORM", UNIFORM)
E(HerkDnxDnyTriaConfig::PARTITION_STRATEGY, "AUTO", AUTO)
E(HerkDnxDnyTriaConfig::PARTITION_STRATEGY, "CHUNK_COUNT", CHUNK_COUNT)
E(HerkDnxDnyTriaConfig::PARTITION_STRATEGY, "CHUNK_SIZE", CHUNK_SIZE)
E(HumanThermoregulationSystem::ACTIVITY_LEVEL_UNIT, "EASY_WORK", EASY_WORK)
E(HumanThermoregulationSystem::ACTIVITY_LEVEL_UNIT, "HARD_WORK", HARD_WORK)
E(HumanThermoregulationSystem::ACTIVITY_LEVEL_UNIT, "STANDING", STANDING)
E(HumanThermoregulationSystem::ACTIVITY_LEVEL_UNIT, "TEACHER", TEACHER)
E(HumanThermoregulationSystem::ACTIVITY_LEVEL_UNIT, "WALKING_0_PRCT", WALKING_0_PRCT)
E(HumanThermoregulationSystem::ACTIVITY_LEVEL_UNIT, "WALKING_15_PRCT", WALKING_15_PRCT)
E(HumanThermoregulationSystem::ACTIVITY_LEVEL_UNIT, "WALKING_5_PRCT", WALKING_5_PRCT)
E(INPUT_GENERATOR_SHAPE, "GRID", GRID)
E(INPUT_GENERATOR_SHAPE, "GRID_SET", GRID_SET)
E(INPUT_GENERATOR_SHAPE, "GRID_TOWER", GRID_TOWER)
E(INPUT_GENERATOR_SHAPE, "SPHERE", SPHERE)
E(InputConfiguration::FORMAT, "ABAQUS", ABAQUS)
E(InputConfiguration::FORMAT, "ANSYS_CDB", ANSYS_CDB)
E(InputConfiguration::FORMAT, "ENSIGHT", ENSIGHT)
E(InputConfiguration::FORMAT, "GMSH", GMSH)
E(InputConfiguration::FORMAT, "NEPER", NEPER)
E(InputConfiguration::FORMAT, "NETGEN", NETGET)
E(InputConfiguration::FORMAT, "NGLIB", NGLIB)
E(InputConfiguration::FORMAT, "OpenFOAM", OPENFOAM)
E(InputConfiguration::FORMAT, "VTK_LEGACY", VTK_LEGACY)
E(InputConfiguration::FORMAT, "XDMF", XDMF)
E(InputConfiguration::LOADER, "MPI", MPI)
E(InputConfiguration::LOADER, "MPI_COLLECTIVE", MPI_COLLECTIVE)
E(InputConfiguration::LOADER, "POSIX", POSIX)
E(InputNodeRegionConfiguration::SHAPE, "BLOCK", BLOCK)
E(InputNodeRegionConfiguration::SHAPE, "CIRCLE", CIRCLE)
E(InputTransformationConfiguration::TRANSFORMATION, "ROTATE", ROTATE)
E(InputTransformationConfiguration::TRANSFORMATION, "SCALE", SCALE)
E(InputTransformationConfiguration::TRANSFORMATION, "SHEAR", SHEAR)
E(InputTransformationConfiguration::TRANSFORMATION, "TRANSLATE", TRANSLATE)
E(LoadStepSolverConfiguration::MODE, "LINEAR", LINEAR)
E(LoadStepSolverConfiguration::MODE, "NONLINEAR", NONLINEAR)
E(LoadStepSolverConfiguration::SOLVER, "FETI", FETI)
E(LoadStepSolverConfiguration::SOLVER, "HYPRE", HYPRE)
E(LoadStepSolverConfiguration::SOLVER, "MKLPDSS", MKLPDSS)
E(LoadStepSolverConfiguration::SOLVER, "NONE", NONE)
E(LoadStepSolverConfiguration::SOLVER, "PARDISO", PARDISO)
E(LoadStepSolverConfiguration::SOLVER, "SEQUENTIAL", SEQUENTIAL)
E(LoadStepSolverConfiguration::SOLVER, "SUPERLU", SUPERLU)
E(LoadStepSolverConfiguration::SOLVER, "WSMP", WSMP)
E(LoadStepSolverConfiguration::TYPE, "HARMONIC", HARMONIC)
E(LoadStepSolverConfiguration::TYPE, "STEADY_STATE", STEADY_STATE)
E(LoadStepSolverConfiguration::TYPE, "TRANSIENT", TRANSIENT)
E(METISConfiguration::CTYPE, "RM", RM)
E(METISConfiguration::CTYPE, "SHEM", SHEM)
E(METISConfiguration::IPTYPE, "EDGE", EDGE)
E(METISConfiguration::IPTYPE, "GROW", GROW)
E(METISConfiguration::IPTYPE, "NODE", NODE)
E(METISConfiguration::IPTYPE, "RANDOM", RANDOM)
E(METISConfiguration::OBJTYPE, "CUT", CUT)
E(METISConfiguration::OBJTYPE, "NODE", NODE)
E(METISConfiguration::OBJTYPE, "VOL", VOL)
E(METISConfiguration::PTYPE, "KWAY", KWAY)
E(METISConfiguration::PTYPE, "RB", RB)
E(METISConfiguration::RTYPE, "FM", FM)
E(METISConfiguration::RTYPE, "GREEDY", GREEDY)
E(METISConfiguration::RTYPE, "SEP1SIDED", SEP1SIDED)
E(METISConfiguration::RTYPE, "SEP2SIDED", SEP2SIDED)
E(MORPHING_TRANSFORMATION, "FIXED", FIXED)
E(MORPHING_TRANSFORMATION, "OFFSET", OFFSET)
E(MORPHING_TRANSFORMATION, "ROTATION", ROTATION)
E(MORPHING_TRANSFORMATION, "SCALING", SCALING)
E(MORPHING_TRANSFORMATION, "TRANSLATION", TRANSLATION)
E(MORPHING_TYPE, "NONE", NONE)
E(MORPHING_TYPE, "RBF", RBF)
E(MaterialBaseConfiguration::PHYSICAL_MODEL, "STRUCTURAL_MECHANICS", STRUCTURAL_MECHANICS)
E(MaterialBaseConfiguration::PHYSICAL_MODEL, "THERMAL", THERMAL)
E(MonitorConfiguration::STATISTICS, "ABSMAX", ABSMAX)
E(MonitorConfiguration::STATISTICS, "ABSMIN", ABSMIN)
E(MonitorConfiguration::STATISTICS, "AVG", AVG)
E(MonitorConfiguration::STATISTICS, "MAX", MAX)
E(MonitorConfiguration::STATISTICS, "MIN", MIN)
E(MonitorConfiguration::STATISTICS, "NORM", NORM)
E(NonLinearSolverConfiguration::METHOD, "MODIFIED_NEWTON_RAPHSON", MODIFIED_NEWTON_RAPHSON)
E(NonLinearSolverConfiguration::METHOD, "NEWTON_RAPHSON", NEWTON_RAPHSON)
E(NonLinearSolverConfiguration::STEPPINGG, "AUTO", AUTO)
E(NonLinearSolverConfiguration::STEPPINGG, "FALSE", FALSE)
E(NonLinearSolverConfiguration::STEPPINGG, "TRUE", TRUE)
E(NonlinerSpringConfiguration::Support, "FIXED", FIXED)
E(NonlinerSpringConfiguration::Support, "SLIDING", SLIDING)
E(OutputConfiguration::FORMAT, "ENSIGHT", ENSIGHT)
E(OutputConfiguration::FORMAT, "NETGEN", NETGEN)
E(OutputConfiguration::FORMAT, "STL_SURFACE", STL_SURFACE)
E(OutputConfiguration::FORMAT, "VTK_LEGACY", VTK_LEGACY)
E(OutputConfiguration::FORMAT, "XDMF", XDMF)
E(OutputConfiguration::LOGGER, "PARSER", PARSER)
E(OutputConfiguration::LOGGER, "USER", USER)
E(OutputConfiguration::MODE, "PTHREAD", PTHREAD)
E(OutputConfiguration::MODE, "SYNC", SYNC)
E(OutputConfiguration::STORE_FREQUENCY, "EVERY_NTH_SUBSTEP", EVERY_NTH_SUBSTEP)
E(OutputConfiguration::STORE_FREQUENCY, "EVERY_SUBSTEP", EVERY_SUBSTEP)
E(OutputConfiguration::STORE_FREQUENCY, "LAST_SUBSTEP", LAST_SUBSTEP)
E(OutputConfiguration::STORE_FREQUENCY, "NEVER", NEVER)
E(OutputConfiguration::STORE_RESULTS, "ALL", ALL)
E(OutputConfiguration::STORE_RESULTS, "BASIC", BASIC)
E(OutputConfiguration::STORE_RESULTS, "USER", USER)
E(OutputConfiguration::WRITER, "MPI", MPI)
E(OutputConfiguration::WRITER, "MPI_COLLECTIVE", MPI_COLLECTIVE)
E(PhysicsConfiguration::DISCRETIZATION, "BEM", BEM)
E(PhysicsConfiguration::DISCRETIZATION, "FEM_LINEAR", FEM_LINEAR)
E(PhysicsConfiguration::DISCRETIZATION, "FEM_LOADED", FEM_LOADED)
E(PhysicsConfiguration::DISCRETIZATION, "FEM_QUADRATIC", FEM_QUADRATIC)
E(PhysicsConfiguration::DISCRETIZATION, "FEM_TDNNS", FEM_TDNNS)
E(PhysicsConfiguration::INTERPOLATION, "LINEAR", LINEAR)
E(PhysicsConfiguration::INTERPOLATION, "QUADRATIC", QUADRATIC)
E(PhysicsConfiguration::TYPE, "HEAT_TRANSFER", HEAT_TRANSFER)
E(PhysicsConfiguration::TYPE, "STRUCTURAL_MECHANICS", STRUCTURAL_MECHANICS)
E(RayleighDampingConfiguration::TYPE, "DAMPING_RATIO", DAMPING_RATIO)
E(RayleighDampingConfiguration::TYPE, "DIRECT", DIRECT)
E(RayleighDampingConfiguration::TYPE, "NONE", NONE)
E(RotorDynamicsConfiguration::RotationConfiguration::TYPE, "FREQUENCY_RATIO", FREQUENCY_RATIO)
E(RotorDynamicsConfiguration::RotationConfiguration::TYPE, "TABLE", TABLE)
E(RotorDynamicsConfiguration::TYPE, "COROTATING", COROTATING)
E(RotorDynamicsConfiguration::TYPE, "FIXED", FIXED)
E(SchurCsxDnyManualSimpleConfig::MATRIX_ORDER, "AUTO", AUTO)
E(SchurCsxDnyManualSimpleConfig::MATRIX_ORDER, "COL_MAJOR", COL_MAJOR)
E(SchurCsxDnyManualSimpleConfig::MATRIX_ORDER, "ROW_MAJOR", ROW_MAJOR)
E(SchurCsxDnyManualSimpleConfig::SPARSE_SOLVER_IMPL, "AUTO", AUTO)
E(SchurCsxDnyManualSimpleConfig::SPARSE_SOLVER_IMPL, "MKLPARDISO", MKLPARDISO)
E(SchurCsxDnyManualSimpleConfig::SPARSE_SOLVER_IMPL, "MUMPS", MUMPS)
E(SchurCsxDnyManualSimpleConfig::SPARSE_SOLVER_IMPL, "PASTIX", PASTIX)
E(SchurCsxDnyManualSimpleConfig::SPARSE_SOLVER_IMPL, "STRUMPACK", STRUMPACK)
E(SchurCsxDnyManualSimpleConfig::SPARSE_SOLVER_IMPL, "SUITESPARSE", SUITESPARSE)
E(SchurCsxDnyManualSimpleConfig::SPARSE_SOLVER_IMPL, "SUPERLU_DIST", SUPERLU_DIST)
E(SchurCsxDnyPastixConfig::AUTOBOOL, "AUTO", AUTO)
E(SchurCsxDnyPastixConfig::AUTOBOOL, "FALSE", FALSE)
E(SchurCsxDnyPastixConfig::AUTOBOOL, "TRUE", TRUE)
E(SchurCsxDnySpsolverConfig::MATRIX_ORDER, "AUTO", AUTO)
E(SchurCsxDnySpsolverConfig::MATRIX_ORDER, "COL_MAJOR", COL_MAJOR)
E(SchurCsxDnySpsolverConfig::MATRIX_ORDER, "ROW_MAJOR", ROW_MAJOR)
E(SchurCsxDnySpsolverConfig::SPARSE_SOLVER_IMPL, "AUTO", AUTO)
E(SchurCsxDnySpsolverConfig::SPARSE_SOLVER_IMPL, "MKLPARDISO", MKLPARDISO)
E(SchurCsxDnySpsolverConfig::SPARSE_SOLVER_IMPL, "MUMPS", MUMPS)
E(SchurCsxDnySpsolverConfig::SPARSE_SOLVER_IMPL, "PASTIX", PASTIX)
E(SchurCsxDnySpsolverConfig::SPARSE_SOLVER_IMPL, "STRUMPACK", STRUMPACK)
E(SchurCsxDnySpsolverConfig::SPARSE_SOLVER_IMPL, "SUITESPARSE", SUITESPARSE)
E(SchurCsxDnySpsolverConfig::SPARSE_SOLVER_IMPL, "SUPERLU_DIST", SUPERLU_DIST)
E(SchurCsxDnyTriaConfig::MATRIX_ORDER, "AUTO", AUTO)
E(SchurCsxDnyTriaConfig::MATRIX_ORDER, "COL_MAJOR", COL_MAJOR)
E(SchurCsxDnyTriaConfig::MATRIX_ORDER, "ROW_MAJOR", ROW_MAJOR)
E(SchurCsxDnyTriaConfig::SPARSE_SOLVER_IMPL, "AUTO", AUTO)
E(SchurCsxDnyTriaConfig::SPARSE_SOLVER_IMPL, "MKLPARDISO", MKLPARDISO)
E(SchurCsxDnyTriaConfig::SPARSE_SOLVER_IMPL, "MUMPS", MUMPS)
E(SchurCsxDnyTriaConfig::SPARSE_SOLVER_IMPL, "PASTIX", PASTIX)
E(SchurCsxDnyTriaConfig::SPARSE_SOLVER_IMPL, "STRUMPACK", STRUMPACK)
E(SchurCsxDnyTriaConfig::SPARSE_SOLVER_IMPL, "SUITESPARSE", SUITESPARSE)
E(SchurCsxDnyTriaConfig::SPARSE_SOLVER_IMPL, "SUPERLU_DIST", SUPERLU_DIST)
E(SolverCsxPastixConfig::AUTOBOOL, "AUTO", AUTO)
E(SolverCsxPastixConfig::AUTOBOOL, "FALSE", FALSE)
E(SolverCsxPastixConfig::AUTOBOOL, "TRUE", TRUE)
E(SolverCsxSuperludistConfig::AUTOBOOL, "AUTO", AUTO)
E(SolverCsxSuperludistConfig::AUTOBOOL, "FALSE", FALSE)
E(SolverCsxSuperludistConfig::AUTOBOOL, "TRUE", TRUE)
E(StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR, "AXISYMMETRIC", AXISYMMETRIC)
E(StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR, "PLANE_STRAIN", PLANE_STRAIN)
E(StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR, "PLANE_STRESS", PLANE_STRESS)
E(StructuralMechanicsGlobalSettings::ELEMENT_BEHAVIOUR, "PLANE_STRESS_WITH_THICKNESS", PLANE_STRESS_WITH_THICKNESS)
E(ThermalConductivityConfiguration::MODEL, "ANISOTROPIC", ANISOTROPIC)
E(ThermalConductivityConfiguration::MODEL, "DIAGONAL", DIAGONAL)
E(ThermalConductivityConfiguration::MODEL, "ISOTROPIC", ISOTROPIC)
E(ThermalConductivityConfiguration::MODEL, "SYMMETRIC", SYMMETRIC)
E(ThermalExpansionConfiguration::MODEL, "ISOTROPIC", ISOTROPIC)
E(ThermalExpansionConfiguration::MODEL, "ORTHOTROPIC", ORTHOTROPIC)
E(TopologyOptimizationConstraint::PresetValues, "SOLID", SOLID)
E(TopologyOptimizationConstraint::PresetValues, "VOID", VOID)
E(TopologyOptimizationConstraint::Response, "MASS", MASS)
E(TopologyOptimizationConstraint::Response, "VOLUME", VOLUME)
E(TopologyOptimizationFilteringDensity::Type, "GAUSSIAN", GAUSSIAN)
E(TopologyOptimizationFilteringDensity::Type, "HEAVISIDE", HEAVISIDE)
E(TopologyOptimizationFilteringDensity::Type, "LINEAR", LINEAR)
E(TopologyOptimizationSolverSettings::Type, "MMA", MMA)
E(TopologyOptimizationSolverSettings::Type, "OC", OC)
E(TransientFirstOrderImplicitSolverConfiguration::METHOD, "BACKWARD_DIFF", BACKWARD_DIFF)
E(TransientFirstOrderImplicitSolverConfiguration::METHOD, "CRANK_NICOLSON", CRANK_NICOLSON)
E(TransientFirstOrderImplicitSolverConfiguration::METHOD, "FORWARD_DIFF", FORWARD_DIFF)
E(TransientFirstOrderImplicitSolverConfiguration::METHOD, "GALERKIN", GALERKIN)
E(TransientFirstOrderImplicitSolverConfiguration::METHOD, "USER", USER)
E(TransientSecondOrderImplicitSolverConfiguration::MASS_MATRIX_TYPE, "CONSISTENT", CONSISTENT)
E(TransientSecondOrderImplicitSolverConfiguration::MASS_MATRIX_TYPE, "DIAGONAL", DIAGONAL)
E(TransientSecondOrderImplicitSolverConfiguration::MASS_MATRIX_TYPE, "HRZDIAGONAL", HRZDIAGONAL)
E(TransientSecondOrderImplicitSolverConfiguration::METHOD, "NEWMARK", NEWMARK)
E(TrsmCsxDnyTriaConfig::MATRIX_ORDER, "AUTO", AUTO)
E(TrsmCsxDnyTriaConfig::MATRIX_ORDER, "COL_MAJOR", COL_MAJOR)
E(TrsmCsxDnyTriaConfig::MATRIX_ORDER, "ROW_MAJOR", ROW_MAJOR)
E(TrsmCsxDnyTriaConfig::PARTITION_ALGORITHM, "AUTO", AUTO)
E(TrsmCsxDnyTriaConfig::PARTITION_ALGORITHM, "MINIMUM_WORK", MINIMUM_WORK)
E(TrsmCsxDnyTriaConfig::PARTITION_ALGORITHM, "UNIFORM", UNIFORM)
E(TrsmCsxDnyTriaConfig::PARTITION_STRATEGY, "AUTO", AUTO)
E(TrsmCsxDnyTriaConfig::PARTITION_STRATEGY, "CHUNK_COUNT", CHUNK_COUNT)
E(TrsmCsxDnyTriaConfig::PARTITION_STRATEGY, "CHUNK_SIZE", CHUNK_SIZE)
E(TrsmCsxDnyTriaConfig::PRUNING_STRATEGY, "AUTO", AUTO)
E(TrsmCsxDnyTriaConfig::PRUNING_STRATEGY, "COLS_ONLY", COLS_ONLY)
E(TrsmCsxDnyTriaConfig::PRUNING_STRATEGY, "NO_PRUNING", NO_PRUNING)
E(TrsmCsxDnyTriaConfig::PRUNING_STRATEGY, "ROWS_AND_COLS", ROWS_AND_COLS)
E(TrsmCsxDnyTriaConfig::PRUNING_STRATEGY, "ROWS_ONLY", ROWS_ONLY)
E(TrsmCsxDnyTriaConfig::SPDN, "AUTO", AUTO)
E(TrsmCsxDnyTriaConfig::SPDN, "DENSE", DENSE)
E(TrsmCsxDnyTriaConfig::SPDN, "SPARSE", SPARSE)
E(TrsmCsxDnyTriaConfig::SPDN_CRITERIA, "AUTO", AUTO)
E(TrsmCsxDnyTriaConfig::SPDN_CRITERIA, "DENSE_ONLY", DENSE_ONLY)
E(TrsmCsxDnyTriaConfig::SPDN_CRITERIA, "FACTOR_DENSITY", FACTOR_DENSITY)
E(TrsmCsxDnyTriaConfig::SPDN_CRITERIA, "FRACTION_OF_FACTOR_SIZE", FRACTION_OF_FACTOR_SIZE)
E(TrsmCsxDnyTriaConfig::SPDN_CRITERIA, "FRACTION_OF_NUM_CHUNKS", FRACTION_OF_NUM_CHUNKS)
E(TrsmCsxDnyTriaConfig::SPDN_CRITERIA, "SPARSE_ONLY", SPARSE_ONLY)
E(TrsmCsxDnyTriaConfig::TRSM_TRIA_STRATEGY, "AUTO", AUTO)
E(TrsmCsxDnyTriaConfig::TRSM_TRIA_STRATEGY, "SPLIT_FACTOR", SPLIT_FACTOR)
E(TrsmCsxDnyTriaConfig::TRSM_TRIA_STRATEGY, "SPLIT_RHS", SPLIT_RHS)
