PK = "src/pack/ekat_pack.hpp"
prop("P01", "Pack arithmetic is exactly the scalar operation on every lane",
     "Every Pack construction, element access, assignment, compound assignment, unary minus, binary + - * /, two-operand min/max, range and lane shift yields in lane i exactly what the same scalar expression yields on lane i of its operands, with the same type promotion. Operands are read before any lane of the result is written, so p op= p[0] and p = f(p,p) behave as if the operand had been copied first. No other lane and no other object changes.",
     ["inputs", "configurations"], "every scalar value, every scalar type pair, every pack width, every aliasing of operand and result",
     "The unit tests compare a few random values at one or two widths and never alias an operand with the result.",
     [PK, "src/pack/ekat_pack_macros.hpp", "src/kokkos/ekat_math_utils.hpp"],
     [("operator generating macros", "ekat_pack_gen_assign_op_p/_s, ekat_pack_gen_bin_op_*"), ("shift_left/shift_right, range, min/max", PK)],
     ["lane values of the resulting Pack"], (VG, NOTE_VG))
prop("P02", "Pack math functions and reductions are lane-wise / in lane order",
     "Each Pack math function (abs, exp, expm1, log, log10, tgamma, sqrt, cbrt, tanh, erf, pow, square, cube, isnan) applies the scalar function to every lane. Horizontal sum adds lanes to the initial value in lane order 0..n-1 when serial reduction is requested (the default in bit-for-bit builds), and horizontal min/max, masked or not, return the extremum of exactly the selected lanes and the given initial value. invalid<Pack>() is NaN (the largest integer) on every lane, and printing a pack writes its lanes in order, each followed by a space.",
     ["inputs", "configurations"], "every lane value and mask, every pack width, both reduction modes, both build modes",
     "Tests sample widths and values; a wrong function on one overload or an order change in the sum is invisible within their tolerance.",
     ["src/pack/ekat_pack_math.hpp", "src/pack/ekat_pack_utils.hpp", PK],
     [("ekat_pack_gen_unary_stdfn and siblings", "src/pack/ekat_pack_math.hpp"), ("reduce_sum, min/max", "src/pack/ekat_pack_utils.hpp, src/pack/ekat_pack.hpp")],
     ["returned packs and scalars"], (VG, NOTE_VG))
prop("P03", "Pack comparisons and mask algebra are exact per lane",
     "A comparison between packs and/or scalars gives a mask whose lane i is the scalar comparison of lane i, including on NaN; &&, ||, ! act lane by lane, == holds only if all lanes agree, any/all/none are the quantifiers over all lanes. Masked loops visit exactly the lanes that are set.",
     ["inputs", "configurations"], "every lane value and mask pattern, every pack width",
     "2^n mask patterns and NaN/unordered operands are not enumerated by tests.",
     [PK], [("Mask and ekat_mask_gen_bin_op_*", PK), ("ekat_pack_gen_*cmp*", PK)], ["mask lanes"], (VG, NOTE_VG))
prop("P04", "Masked updates change exactly the selected lanes",
     "Pack::set, update and add with masks, the mask constructors, and where(mask,x) op= y (for packs and for plain scalars) write value-true lanes with the specified expression, write false lanes only when an alternative is given, and otherwise leave them untouched; where(...) used as a reduction operand folds exactly the selected lanes. This also holds when the operand is a lane of the destination.",
     ["inputs", "configurations"], "every mask, every value, every alias of operand and destination",
     "Tests use a handful of masks and no aliases.",
     [PK, "src/pack/ekat_pack_where.hpp", "src/kokkos/ekat_where.hpp"],
     [("Pack::set/update/add", PK), ("where_expression", "src/pack/ekat_pack_where.hpp, src/kokkos/ekat_where.hpp")],
     ["lane values after the update"], (VG, NOTE_VG))

PU, PKK = "src/pack/ekat_pack_utils.hpp", "src/pack/ekat_pack_kokkos.hpp"
prop("P05", "Pack and scalar views of the same data address the same elements",
     "scalarize and repack reinterpret a view of packs as a view of scalars (or of other pack widths) of the same memory, with extents multiplied or divided exactly by the pack ratio and every other extent and stride unchanged; PackInfo's index arithmetic (num_packs, vec_idx, last_pack_idx, last_vec_end) is the ceiling/quotient/remainder arithmetic that goes with it. index and index_and_shift gather lane i from the scalar element named by lane i of the index pack(s), the shifted gather also the scalar shifted by the given amount, and no other element; adjacent differences pair every scalar with its neighbour across pack boundaries (zero past the ends).",
     ["inputs", "configurations"], "every extent, index value, pack width and ratio, rank up to three",
     "Tests use one or two extents and index vectors with no boundary case per lane.",
     [PKK, PU],
     [("scalarize/repack", PKK), ("index/index_and_shift", PKK), ("PackInfo", PU)],
     ["data pointer, extents and strides of the returned view; lanes of the gathered pack"], (VG, NOTE_VG))
prop("P06", "Transposes and host/device pack transfers move every element once",
     "transpose maps element (i,k[,j]) of the C-ordered array to the same element of the Fortran-ordered one and back, for every extent. host_to_device and device_to_host copy, for every array passed and with that array's own extents, each scalar of the host array to or from the lane of the pack that holds it, never touch lanes past the last extent, do the requested transposition, and leave the data on the side the name says.",
     ["inputs", "configurations"], "every number and extents of arrays, pack width, transposition direction",
     "On a host build mirrors alias the device view, so a missing deep_copy, a swapped extent of square arrays or an overrun into padding is invisible to the tests.",
     [PKK, "src/kokkos/ekat_math_utils.hpp"],
     [("host_to_device_impl/device_to_host", PKK), ("transpose", "src/kokkos/ekat_math_utils.hpp")],
     ["elements of the destination arrays and the device copies issued"], ("set-of-stores equality: every loop nest is turned into a comprehension over symbolic extents and compared with the closed-form index map; opaque mirror/deep_copy/transpose calls compared as an ordered sequence", NOTE_VG))
SV, VB = "src/kokkos/ekat_subview_utils.hpp", "src/kokkos/ekat_view_broadcast.hpp"
prop("P07", "Subviews and reshapes alias exactly the selected elements",
     "subview with leading indices, subview_1, the multi-slice subview([a,b),dim) and reshape (of a contiguous view) return an unmanaged view of the same memory whose element (j...) is the source element with the fixed indices inserted (or the slice start added), whose extents are exactly those of the remaining dimensions (or of the slice), for contiguous and padded sources of every supported rank. In Debug builds they reject exactly the out-of-range indices and slices, and reshape rejects exactly a change of size.",
     ["inputs", "configurations"], "every index, extent and stride of the source, ranks 1 to 6, const and non-const, both build modes",
     "Tests compare a few small cubes; wrong strides in one rank/dimension overload show only on extents that differ.",
     [SV, "src/kokkos/ekat_view_utils.hpp"], [("ekat::subview overloads", SV), ("reshape", "src/kokkos/ekat_view_utils.hpp")],
     ["element addresses and extents of the returned view"], ("value-graph equality of the element address and of every extent with the row-major index formula, over symbolic extents and indices; rejection conditions compared as boolean normal forms; result type witnessed by static_assert", NOTE_VG))
prop("P08", "A broadcast view reads the source with the broadcast indices dropped",
     "ViewBroadcast of a view to a higher rank returns, at any indices, a reference to the source element named by the indices of the dimensions left open (extent <= 0), and extent(i) is the source extent for these and the requested one for the others. It rejects exactly the extent lists whose length is not the target rank or whose number of open dimensions is not the source rank; in Debug, extent(i) rejects exactly the i outside [0,rank).",
     ["inputs", "configurations"], "every extents list, every source extent, every index tuple, target rank 1 to 8, both build modes",
     "The shipped test does not build with the installed Kokkos, and samples one rank pair per case.",
     [VB], [("ViewBroadcast::setup and operator()", VB)], ["addresses returned by operator(), extent()"],
     ("value-graph equality of the returned reference and extents with the index formula over symbolic extents and indices; rejection conditions compared as boolean normal forms", NOTE_VG))
MU, UB, SU = "src/kokkos/ekat_math_utils.hpp", "src/kokkos/ekat_upper_bound.hpp", "src/kokkos/ekat_kokkos_str_utils.hpp"
prop("P09", "Device replacements of standard algorithms give the standard result",
     "In a device build impl::min, impl::max, impl::max_element, upper_bound, impl::strlen, impl::strcpy and impl::strcmp select, return or write what the std function they replace does, including on ties and NaN, reading nothing outside their ranges; set_min_max, rel_diff, is_nan, isfinite and invalid mean the same in host and device builds. upper_bound narrows an interval that starts as the whole range, probes inside it, keeps exactly the part the comparison allows, and ends when it is empty.",
     ["inputs", "configurations"], "every value including NaN, every range length, double/float/int/long/unsigned elements, host and device preprocessor branch",
     "The device branch is not compiled on a host build, so no test reaches it; a search that is off by one shows only for particular lengths and ties.",
     [MU, UB, SU], [("EKAT_ENABLE_GPU branch", MU), ("ekat::upper_bound", UB), ("impl::strlen/strcpy/strcmp", SU)],
     ["returned references and pointers, characters written"],
     ("value-graph equality of both preprocessor branches with the definition of the standard function; interval-narrowing rule over the loop-carried values for the bisection", NOTE_VG))
RU = "src/algorithm/ekat_reduction_utils.hpp"
prop("P10", "Reductions add exactly the scalars in [begin,end), each once",
     "ReductionUtils::view_reduction over a scalar or packed input adds every scalar of [begin,end) exactly once and nothing else, whatever the position of the bounds inside their packs (including both in one pack) and for empty ranges; parallel_reduce applies the body once to every index. The serialized form accumulates left to right from the identity and does not depend on the team.",
     ["inputs", "configurations"], "every begin and end, every offset of the bounds in their packs, pack sizes 1 to 16, serialized or team mode",
     "Tests use a handful of bounds; a wrong lane mask shows only for particular offsets of both bounds in their packs.",
     [RU], [("impl::view_reduction, impl::parallel_reduce", RU)], ["the reduced value as a function of the elements"],
     ("value-graph equality of the result with the sum over the range, for every position of the bounds inside their packs with symbolic pack index and distance", NOTE_VG))
WS, WI = "src/kokkos/ekat_workspace.hpp", "src/kokkos/ekat_workspace_impl.hpp"
prop("P11", "Workspace slots are handed out from the free list and returned to it",
     "WorkspaceManager builds, for every team, a free list of max_used slots of the requested number of scalars (rounded up to whole packs plus metadata) that do not overlap each other or another team's. take, take_many, take_many_contiguous_unsafe and take_macro_block return views of the first free slots in list order and advance the list past exactly these; release, release_many_contiguous and release_macro_block put exactly the given slots back in front of the slots that are still free; reset and reset_internals restore the full list; every thread of the team sees the same result, none reading or updating the list while another updates it, and each reaches the same barriers. In Debug builds the recorded counts, names and high-water marks follow these operations and a take beyond the capacity, a double release or an unknown name is rejected.",
     ["histories", "schedules", "inputs", "configurations"], "every sequence of takes and releases (each step from an arbitrary list state), every team size and interleaving of its threads, slot sizes, number of slots and teams, element types, both build modes",
     "Tests run one or two sequences that release in the order they take, where a list that was rebuilt in index order instead of followed gives the same slots, and a missing barrier shows only under an unlucky schedule.",
     [WS, WI], [("Workspace::take*/release*/reset", WI), ("WorkspaceManager set-up and slot metadata", WS + ", " + WI)],
     ["addresses of the returned views, next_slot links in the slot metadata, Debug counters"],
     ("value-graph equality of each operation's memory transition (list links, metadata, returned addresses) with a reference transition from an arbitrary list state; size and index formulas compared as integer polynomials; a barrier-phase analysis of every operation followed by every other (one thread of a team of any size: no access to the list conflicts with another thread's in the same phase; barriers reached uniformly); compile-only witnesses for member templates no test instantiates", NOTE_VG))
EX = "src/expression/ekat_expression_"
prop("P12", "Expression templates evaluate to the written formula at every index",
     "An expression built from the arithmetic, comparison and logical operators, pow/max/min/sqrt/exp/log/sin/cos, negation and if_then_else, with any mix of expression and scalar operands, evaluates at any index to the scalar formula as written over the operands' values at that index, computed and returned in the common type of the operands; its rank and extents are those of its operands, and it stays valid after the operand objects are gone. evaluate(e,view) stores e at every index of the result, once and nothing else, for every rank, and rejects exactly results of other extents; expression(view) reads the view's own elements.",
     ["inputs", "programs", "configurations"], "every operand value including NaN, every combination of operand kinds and value types, rank 0 to 6, every extent",
     "The shipped test does not build with the installed Kokkos and samples values of one type; swapped operands, a narrowed type or a swapped index show only for mixed types or unequal extents.",
     [EX + x + ".hpp" for x in ("base", "traits", "binary_op", "binary_predicate", "conditional", "math", "view", "eval")],
     [("BinaryExpression, NegateExpression", EX + "binary_op.hpp"), ("BinaryPredicateExpression", EX + "binary_predicate.hpp"), ("ConditionalExpression", EX + "conditional.hpp"), ("name##Expression", EX + "math.hpp"), ("evaluate", EX + "eval.hpp")],
     ["value, type, rank and extents of an expression; elements of the result view"],
     ("value-graph equality of every node type with the scalar formula over symbolic operand values and indices (per operator, operand kind and type pair); types witnessed by static_assert; evaluate compared as a set of stores", NOTE_VG))
RC, SF, UN = "src/core/ekat_rational_constant.hpp", "src/core/ekat_scaling_factor.hpp", "src/core/ekat_units.hpp"
prop("P13", "Rational constants are exact and always in lowest terms",
     "A RationalConstant built from any integers n and d is the fraction n/d reduced to lowest terms with a positive denominator, and d=0 is rejected. Sum, difference, product, quotient, negation, integer powers (positive, zero and negative) and (in)equality, with rational or integer operands on either side, give the exact rational result, and 0^0 and division by zero are rejected.",
     ["inputs"], "every numerator and denominator of any sign and integer type whose products fit 64 bits, every exponent",
     "Tests evaluate a few fractions; a lost sign or a common factor that is not removed shows only for particular sign combinations or exponents.",
     [RC], [("RationalConstant constructor, fix_num, fix_den", RC), ("operators, pow, gcd", RC)], ["num and den of the result, comparison results, rejections"],
     ("value-graph equality of every operation with the reduced exact fraction over symbolic numerators and denominators, one case per sign; recursion (pow, gcd) by induction on one step", NOTE_VG))
prop("P14", "Units and scaling factors combine like the quantities they stand for",
     "Products, quotients, powers, roots and comparisons of ScalingFactor values give the value of the real number base^exp (values whose sign would be lost, even roots of negatives and 0^0 are rejected), and those of Units add, subtract or scale each of the seven dimension exponents and combine the scalings, whatever the units' names. Every named unit and prefix has its SI dimensions, scaling and symbol.",
     ["inputs"], "every base, exponent and scaling, every combination of the seven dimension exponents",
     "Tests compare a handful of derived units; a wrong exponent in one of seven dimensions or a sign lost in a root shows only for particular operands.",
     [SF, UN], [("ScalingFactor operators, check, pow, sqrt", SF), ("Units operators, named units, prefixes", UN)], ["base and exponent of scalings, dimension exponents, comparison results, rejections"],
     ("value-graph equality of every operation with the formula over base, exponent and the seven dimension exponents, rational arithmetic uninterpreted with the laws P13 establishes; exhaustive static_assert table of named units and prefixes", NOTE_VG))
CO = "src/core/ekat_comm"
prop("P15", "Comm operations are the MPI operations of the same meaning",
     "Every collective of ekat::Comm is exactly one MPI call of the same meaning on the wrapped communicator, with the caller's buffers, count, operation and root and the MPI datatype of the value type (the in-place forms use MPI_IN_PLACE); get_mpi_type maps each supported type to its MPI type. A Comm built or reset from a communicator stores it with its own size and rank, sets the configured error handler, and rejects the null communicator; split returns the group of its color, ordered by rank. The serial implementation behaves as the only process of its communicator: size 1, rank 0, results equal inputs.",
     ["inputs", "configurations", "schedules"], "every buffer, count, root, operation, color and communicator size, each supported value type, MPI and serial builds, Debug and NDEBUG, both error-handler settings",
     "Tests run one small communicator with two value types and never build the serial implementation; a wrong datatype, communicator or a skipped collective shows only for other types, sizes or groups.",
     [CO + ".hpp", CO + ".cpp", CO + "_serial.cpp"], [("Comm collectives", CO + ".hpp"), ("construction, split, get_mpi_type", CO + ".cpp"), ("serial implementation", CO + "_serial.cpp")],
     ["the MPI calls made and their arguments", "size, rank and communicator of a Comm", "output buffers of the serial build"],
     ("value-graph equality of every operation, per value type and configuration, with the MPI call it stands for; MPI calls are uninterpreted effects, so exactly one call with equal arguments on every path", NOTE_VG))
AS, KA = "src/core/ekat_assert.hpp", "src/kokkos/ekat_kernel_assert.hpp"
prop("P16", "Error checks throw what was asked iff their condition is false",
     "EKAT_REQUIRE (1 to 3 arguments), EKAT_REQUIRE_MSG and EKAT_ERROR_MSG evaluate the condition exactly once, do nothing else when it holds, and otherwise throw the requested exception type (std::runtime_error by default and for types that cannot be built), carrying the message, the condition's text and the location; while another exception unwinds the stack nothing is thrown and the first message suppressed since the last throw is reported. EKAT_ASSERT(_MSG) do the same in Debug builds and evaluate nothing with NDEBUG. The kernel variants print the condition and message and abort; every macro is one statement and checks its whole condition expression.",
     ["inputs", "programs", "configurations"], "every condition and message expression, kinds of exception type, number of exceptions in flight, Debug and NDEBUG",
     "Tests sample a few conditions in one build mode; double evaluation, a lost message, the wrong type for one kind of exception or an active check under NDEBUG do not show in them.",
     [AS, KA], [("IMPL_THROW, EKAT_REQUIRE*, EKAT_ASSERT*, throw_exception", AS), ("IMPL_KERNEL_THROW, EKAT_KERNEL_*", KA)],
     ["exception type and what()", "calls made while evaluating the macro", "aborts"],
     ("path analysis over the control flow graph of each macro's expansion: branch facts, call counts, type information of the throw, value flow of message, condition text and location into the thrown object", "every path of each expansion is analysed for each outcome of the condition and of std::uncaught_exceptions; standard library calls are uninterpreted and assumed to pass on what they are given"))
FP = "src/core/ekat_fpe.cpp"
TSS, CM, KSS = "src/testing-support/ekat_test_session.cpp", "src/testing-support/ekat_catch_main.cpp", "src/kokkos/ekat_kokkos_session.cpp"
NOTE_PATH = "every path of the control flow graph is analysed with its branch facts; calls into the standard library, Kokkos, MPI and Catch2 are uninterpreted and assumed to do what they document; loops over arguments are taken for the stated small counts"
prop("P17", "Enabling and disabling FPEs changes exactly the given mask",
     "enable_fpes(mask) clears the stale flags of mask and then unmasks exactly the exceptions of mask; disable_fpes(mask) masks exactly those again, disable_all_fpes all of them, and get_enabled_fpes returns the enabled set. fpe_config_string names exactly the enabled exceptions, NONE if there is none. The default test session enables division by zero, invalid and overflow iff EKAT_ENABLE_FPE_DEFAULT_MASK is set.",
     ["inputs", "configurations"], "every mask, with and without the default mask and Kokkos",
     "Tests enable one or all exceptions from a clean state; clearing in the wrong order or losing one exception of a mask shows only with flags already raised or for particular masks.",
     [FP, TSS], [("enable_fpes, disable_fpes, fpe_config_string", FP), ("ekat_initialize_test_session", TSS)], ["calls to the floating-point environment and their masks", "the configuration report"],
     ("path analysis of each function: order and mask of the floating-point environment calls on every path; names reported as a function of the branch facts on the mask bits", NOTE_PATH + "; the emulation for platforms without feenableexcept is not analysed, it does not compile here"))
prop("P18", "Sessions start and stop each component once, in order",
     "initialize_kokkos_session initializes Kokkos iff it is not initialized, with the command line iff one of its arguments contains --kokkos and with the default settings otherwise, and finalize_kokkos_session finalizes it iff it is initialized. The test main initializes MPI, hands the arguments before the first --args to Catch2 and those after it to the test session, stops on a command line error, then initializes the session, runs the tests once, finalizes the session and then MPI, and returns zero iff the run reported zero; only the root rank prints the configuration.",
     ["inputs", "configurations", "histories"], "every argument list (the split for up to four arguments, the search for up to three), test result, initialization state, MPI and serial, with and without Kokkos",
     "Tests run through one main with its session already set up correctly; a lost failure status, an argument handed to the wrong side or a second initialization does not make them fail.",
     [CM, TSS, KSS], [("initialize_kokkos_session, finalize_kokkos_session", KSS), ("main, split_args", CM), ("default test session", TSS)],
     ["order of initialization, run and finalization", "arguments received by Catch2, the test session and Kokkos", "exit status"],
     ("typestate of the session over every path of the set-up, main and tear-down functions; argument routing as a function of the branch facts on each argument", NOTE_PATH))
MU, TT, ST2, SCT, KTY, KME, SU = "src/core/ekat_meta_utils.hpp", "src/core/ekat_type_traits.hpp", "src/core/ekat_std_type_traits.hpp", "src/core/ekat_scalar_traits.hpp", "src/kokkos/ekat_kokkos_types.hpp", "src/kokkos/ekat_kokkos_meta.hpp", "src/core/ekat_std_utils.hpp"
prop("P19", "Type lists, type maps, traits and Kokkos aliases are what they name",
     "Type lists concatenate, index, find the first occurrence (-1 if absent), test uniqueness and map templates in order, TypeListFor visits every type in order and stops at the first true of a bool body; TypeMap maps each key to its own value type and stored value, finds a value among all stored ones, and rejects repeated keys, unequal sizes and absent keys. The traits (is_single_precision, ValueType, GetRanks, remove_all_pointers/consts, DataND, is_vector, EqualExists, StreamExists, SameType, ScalarTraits of arithmetic, pack and mask types with any cv/reference) report the type they are asked about, and ScalarTraits rejects other types. KokkosTypes aliases have the layout, device, memory traits, rank and constness in their names, Unmanaged adds exactly that trait to a view type, and OnGpu is true only for the GPU space.",
     ["programs", "configurations"], "every list over three types up to length four and one of up to seven, maps with up to four keys and every permutation of values, arrays of up to four dynamic and three static dimensions, all 32 memory-trait masks",
     "Tests query three lists and a few traits; a wrong answer for a repeated type late in a list, a volatile scalar or one memory trait is baked into the types of programs that no test compiles.",
     [MU, TT, ST2, SCT, SU, KTY, KME, "src/pack/ekat_pack.hpp"],
     [("TypeList utilities, TypeListFor, TypeMap", MU), ("traits", TT + ", " + ST2 + ", " + SU), ("ScalarTraits", SCT + ", src/pack/ekat_pack.hpp"), ("KokkosTypes, Unmanaged, OnGpu", KTY + ", " + KME)],
     ["values and types of the traits", "statements executed by TypeListFor and has_v", "whether ill-formed uses compile"],
     ("type-level encodings: exhaustive families of static_assert witnesses and compile-fail witnesses over the current headers; value-graph equality of TypeListFor and TypeMap accessors with the written-out statements", "complete for the stated finite families of types, which cover every specialization and recursion step; the GPU branch is read with a stand-in execution space; pointer types that are themselves const are not claimed"))
TPU = "src/kokkos/ekat_team_policy_utils.hpp"
prop("P20", "Team policies have the requested shape; workspace slots are exclusive",
     "TeamPolicyFactory returns policies with the requested league size and, per execution space, the documented team size (1, or at most 7 in GPU-mimicking builds, on hosts; whole warps of 32 up to 128 on GPUs; the size itself when it is forced; a size made from the largest power of two not above the request for scans). TeamUtils reports max_threads (half for non-single precision on GPUs), min(max_threads/team_size, league_size) concurrent teams and, on GPUs, overprovisioned slots up to the league size; overprovision factors below 1 and policies that cannot run one team (Debug) are rejected. get_workspace_idx returns a slot below the number of slots that no other running team holds until it calls release_workspace_idx, under every interleaving of the teams and with the slot's data visible to the next holder.",
     ["schedules", "inputs", "configurations"], "every league size, team size, concurrency, overprovision factor and interleaving of the teams; OpenMP, other host, CUDA, HIP and SYCL spaces, Debug and NDEBUG, with and without UVM and EKAT_MIMIC_GPU",
     "Tests run OpenMP only, where slots need no lock; the GPU protocol is never compiled, and a missing fence, a barrier in the wrong place or a lost race shows only under particular schedules.",
     [TPU], [("TeamPolicyFactory", TPU), ("TeamUtilsCommonBase, TeamUtils per space", TPU), ("get_workspace_idx, release_workspace_idx", TPU)],
     ["league and team size of the policies", "counts reported by TeamUtils", "order of barrier, fence and atomic operations on the slot array"],
     ("value-graph equality of policy shapes and slot counts with their formulas; typestate and lock-protocol analysis of slot acquisition and release over every path (compare-exchange, fence, barrier, single) with execution spaces as stand-ins", NOTE_PATH + "; mutual exclusion follows from the protocol because compare-exchange is atomic"))
LI, LII, TD = "src/algorithm/ekat_lin_interp.hpp", "src/algorithm/ekat_lin_interp_impl.hpp", "src/algorithm/ekat_tridiag.hpp"
prop("P21", "Linear interpolation uses the line through each target's own interval",
     "LinInterp::setup records, for every target of every column, the last source point not above it (the first source point when all are above), and lin_interp writes y1[j]+(y1[h]-y1[j])*(x2-x1[j])/(x1[h]-x1[j]) with j that point and h the next one (the previous one for the last point), so targets outside the sources are extrapolated from the end interval. This holds for packed, differently packed and scalar views of sources, targets and results, for default and caller-chosen target ranges and columns; nothing else is written, and the shape queries give the sizes and pack counts the object was made for.",
     ["inputs", "configurations", "schedules"], "any source and target values, counts, pack widths, column, team range and team size",
     "The interpolation tests are not built in the baseline; where they are, they use increasing targets inside the sources and one pack layout.",
     [LI, LII], [("setup", LII), ("lin_interp", LII), ("constructor, policies and pack counts", LI)],
     ["index map rows", "result view"], ("value-graph equality of the index map and of every interpolated lane with the definition, per thread of a team, searches uninterpreted (they are the subject of another property)", NOTE_VG))
prop("P22", "Tridiagonal solvers perform the elimination they document on every row",
     "thomas, bfb and cr overwrite the right-hand sides with the solution obtained by Thomas elimination (thomas, bfb: in the documented order of operations, so bfb results do not depend on pack width or team size) or by cyclic reduction (cr), for one or several right-hand sides, one matrix or one per right-hand side, scalar or pack data, and any strides between rows. In the team forms the threads together do the work of one thread: each row and column is handled by exactly one thread, every value read was written before a barrier both sides pass, and every thread passes every barrier.",
     ["inputs", "schedules", "configurations"], "any number of rows and right-hand sides, row strides, matrix values, pack widths, mixed precisions, team sizes and thread ranks",
     "Tests solve a few sizes with one row stride and the teams of one host; missing barriers and wrong work splits depend on team size and schedule.",
     [TD], [("thomas", TD), ("bfb", TD), ("cr, cr_a1x1, cr_a1xm, cr_amxm", TD)],
     ["elements of the right-hand side and of the matrix views"],
     ("value-graph equality, per thread with symbolic rank and team size, with the textbook elimination; memory read after a barrier is a fresh unknown, so removing or moving a barrier or changing who does what changes the graph", NOTE_VG))

PLI = "src/core/ekat_parameter_list.hpp"
prop("P23", "Parameter lists give back what was stored, and fail on anything else",
     "A parameter set under a name is returned by every later get of that name with its type, a missing name or another type fails, and get with a default stores the default only if the name is missing; an empty sequence can be read as a vector of any type, and no other parameter is touched. Asking for a sublist creates an empty list of that name if and only if it is missing. Copying or assigning a list makes the target equal to the source (name, parameters, nested lists), and importing adds the source's entries, overwriting parameters of the same name and importing into sublists of the same name.",
     ["inputs", "histories"], "any content of the lists (hence any history of operations), any names and values of the stored types",
     "Tests read back a few names from a small list right after setting them; they never assign over a list that has content, nor mix types, defaults, empty sequences and nested lists.",
     [PLI, "src/core/ekat_parameter_list.cpp"], [("ParameterList", PLI)],
     ["results and failures of the list's functions; content of the list after them"],
     ("value-graph equality with a map modelled as a function from names to slots: each operation's effect on the slot of its name (for loops: of one arbitrary name) equals its specification", NOTE_VG))

FAC = "src/core/ekat_factory.hpp"
prop("P24", "Factories create exactly what was registered under the requested key",
     "register_product stores the creator and returns true if the key is new or replacement is requested, and otherwise changes nothing and returns false. create calls the creator stored under its key, once, with the given arguments and returns its result, and fails if the key is not registered; asking, counting and creating change nothing. All users of a factory type share one instance, and obtaining it does not change what is registered.",
     ["inputs", "histories"], "any register content (hence any history), keys, creators and arguments; string, integer and user-defined keys, any smart or raw pointer type",
     "The test registers two products without arguments once each; replacement, clashes, other key types and arguments are never exercised.",
     [FAC], [("Factory", FAC)], ["results, failures and creator calls; content of the register"],
     ("value-graph equality with the register modelled as a function from keys to slots", NOTE_VG))

LOG = "src/logging/ekat_logger.hpp"
prop("P25", "A logger writes at its level, to its sinks, on exactly its ranks",
     "A logger whose rank policy selects the calling rank has the requested log, console and file levels and a file sink of its policy's kind (none, truncated basic file, rotating files of the documented size and number) on the documented name; on the other ranks it writes nothing and creates no file. A logger built from another one uses that logger's console and file sink, and changes nothing about them. Setting and getting the log, console or file level, and setting the format, act on exactly that target.",
     ["inputs", "configurations"], "any logger name, suffix, level, communicator size and rank; three file policies, two rank policies and their combinations when sinks are shared",
     "Tests create few loggers on one to four ranks and look for text in files; levels of non-logging ranks, of shared sinks and rotation parameters are never checked.",
     [LOG, "src/logging/ekat_log_file_policy.hpp", "src/logging/ekat_log_mpi_policy.hpp"], [("Logger", LOG)],
     ["levels, sinks, file names and kinds of a constructed logger; levels after a setter"],
     ("value-graph equality with spdlog replaced by plain structures and strings by lists of pieces", NOTE_VG))

SUH, ZPH, KIH = "src/core/ekat_std_utils.hpp", "src/core/ekat_zip.hpp", "src/core/ekat_std_map_key_iterator.hpp"
prop("P26", "Searching, zipping and key iteration visit the elements they name",
     "find, contains, count and erase on a container use the elements equal to the value: the first one is found or erased (nothing else is), the number counted is the number of equal ones. zip fails unless all containers have the same size and otherwise visits the i-th elements of all of them together, by reference (by value only where the container has no references), constant through its constant iterators. Key iterators visit exactly the keys of the map, in its order, without giving write access; printing a vector separates its elements by one blank.",
     ["inputs", "programs"], "any content and values, several container, element and value types, one to four zipped containers; any map and position",
     "The tests zip two small containers of equal size and never call the key iterators, erase, or searches with mixed types.",
     [SUH, ZPH, KIH], [("find, contains, erase, count, operator<<", SUH), ("Zip, ZipIterator", ZPH), ("map_key_iterator, map_key_const_iterator", KIH)],
     ["results; addresses of the visited elements; failures; erased position; printed pieces"],
     ("value-graph equality with the definition of each operation, plus type witnesses for what iterators refer to", NOTE_VG))
SUC = "src/core/ekat_string_utils.cpp"
prop("P27", "String utilities compute what their names and documentation say",
     "trim and strip remove exactly the leading and trailing (or all) given characters, split cuts at every non-overlapping occurrence of a non-empty delimiter and gather_tokens returns the non-empty pieces between delimiter characters with the first delimited occurrence of the atomic substring kept whole, starts_with, upper_case, join and strint return the prefix test, upper-cased text and the joined text. Case-insensitive comparisons order and equate strings exactly as their upper-cased copies do. valid_nested_list_format accepts exactly the well formed, non-empty, balanced lists of names in one kind of bracket, and none of these functions writes to the standard output.",
     ["inputs"], "any content of the strings, per combination of string lengths; any separators, delimiters and element values",
     "The tests use a few literals; repeated and adjacent delimiters, null or non-letter characters, empty pieces and malformed lists are a long list of combinations.",
     [SUH, SUC], [("trim, strip, split, gather_tokens, valid_nested_list_format, strint", SUC), ("join, CaseInsensitiveString operators", SUH)],
     ["returned strings, lists of strings and booleans; contents left in the argument; calls that reach the output streams"],
     ("value-graph equality with the definition, per string length; call-graph reachability of output functions", NOTE_VG))
YML = "src/parser/ekat_yaml.cpp"
prop("P28", "YAML files are read and written with the documented types and values",
     "Reading a YAML file replaces the list by one with the file's keys and nesting, in which each untagged scalar is stored as the first of bool, int (digits with an optional minus sign that fit), double and string that its whole text is, a tagged scalar as the type its tag names (an error if its text or the tag does not fit), and each sequence as a vector of the first of these types that all entries are. Writing a list emits each parameter under its key and each sublist nested under its name, such that a reader finds the type and value that was written: strings that look like another type are quoted, multi-line strings keep their content, and doubles lose only trailing zeros beyond the first decimal. A value of another type, or a file that cannot be opened, is an error.",
     ["inputs"], "any text of each scalar, per length; any number; documents and lists of bounded shape",
     "The tests read one small file and write one list; texts that look like another type, exponents, signs, ranges and multi-line strings are an open set.",
     [YML, "src/parser/ekat_yaml.hpp"], [("is_type, str2type, parse_node, parse_yaml_file", YML), ("write_param, write_parameter_list, write_yaml_file", YML)],
     ["content of the parsed list; events given to the emitter and text of the file"],
     ("value-graph equality with the meaning of the document, per document shape and scalar length", NOTE_VG + " yaml-cpp is replaced by a model of its nodes and emitter."))
UNH, SCH = "src/core/ekat_units.hpp", "src/core/ekat_scaling_factor.hpp"
prop("P29", "Names and printed forms of units say what the units are",
     "The name of a product, quotient or power of units joins the names of the two operands, in order, with *, / or ^, putting an operand whose name holds one of these characters in parentheses; a prefix (nano, micro, milli, centi, hecto, kilo, mega, giga) times units whose name is a plain symbol puts its letter in front of it, any other scaling enters as the number base^exponent. Renaming keeps exactly the given name, and names that would not fit in 127 characters are rejected, never cut. Printed scaling factors and SI strings list the scaling (unless it is one and there are dimensions) and each base unit with its non-zero exponent, leaving out exponents of one and putting fractions that are raised to a power, or are themselves the power, in parentheses.",
     ["inputs", "programs"], "any units, scaling factors and rational exponents; any characters in short names, and the limits of the length of a name",
     "The tests print about a dozen units; which operands need parentheses, which names are symbols and how long a name may be depend on every combination of operands.",
     [UNH, SCH], [("Units::concat_repr, to_array, has_symbol, rename, to_string, get_si_string and the operators on Units", UNH), ("ScalingFactor::string_repr, to_string", SCH)],
     ["the characters of names; returned strings; rejected names"],
     ("value-graph equality with the rule for composing names, names being unknown texts (or short strings of unknown characters)", NOTE_VG))
