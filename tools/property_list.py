TESTS = "The unit tests run a few dozen fixed values and shapes per function; "
prop("C01", "Unary local operations treat every cell independently and by its own policies",
 "Applying a unary cell-by-cell operation to a scalar, 1D or 2D value writes to every result cell the operation's value of the same argument cell, and nothing else. A result cell is marked as no-data exactly when its argument cell is no-data, outside the operation's domain, or yields a result that is out of range; a cell whose argument is no-data or out of domain keeps its previous value. This is the same for sequential, parallel and run-time selected execution.",
 ["inputs", "configurations"], "all cell values, all input masks, all prior result contents, all execution policies, for each shape within the bounds",
 TESTS + "the guarantee is over all combinations of cell values, masks and shapes.",
 ["algorithm/core/unary_local_operation.h"],
 [("cell loop, domain/range policy order and masking", "algorithm/core/unary_local_operation.h")])
prop("C02", "Binary local operations combine corresponding cells, broadcasting scalars",
 "Applying a binary cell-by-cell operation to two values combines each pair of corresponding cells, where a scalar argument is combined with every cell of the other argument, and each argument is read in its own value type. A result cell is marked as no-data exactly when one of its argument cells is no-data, the pair is outside the domain, or the result is out of range; a cell that is not computed keeps its previous value. This is the same for sequential, parallel and run-time selected execution.",
 ["inputs", "configurations"], "all cell values, both input masks, prior result contents, execution policies and argument shape combinations within the bounds",
 TESTS + "mixed value types, masks and broadcasting shapes are sampled with a handful of values.",
 ["algorithm/core/binary_local_operation.h"],
 [("cell loops of the 0d/1d/2d combinations", "algorithm/core/binary_local_operation.h")])
prop("C03", "Cell generating, filling, copying and folding operations set each cell right",
 "Generating a value, filling a value with a constant, creating cells from a generator, and copying write every result cell with exactly the generated or source value, skip copying cells whose source is no-data, and mark exactly those results as no-data. Testing which cells are defined yields true exactly for cells that are not no-data, without marking anything. A fold over many equally shaped arguments equals the left fold of the binary operation over corresponding cells.",
 ["inputs", "configurations"], "all values, masks, prior result contents and execution policies within the shape bounds",
 TESTS + "no test varies masks, execution policies and prior contents together.",
 ["algorithm/core/nullary_local_operation.h", "algorithm/core/unary_disaggregate_operation.h", "algorithm/core/fill.h", "algorithm/core/copy.h", "algorithm/core/n_ary_local_operation.h", "algorithm/algebra/boole/defined.h"],
 [("fill/copy/generate loops", "algorithm/core/copy.h")])
prop("C05", "Splitting work into index ranges covers every index exactly once",
 "Splitting a 1D or 2D range of cells over a number of threads yields non-empty blocks that together contain every index exactly once and contain no index outside the range. The number of blocks is at most one more than the number of threads (per partitioned dimension), and an empty range yields no blocks.",
 ["inputs", "configurations"], "all numbers of threads and all sizes within the bounds",
 TESTS + "the partition must be right for every size and thread count, including sizes just off a multiple of the thread count.",
 ["algorithm/core/index_ranges.cc", "algorithm/core/index_range.cc"],
 [("block computation", "algorithm/core/index_ranges.cc")])
prop("C06", "The thread pool runs every submitted task once and shuts down cleanly",
 "A task submitted to a thread pool is executed at most once, its result or exception is delivered through its future, and a pool of one thread runs tasks in the order of submission; as long as the pool exists every submitted task is eventually run. Destroying the pool ends all workers without deadlock; a task it had not started is never run and its future reports a broken promise. No schedule leads to a data race.",
 ["schedules", "inputs"], "all schedules within the preemption bound, for the numbers of threads and tasks within the bounds",
 "The tests run a handful of schedules chosen by the operating system.",
 ["core/thread_pool.cc", "core/thread_pool.h", "core/join_threads.cc", "core/join_threads.h", "core/thread_safe_queue.h"],
 [("submit, work loop and destructor", "core/thread_pool.h")])
prop("C07", "The thread-safe queue is a linearizable FIFO queue",
 "Values pushed to the queue by any number of threads are popped exactly once, and in first-in first-out order. Trying to pop fails exactly when the queue is empty, in which case the receiving variable is left alone, and the emptiness test agrees with that. No schedule leads to a data race or a deadlock.",
 ["schedules", "histories"], "all schedules within the preemption bound and operation histories within the bounds",
 "The tests run a few operations on one thread or one schedule.",
 ["core/thread_safe_queue.h"],
 [("mutex and condition variable protocol", "core/thread_safe_queue.h")])
EL = "algorithm/algebra/elementary/"
INV = ["inputs", "configurations"]
prop("C08", "Integer add, subtract and multiply are exact or marked as no-data",
 "Adding, subtracting or multiplying two integer cells of any two integer types, with the out-of-range policy, gives the mathematically exact result when the result type can represent it and no-data otherwise; never a wrong value. For subtraction this is promised for arguments that the result type can represent. A result cell is also marked exactly when one of the arguments is no-data, in which case it keeps its previous value. The overloads without policies compute the same values.",
 INV, "all values of every pair of integer types within the bounds, masks and prior results", TESTS + "overflow conditions differ per pair of types and are right or wrong at single values.",
 [EL + "add.h", EL + "subtract.h", EL + "multiply.h"], [("out of range policies per combination of signedness", EL + "detail/add.h"), ("overflow detection", EL + "detail/multiply.h")])
prop("C09", "Integer divide and absolute are exact or marked as no-data",
 "Dividing two integer cells which the result type can represent yields the quotient truncated towards zero. Division by zero is outside the domain: nothing is computed and the result is marked as no-data. A quotient or absolute value that the result type cannot represent (negating the smallest integer) is marked as no-data. No division traps.",
 INV, "all values of every pair of integer types, masks and prior results", TESTS + "the exceptional cases are single values per type.",
 [EL + "divide.h", EL + "absolute.h"], [("domain and range policies", EL + "detail/divide.h")])
prop("C10", "Floating point arithmetic is IEEE arithmetic, non-finite results are no-data",
 "Adding, subtracting, multiplying or dividing cells of which at least one is floating point, and taking a floating point absolute value, yields the IEEE result of the operation in the result type. With the range policy a result is marked as no-data exactly when it is not finite or an argument is no-data; division by zero is outside the domain and leaves the result alone.",
 INV, "all values (zeros, subnormals, infinities, NaNs) of every pair of floating point and integer types within the bounds", TESTS + "exceptional values are sampled.",
 [EL + "add.h", EL + "subtract.h", EL + "multiply.h", EL + "divide.h", EL + "absolute.h"], [("within_range for floats", EL + "detail/add.h")])
prop("C11", "Comparisons of cells agree with the order of their values",
 "Comparing two cells with less, less-or-equal, greater, greater-or-equal or equal yields true exactly when the mathematical relation between the values holds (comparisons with NaN are false), also when the arguments differ in type, for values which the common type of the arguments represents. A result type other than bool gets 1 for true and 0 for false. The result is marked as no-data exactly when an argument is.",
 INV, "all values of every pair of types within the bounds, masks and prior results", TESTS + "mixed-type comparisons are sampled.",
 [EL + "less.h", EL + "less_equal.h", EL + "greater.h", EL + "greater_equal.h", EL + "equal.h"], [("comparison functors", EL + "detail/less.h")])
prop("C12", "Boolean operations follow their truth tables for every value type",
 "And, or, xor, nor, xnor and not treat zero as false and any other value as true, and yield 1 or 0 in the result type, according to the truth table of the operation. The result is marked as no-data exactly when an argument is, in which case it keeps its previous value.",
 INV, "all values of argument types and result types within the bounds, masks and prior results", TESTS + "they use a few values of a few types.",
 ["algorithm/algebra/boole/and.h", "algorithm/algebra/boole/or.h", "algorithm/algebra/boole/xor.h", "algorithm/algebra/boole/nor.h", "algorithm/algebra/boole/xnor.h", "algorithm/algebra/boole/not.h"], [("functors", "algorithm/algebra/boole/detail/xnor.h")])
prop("C13", "Mathematical functions respect their domain and range policies",
 "Rounding (ceil, floor, round, trunc), square root, logarithms, power, gamma, and the trigonometric functions yield the value of the mathematical library's function for the argument. Arguments outside the documented domain (square root and logarithm of a negative number, arc sine and arc cosine outside [-1, 1], power of zero to a negative or of a negative to a fraction, and so on) are not computed and are marked as no-data, as are results that are not finite where a range policy applies.",
 INV, "all float and double values, masks and prior results", TESTS + "domain boundaries, infinities and NaNs are sampled.",
 [EL + "sqrt.h", EL + "pow.h", EL + "log.h", EL + "log2.h", EL + "log10.h", EL + "ceil.h", EL + "floor.h", EL + "round.h", EL + "trunc.h", EL + "tgamma.h", "algorithm/trigonometry/tan.h", "algorithm/trigonometry/asin.h", "algorithm/trigonometry/acos.h", "algorithm/trigonometry/atan.h", "algorithm/trigonometry/sin.h", "algorithm/trigonometry/cos.h"],
 [("domain policies", EL + "detail/pow.h")])
prop("C14", "Casting cells preserves every value the result type can represent",
 "Casting a cell to another type yields the argument's value converted to the result type: a value that the result type can represent is preserved, and any value but zero becomes true. A result cell is marked as no-data exactly when the argument is, in which case it keeps its previous value; the range checking policy marks no value that the result type can represent.",
 INV, "all values of every pair of types within the bounds", TESTS + "a few values per pair of types.",
 ["algorithm/core/cast.h"], [("cast algorithm and range policy", "algorithm/core/detail/cast.h")])
CO = "algorithm/core/"
prop("C16", "Conditional assignment selects per cell and respects no-data",
 "If-then-else gives every cell the true value where its condition is not zero and the false value elsewhere; the cell is marked as no-data exactly when its condition or the selected value is no-data. If-then assigns the true value where the condition holds; the other cells, and those whose condition or value is no-data, are marked as no-data and keep their previous value. This holds for every supported combination of scalars and collections and every execution policy.",
 INV, "all conditions, values, masks, prior results, ranks and execution policies within the bounds", TESTS + "masks of three arguments interact per cell.",
 [CO + "if.h"], [("one loop per combination of ranks", CO + "detail/if.h")])
prop("C17", "Cover takes the first value that is not no-data",
 "Covering a value with another gives every cell the first argument's value, or the second argument's when the first is no-data, and marks as no-data exactly the cells for which both are no-data, whichever of the arguments are scalars and whatever execution policy is used.",
 INV, "all values, masks, prior results, ranks and execution policies within the bounds", TESTS + "the guarantee is over all combinations of values, masks, ranks and threads.",
 [CO + "cover.h"], [("one loop per combination of ranks", CO + "detail/cover.h")])
prop("C18", "Clamp limits every cell to its own bounds",
 "Clamping gives every cell the value limited to the range from its lower bound to its upper bound, where bounds may be scalars or collections; a cell is marked as no-data, and left alone, exactly when its value is no-data.",
 INV, "all values, bounds, masks, prior results, ranks and execution policies within the bounds", TESTS + "the guarantee is over all combinations of values, masks, ranks and threads.",
 [CO + "clamp.h"], [("one loop per combination of ranks", CO + "detail/clamp.h")])
prop("C20", "Compressing and decompressing a collection loses nothing",
 "Compressing a collection copies exactly its cells with data, in order, to the front of the result and counts them, also when done by multiple threads. Decompressing the result with the same no-data puts every value back in its own cell, marks the other cells as no-data and leaves their values alone.",
 INV, "all values, masks and execution policies within the shape bounds", TESTS + "the distribution of no-data over the threads' regions matters.",
 [CO + "compress.h", CO + "decompress.h"], [("moving regional results to the front", CO + "detail/compress.h")])
prop("C21", "Merging, intersecting and uniting no-data combine masks cell by cell",
 "Merging marks as no-data exactly the cells that are no-data in the value, intersecting those that are no-data in both values and uniting those that are no-data in at least one of them. Marks that were already there stay, and no cell value changes.",
 INV, "all masks and execution policies within the shape bounds", TESTS + "the guarantee is over all combinations of values, masks, ranks and threads.",
 [CO + "merge_no_data.h", CO + "intersect_no_data.h", CO + "unite_no_data.h"], [("loops", CO + "detail/unite_no_data.h")])
prop("C22", "Offset moves every cell by exactly the offset",
 "Offsetting a 1D or 2D collection gives every cell the value of the cell that lies the offset before it, for every offset including ones larger than the collection. A cell whose source is no-data is marked as no-data; cells without a source cell get the fill value if there is one and are marked as no-data otherwise.",
 INV, "all values, masks, 32 and 64 bit offsets and execution policies within the shape bounds", TESTS + "offsets near and beyond the size and per-thread regions interact.",
 [CO + "offset.h"], [("range calculation and copying", CO + "detail/offset.h")])
ST = "algorithm/statistic/"
prop("C23", "Sum, mean, minimum and maximum aggregate exactly the cells with data",
 "Aggregating a scalar or a collection uses exactly the cells that have data. The integer sum is exact and the integer mean is the exact sum divided by the number of cells, truncated towards zero; when the sum cannot be represented the result is marked as no-data, and it is not marked when the sums of all runs of consecutive cells can be represented. Minimum and maximum are the smallest and largest cell. Floating point sums are marked exactly when they are not finite. Without any cell with data the result is marked as no-data and keeps its value. This holds for every execution policy.",
 INV, "all values, masks and prior results, ranks, number of cells and execution policies within the bounds", TESTS + "overflow, no-data and the division over threads interact.",
 [ST + "sum.h", ST + "mean.h", ST + "unary_min.h", ST + "unary_max.h"], [("aggregation per rank and merging of blocks", "algorithm/core/unary_aggregate_operation.h"), ("mean", "algorithm/accumulator/mean.h"), ("extremes", "algorithm/accumulator/min.h")])
prop("C24", "Counting a value counts exactly the cells with data that equal it",
 "Counting the cells of a scalar or collection that equal a value yields the number of cells with data for which that holds; cells that are no-data never count. The result is marked as no-data exactly when no cell has data. The same holds for masked arrays with the library's own no-data policies and for every execution policy.",
 INV, "all values, masks, ranks, numbers of cells and execution policies within the bounds", TESTS + "blocks that consist of only no-data are what goes wrong.",
 [ST + "count.h"], [("aggregation per rank and merging of blocks", "algorithm/core/binary_aggregate_operation.h")])
AC = "algorithm/accumulator/"
HIST = ["inputs", "histories"]
prop("C25", "Count, sum, mean, minimum, maximum and range accumulate and merge exactly",
 "Adding values to an accumulator, and merging accumulators that saw parts of the values, yields what one accumulator that saw all values yields: their number, exact integer sum, mean truncated towards zero (integers) or divided in the result type (floats), minimum, maximum and range. Assigning a value starts over, whatever was added before. The checked versions of adding and merging report exactly the sums and counts that the result type cannot represent.",
 HIST, "all values and divisions of up to 4 values over merged accumulators, all ways to start one", TESTS + "they add fixed values and merge once.",
 [AC + "count.h", AC + "sum.h", AC + "mean.h", AC + "min.h", AC + "max.h", AC + "range.h"], [("merge and checked merge", AC + "sum.h")])
prop("C26", "Median, mode, variance and standard deviation describe all values added",
 "The median is the middle value, or the mean of the middle two (truncated towards zero for integers, never overflowing), the mode a value that no other value outnumbers, the variance the mean squared distance to the mean of the values and the standard deviation its square root, of all values that were added to or merged into the accumulator since it was last assigned. Asking for the result does not change it.",
 HIST, "all values and divisions of up to 4 values over merged accumulators, all ways to start one", TESTS + "order and sign of the values, merging and restarting matter.",
 [AC + "median.h", AC + "mode.h", AC + "variance.h", AC + "standard_deviation.h"], [("collected values", AC + "median.h"), ("frequencies", AC + "detail/frequency_table.h")])
CV = "algorithm/convolution/"
prop("C27", "Convolution weighs exactly the values within the kernel",
 "Convolving an image gives every cell the sum, or the average, of the values within the kernel, weighted by the kernel's weights: cells with data count with their own value, no-data cells and positions outside of the image are skipped, or count with the average of the cells with data around them, as the policies tell; values whose weight is zero never count. A cell is marked as no-data, and keeps its previous value, exactly when it is no-data and such cells are to be kept, when no value counts, or when the weighted sum is not finite.",
 INV, "all values, masks, prior results and weights, policies and execution policies within the image and kernel bounds", TESTS + "borders, corners, no-data and weights interact per cell.",
 [CV + "convolve.h", CV + "policies.h", CV + "neighborhood/kernel.h", CV + "neighborhood/square.h"], [("inner part, sides and corners", CV + "detail/convolve.h"), ("alternatives for no-data", CV + "policies.h")])
prop("C28", "Slope is Horn's slope of the values around each cell",
 "The slope of a cell is the square root of the sum of the squares of the gradients in both directions, which are weighted with Horn's kernels and divided by eight times the cell size in that direction, where no-data and positions outside of the raster count with the average of the cells with data around them. A cell is marked as no-data exactly when its value is no-data or when the calculation overflows.",
 INV, "all values, cell sizes, masks and prior results and execution policies within the raster bounds", TESTS + "one example raster with square cells is compared with two digits.",
 ["algorithm/space/focal/slope.h"], [("composition of convolutions and local operations, intermediate masks", "algorithm/space/focal/detail/slope.h")])
prop("C29", "Gradients divide differences of neighbours by their distance",
 "The gradient in x or y of a cell is the difference between the neighbours after and before it divided by twice the cell size; when one of them is no-data or outside of the raster the cell itself takes its place and the distance is the cell size, and when both are the gradient is zero. Exactly the cells that are no-data are marked as no-data, and keep their previous value.",
 INV, "all values, cell sizes, masks and prior results and execution policies within the raster bounds", TESTS + "borders, no-data neighbours and row blocks per thread interact.",
 ["algorithm/algebra/vector/gradient.h"], [("borders and inner part per block", "algorithm/algebra/vector/detail/gradient.h")])
prop("C36", "Laplacian and lax weigh the neighbours with data against the cell",
 "The laplacian of a cell is the weighted sum of its neighbours with data (3 for adjacent, 2 for diagonal cells), minus the sum of their weights times the cell itself, divided by the cell area. Lax is (1 - fraction) times the cell plus fraction times the weighted average of its neighbours with data. A cell is marked as no-data exactly when it is no-data, when no neighbour has data or when the calculation overflows.",
 INV, "all values, cell sizes, fractions, masks and prior results and execution policies within the raster bounds", TESTS + "overflow and no-data in intermediate results are not sampled.",
 ["algorithm/algebra/vector/laplacian.h", "algorithm/algebra/vector/lax.h"], [("composition and intermediate masks", "algorithm/algebra/vector/detail/laplacian.h"), ("composition", "algorithm/algebra/vector/detail/lax.h")])
prop("C19", "Binary minimum and maximum select per cell",
 "The minimum (maximum) of two values, scalars or collections, gives every cell the smallest (largest) of the cell's two values. A cell is marked as no-data, and keeps its previous value, exactly when one of its values is no-data, whichever argument is a collection and whatever execution policy is used.",
 INV, "all values but NaN of every arithmetic type but bool, masks, prior results, ranks and execution policies within the bounds", TESTS + "extreme values, signedness and the side of a scalar argument matter.",
 [ST + "binary_min.h", ST + "binary_max.h"], [("selection", ST + "detail/binary_min.h")])
PO = "algorithm/policy/"
prop("C30", "No-data policies detect and mark exactly the addressed cell",
 "Detecting no-data by value finds a cell to be no-data exactly when the mask holds the marker there; detecting it by the type's own no-data value exactly when the cell holds that value. Marking a cell as no-data makes it, and no other cell, no-data for the matching detection policy. Skipping finds nothing, all-no-data finds everything, and not marking changes nothing. Policies per argument keep their place and copies behave like the original.",
 HIST, "all mask contents, markers (but NaN) and indices of masks of rank 0 to 3 within the bounds", TESTS + "only marking a vector is tested.",
 [PO + "detect_no_data_by_value.h", PO + "mark_no_data_by_value.h", PO + "detect_no_data.h", PO + "mark_no_data.h", PO + "skip_no_data.h", PO + "all_no_data.h", PO + "collect_no_data_indices.h", PO + "input_no_data_policies.h", "core/type_traits.h"], [("comparing with the marker", PO + "detect_no_data_by_value.h"), ("no-data value per type", "core/type_traits.h")])
FE = "feature/core/"
prop("C37", "Arrays, masked arrays and rasters keep every cell in its own place",
 "An array, masked array, raster or masked raster of one to three dimensions has the extents it was made with, holds the fill value initially, and reading or writing a cell by index or by row-major position addresses that cell and no other. Masks have the shape of the values and are initially clear, and masking and filling by mask only touch the cells told. Copies and clones are independent and have the same shape, also without values, for another value type; rasters keep their geographic transformation. Indexing a reference addresses the referred cells.",
 INV, "all cell values, masks, transformations and indices for extents and ranks within the bounds", TESTS + "shapes with one, two and three different extents are hardly combined.",
 [FE + "array.h", FE + "masked_array.h", FE + "raster.h", FE + "masked_raster.h", FE + "masked_scalar.h", FE + "array_reference.h", FE + "data_customization_point/array.h", FE + "data_customization_point/masked_array.h", FE + "data_customization_point/raster.h", FE + "data_customization_point/masked_raster.h", "core/data_customization_point/vector.h", "core/data_customization_point/scalar.h"],
 [("extents and masks", FE + "masked_array.h"), ("clone", FE + "data_customization_point/masked_array.h")])
prop("C31", "Collections of value types and data types behave as sets",
 "A collection of value types or data types contains exactly the flags set: union, intersection and symmetric difference, equality, counting and the subset test (which an empty collection never passes) are those of sets. Named collections hold exactly the types of their name and a single type is found back by its name. An expression type is satisfied by another when its data and value types are subsets, a list of expression types when one of another list satisfies one of them; it is fixed when exactly one data and value type remain.",
 HIST, "all collections of value types and data types, and lists of expression types within the bounds", TESTS + "there are thousands of collections and pairs of them.",
 ["core/flag_collection.h", "core/value_types.cc", "core/data_types.cc", "core/type_traits.cc", "core/expression_type.cc", "language/operation/core/expression_types.cc"], [("set operations", "core/flag_collection.h"), ("satisfaction", "language/operation/core/expression_types.cc")])
prop("C38", "The type of an expression follows from its operation and arguments",
 "An operation whose result has one data type (value type) gives a result of that type. Otherwise the result is a field when one of the arguments, within the types its parameter supports, is a field, and a constant when all are constants; its value type is that of the only argument, or the widest numeric type of the arguments, floating point before integer and unsigned before signed of the same size; when nothing is known about the arguments it is whatever the parameters support. Operations are found by their own name, and keep their parameters and results.",
 INV, "all collections of types of parameters, results and arguments, and names, within the bounds", TESTS + "there is no test of the calculation for most of the types.",
 ["language/operation/core/expression_type_calculation.cc", "language/operation/core/operation.cc", "language/operation/core/operations.cc", "language/operation/core/parameter.cc", "language/operation/core/result.cc"], [("type calculation", "language/operation/core/expression_type_calculation.cc")])
prop("C34", "Scopes and symbol tables resolve names to their innermost definition",
 "After any sequence of setting, erasing and clearing values a scope holds exactly the names that were set and not erased, each with the value last set, in the order of the names. A symbol table resolves a name to the value in the innermost scope that defines it, reports that scope's level, and after leaving the scope to the one outside of it. The number of values and scopes is exact. Copies are independent.",
 HIST, "all histories of operations within the bounds, with symbolic names and values", TESTS + "they check a single history each.",
 ["core/scope.h", "language/core/symbol_table.h"], [("lookup from the innermost scope", "language/core/symbol_table.h")])
prop("C35", "The stack returns values of any type in reverse order",
 "Values of different types pushed on a stack are found on top and removed in the reverse order, each with the value pushed. Asking for the top value as another type than it was pushed with fails with an exception and leaves the stack alone. The size is exact, and copies are independent.",
 HIST, "all histories of operations within the bounds, with symbolic values of three types", TESTS + "they check a single history.",
 ["core/stack.h", "core/stack.cc"], [("type check of the top", "core/stack.h")])
prop("C39", "A scope guard runs its function exactly once unless released",
 "The function of a scope guard is executed exactly once, when the guard goes out of scope, however the scope is left (at its end, by returning or by an exception), and not at all when the guard was released. Moving a guard moves the responsibility to the new guard. Guards execute in the reverse order of their construction.",
 HIST, "all ways to leave a scope depending on symbolic values, to release and to move a guard within the bounds", TESTS + "moving guards is not tested.",
 ["core/scope_exit.h"], [("responsibility", "core/scope_exit.h")])
prop("C40", "Features hold their child-features, attributes and geometries by name or id",
 "A relative path addresses a child-feature (attribute) exactly when one was added at that path; looking it up gives the one that was added, and nothing for a missing child-feature. Testing whether an item exists never fails, also when its parent does not. The numbers and names of child-features and attributes of a feature, also of one addressed by a path, are exact. Every geometry added to a spatial attribute gets its own id, which gives back the geometry and its value; constant attributes give the value last set.",
 HIST, "all histories of additions at paths within the bounds, with symbolic names, coordinates and values", TESTS + "one history with equal numbers of attributes in parent and child is tested.",
 ["language/feature/core/feature.cc", "language/feature/core/spatial_attribute.h", "language/feature/core/spatial_domain.h", "language/feature/core/geometry_values.h", "language/feature/core/constant_attribute.h", "core/point.h"], [("lookup by path", "language/feature/core/feature.cc"), ("ids", "language/feature/core/spatial_domain.h")],
 note="fern::Path is a stand-in while executing symbolically; native replays use the real class.")
prop("C04", "Parallel execution equals sequential execution under every schedule",
 "Executing an operation in parallel gives every cell the same value and mask as executing it sequentially, however the calling thread and the threads of the pool are scheduled, including operations that aggregate, compress, or share a pool with another caller. The threads never access the same memory without synchronisation unless all only read it, and nothing of an operation is still being used after it returned.",
 ["schedules", "inputs"], "all interleavings of synchronisation operations with a bounded number of preemptions, all values and masks within the bounds", "Running the tests samples a few schedules; a race or an early return rarely shows.",
 ["algorithm/core/unary_local_operation.h", "algorithm/core/binary_local_operation.h", "algorithm/core/unary_aggregate_operation.h", "algorithm/core/binary_aggregate_operation.h", "algorithm/core/unary_disaggregate_operation.h", "algorithm/core/nullary_local_operation.h", "algorithm/core/detail/compress.h", "algorithm/core/detail/cover.h", "algorithm/core/detail/if.h", "algorithm/core/detail/clamp.h", "algorithm/core/detail/merge_no_data.h", "algorithm/core/detail/unite_no_data.h", "algorithm/core/detail/intersect_no_data.h", "algorithm/core/detail/offset.h", "algorithm/convolution/detail/convolve.h", "algorithm/algebra/vector/detail/gradient.h", "algorithm/policy/parallel_execution_policy.h", "core/thread_pool.h", "core/thread_pool.cc"],
 [("dividing the work, waiting and merging", "algorithm/core/unary_aggregate_operation.h"), ("submitting", "core/thread_pool.h")])
prop("C32", "String operations strip, search, replace and join exactly",
 "Stripping removes exactly the leading and/or trailing characters that are in the set given. A string contains, starts with or ends with another exactly when it occurs somewhere, at its begin or at its end. Replacing replaces every occurrence once, from left to right, without looking at what was inserted. Joining puts the separator between the strings and nowhere else.",
 INV, "all strings, search strings, character sets and replacements within the bounds", TESTS + "empty strings, overlapping occurrences, and strings of only strippable characters matter.",
 ["core/string.cc", "core/string.h"], [("string operations", "core/string.cc")])
AST = "language/ast/visitor/"
prop("C33", "Uses of names are linked to the definition that is visible there",
 "After identifying the names of a module, each use of a name is linked to exactly one definition: the latest one, in the order of evaluation, in the innermost enclosing scope that has one before it; in an assignment the uses in the expression precede the definition of the target. A use of a name which is not defined there (never, later, or only in the block of an earlier conditional or loop) has no definition. Each definition knows exactly its uses, in order, and is its own definition; names of operations and attributes are not names of values. Nothing stays defined after the module.",
 INV, "all names in modules of the structures within the bounds", TESTS + "which names are equal decides the links; tests use a few scripts.",
 [AST + "identify_visitor.cc", AST + "ast_visitor.cc", "language/ast/core/name_vertex.cc", "language/core/symbol_table.h", "core/scope.h"], [("order of uses and definitions, and scopes", AST + "identify_visitor.cc")])
prop("C41", "Inputs and outputs of a module are its names used and last definitions",
 "The inputs of a module are the names used in it, each once, in the order of their first use. The outputs are the last definitions of each of the names assigned to, in the order of these definitions, however often and in whatever order names are redefined. Visiting a module (again) starts anew.",
 HIST, "all names in modules of the structures within the bounds", TESTS + "only a single redefinition is tested, and it depends on which names are equal.",
 [AST + "io_visitor.cc", AST + "ast_visitor.cc"], [("replacing earlier definitions", AST + "io_visitor.cc")])
prop("C42", "Control flow visits the parts of a module in the order of evaluation",
 "After threading a module, following the successors from the module passes its scope, every statement in order, and the sentinel of its scope, and returns to the module. Within a statement arguments come before the operation, from left to right, and the expression and target before the assignment. A conditional is followed by its true and false blocks (when not empty), which both lead to its sentinel and to what follows it. A call of a function defined in the module, before or after the call, leads to its definition, its arguments, its statements until it returns, its sentinel, and from there to what follows the call; other calls are followed by the next part. No other edges exist, and statements that are not reached do not lead to it.",
 INV, "all structures of modules, and names of functions and calls, within the bounds", TESTS + "they check the edges of a handful of scripts.",
 [AST + "thread_visitor.cc", "language/ast/core/ast_vertex.cc"], [("order of visiting, functions and blocks", AST + "thread_visitor.cc")],
 note="While statements are not implemented by the visitor (asserts).")
prop("C43", "Expressions are annotated with their types, and invalid ones are reported",
 "Annotating a module gives numbers, strings and names the types they have (of names: the type last assigned, or given from outside), and a call of a known operation with the right number of arguments the type the operation derives from the types of its arguments, in their order. The target of an assignment has the type of its expression. Validating an annotated module fails exactly when a name or operation is not known, or a call has the wrong number or types of arguments, and tells the first such problem in the order of evaluation, with its name, position and argument.",
 INV, "all collections of types of arguments, parameters and results, and which names and operations are known, within the bounds", TESTS + "arguments of different types, and most combinations of types, are not tested.",
 [AST + "annotate_visitor.cc", AST + "validate_visitor.cc", AST + "ast_visitor.cc", "language/operation/core/expression_types.cc"], [("order of the types of arguments", AST + "annotate_visitor.cc"), ("reporting", AST + "validate_visitor.cc")],
 note="Texts of messages are not decided: formatting types is replaced while executing symbolically.")
