NOTE = "Every path of the stated instances inside the stated bounds, with all symbolic inputs decided by Z3; nothing is claimed outside the bounds. Trusts the executor (validated on sampled concrete traces against the g++ build on every run), clang -O2 IR as the meaning of the source, and the listed environment models."
P = [
dict(id="C01", title="Stored elements are independent and in bounds in every layout",
 statement="A value put at a position of a block is the value read back from that position, and no other position changes, for every dimension order, packing and complex storage format. Linear access to a multi-dimensional block enumerates its elements in the block's dimension order, and every reported extent is the one the block was created with.",
 over=["inputs", "configurations"], quant="all block extents in the bound, all pairs of positions, all values, all dimension orders / packings / complex formats instantiated",
 why="The tests fill and read back whole blocks of a few fixed shapes; aliasing between two particular positions of a particular padded shape is not observed by a full sweep with one pattern.",
 files=["src/ovxx/layout.hpp", "src/ovxx/storage/block.hpp", "src/ovxx/storage/manager.hpp", "src/vsip/dense.hpp", "src/ovxx/strided.hpp"],
 mech=[("index to offset mapping per layout", "src/ovxx/layout.hpp"), ("storage access per format", "src/ovxx/storage/traits.hpp")], note=NOTE),
dict(id="C02", title="Domain and index arithmetic is exact",
 statement="A domain denotes the arithmetic progression first + n*stride; shifting, scaling, copying, equality and conformance act on exactly that index set in every dimension. Intersections contain exactly the common indices, and traversals visit every index of an extent once, in the requested dimension order.",
 over=["inputs"], quant="all valid domains with first, stride and length in the bound (negative strides included), all shifts and factors",
 why="The tests evaluate a handful of literal domains; boundary relations between strides, lengths and offsets are not sampled.",
 files=["src/vsip/domain.hpp", "src/ovxx/domain_utils.hpp", "src/ovxx/vertex.hpp"],
 mech=[("domain arithmetic members", "src/vsip/domain.hpp"), ("intersect/apply_intr/subset_from_intr/next", "src/ovxx/domain_utils.hpp")], note=NOTE),
dict(id="C03", title="Subviews alias exactly the elements they name",
 statement="A row, column, diagonal, transpose, real or imaginary part, sub-domain, tensor slice or fibre, or any subview of a subview, has exactly the extents of the elements it names. Reading it reads those elements of the parent, writing or assigning to it changes those elements and no other, and copying it copies them in place order, whatever the dimension order, packing and complex format of the parent.",
 over=["inputs", "configurations"], quant="all parents in the bound, all sub-domains (negative strides included), all rows/columns/diagonals/slices, all probed positions and written values",
 why="Tests pick a few subviews of fixed square or contiguous parents; the parent elements a subview must not touch are rarely compared.",
 files=["src/ovxx/expr/subset.hpp", "src/ovxx/expr/sliced.hpp", "src/ovxx/expr/transposed.hpp", "src/ovxx/expr/permuted.hpp", "src/ovxx/expr/diag.hpp", "src/ovxx/expr/component.hpp", "src/ovxx/assign/copy.hpp", "src/vsip/matrix.hpp", "src/vsip/tensor.hpp"],
 mech=[("index translation of the non-copying subview blocks", "src/ovxx/expr"), ("direct data access strides and offsets of subviews", "src/ovxx/expr/subset.hpp"), ("strided copies", "src/ovxx/assign/copy.hpp")], note=NOTE),
dict(id="C04", title="Element-wise expressions are evaluated element by element",
 statement="Assigning an element-wise expression (operators, elementwise functions, fused multiply-add forms, compound assignments, scalar operands, element references) to a view stores, at every position, exactly the scalar expression applied to the operands' elements at that position, for every combination of operand layouts, orders, strides, complex formats and element types. Elements outside the destination and the operands themselves are unchanged.",
 over=["inputs", "configurations"], quant="all sizes in the bound, all element and scalar values in the stated ranges, every listed expression form in every listed operand layout",
 why="The tests evaluate one set of values on contiguous views; mixed orders, strides and operand positions, and value-dependent branches (ordering, selection) are not covered together.",
 files=["src/ovxx/view/functors.hpp", "src/ovxx/view/operators.hpp", "src/ovxx/view/fns_elementwise.hpp", "src/ovxx/expr/unary.hpp", "src/ovxx/expr/binary.hpp", "src/ovxx/expr/ternary.hpp", "src/ovxx/expr/operations.hpp", "src/ovxx/math/scalar.hpp", "src/ovxx/assign/loop_fusion.hpp", "src/ovxx/element_proxy.hpp"],
 mech=[("expression blocks and functors", "src/ovxx/expr"), ("operator composition and fusion", "src/ovxx/view/operators.hpp"), ("assignment dispatch and loops", "src/ovxx/assign.hpp")], note=NOTE),
dict(id="C05", title="Copies and transposes are exact and touch nothing else",
 statement="Assigning one view to another of the same shape stores every source element, converted to the destination's type, at its own position, for every pair of layouts, dimension orders, strides, packings and complex formats, through whichever copy or transpose kernel the library selects, in place included. Elements of the destination's parent outside the view and all elements of the source are unchanged.",
 over=["inputs", "configurations"], quant="all shapes in the bound, all element values, all listed pairs of layouts, all in-place transposition sizes",
 why="The tests copy a few fixed shapes whose gaps are not inspected; kernel selection and tail handling depend on sizes, strides and alignment combinations.",
 files=["src/ovxx/assign.hpp", "src/ovxx/assign/copy.hpp", "src/ovxx/assign/loop_fusion.hpp", "src/ovxx/assign/diagnostics.hpp", "src/vsip/matrix.hpp"],
 mech=[("assignment dispatch", "src/ovxx/assign.hpp"), ("copy and transpose kernels", "src/ovxx/assign/copy.hpp")], note=NOTE),
dict(id="C06", title="Direct data access delivers and stores exactly the elements",
 statement="Memory obtained for a block through direct data access has the layout that was asked for (order, packing, alignment, complex format) and the block's extents, holds exactly the block's elements, and every element written through it arrives in the block with nothing else changed, whether access is free or goes through a temporary or caller-provided buffer, with explicit synchronisation, and for layouts chosen at run time. Reading never changes a block.",
 over=["inputs", "configurations"], quant="all shapes in the bound, all element and written values, all listed block types and requested layouts",
 why="Tests request a few layouts on whole blocks; copies in and out of buffers depend on strides, orders and formats of subviews that no test combines.",
 files=["src/ovxx/dda.hpp", "src/vsip/dda.hpp", "src/ovxx/dda/accessor.hpp", "src/ovxx/dda/block_copy.hpp", "src/ovxx/dda/runtime.hpp", "src/ovxx/layout.hpp"],
 mech=[("choice of direct or copied access", "src/ovxx/dda.hpp"), ("copies between layouts", "src/ovxx/assign/copy.hpp")], note=NOTE),
dict(id="C07", title="User memory and blocks exchange exactly their values",
 statement="A block bound to user memory holds, once admitted with update, exactly the values of that memory; once released with update, the memory holds exactly the block's values. This holds through every history of admit, release, rebinding to memory of any format or extent, and element access, for every combination of user format and block format; find and release return the bound memory, the reported state matches, memory of earlier bindings is never touched again, and the same calls on a block without user memory are harmless.",
 over=["inputs", "histories"], quant="all histories of the listed operations up to the bound, all stored values, all format combinations",
 why="The tests run fixed round trips; stale state after format- or size-changing rebinds, skipped updates and missing user memory need particular histories.",
 files=["src/ovxx/storage/manager.hpp", "src/ovxx/storage/user.hpp", "src/ovxx/storage/host.hpp", "src/ovxx/storage/block.hpp", "src/vsip/dense.hpp"],
 mech=[("admission, release and rebinding", "src/ovxx/storage/manager.hpp"), ("user storage formats", "src/ovxx/storage/user.hpp"), ("ownership of host memory", "src/ovxx/storage/host.hpp")], note=NOTE),
dict(id="C08", title="Distributions and maps place every element exactly once",
 statement="Under a block, cyclic or whole distribution and under a map of them applied to a domain, every global index belongs to exactly one patch of exactly one subblock; translating a global index to its subblock, patch and local index and back is the identity, patches tile their subblock, subblocks are assigned to the processors in the given order, and the local view of a processor has the extent of its subblock.",
 over=["inputs", "configurations"], quant="all lengths, all indices, all numbers of subblocks and contiguities in the bound, the listed processor orderings",
 why="The tests query some indices of a few maps; uneven divisions, empty subblocks and cyclic contiguities that do not divide the length are where rounding goes wrong.",
 files=["src/vsip/impl/dist.hpp", "src/vsip/map.hpp", "src/ovxx/parallel/dist_utils.hpp", "src/ovxx/parallel/support.hpp", "src/vsip/impl/parallel.hpp", "src/vsip/impl/replicated_map.hpp"],
 mech=[("index arithmetic of the distributions", "src/vsip/impl/dist.hpp"), ("maps over several dimensions", "src/vsip/map.hpp"), ("view queries", "src/ovxx/parallel/support.hpp")], note=NOTE),
dict(id="C09", title="Distributed views behave like one global view",
 statement="With every processor running the same program on views distributed by any combination of maps, assignments, expressions, compound assignments, sub-views, slices, transposes, element access, reductions and user-storage views give on every processor the part of the global view that its map assigns to it with exactly the values the same program computes on an undistributed view, nothing outside the destination changes, the sources stay unchanged, and the program neither deadlocks nor leaves a message unreceived.",
 over=["inputs", "configurations"], quant="all values, all sizes in the bound, all pairs (for expressions, triples) of block, cyclic, whole, replicated and single-processor maps over 2 to 4 processors, a canonical schedule of the processors with synchronous sends (MPI calls are the only interaction)",
 why="The tests run one processor (or a fixed number under mpirun) on a few maps; empty subblocks, uneven patches and non-unit-stride local blocks need map pairs no test uses.",
 files=["src/ovxx/parallel/assign_chain.hpp", "src/ovxx/parallel/assign_block_vector.hpp", "src/ovxx/parallel/expr.hpp", "src/ovxx/parallel/distributed_block.hpp", "src/ovxx/mpi/communicator.hpp", "src/ovxx/mpi/chain_builder.hpp", "src/vsip/map.hpp"],
 mech=[("chained messages between patches", "src/ovxx/parallel/assign_chain.hpp"), ("block vector messages", "src/ovxx/parallel/assign_block_vector.hpp"), ("expressions over differently mapped operands", "src/ovxx/parallel/expr.hpp"), ("distributed blocks", "src/ovxx/parallel/distributed_block.hpp")], note=NOTE),
dict(id="C10", title="Reductions combine every element exactly once",
 statement="sumval, sumsqval, meanval, meansqval, alltrue and anytrue equal the mathematical reduction over all elements of the view, and maxval, minval and their magnitude variants return the extremum together with a position that holds it, for every view layout, stride, dimension order, complex format, expression and length, including the blocked summation used for long single-precision vectors.",
 over=["inputs", "configurations"], quant="all sizes in the bound, all element values in the stated ranges (exactly representable sums), all layouts and dimension orders instantiated; blocked summation at and around the 4096 and 8192 boundaries",
 why="Tests sum a few patterns of short contiguous data; the long-vector path, strides and early-exit conditions depend on lengths and values no test reaches.",
 files=["src/ovxx/reductions/reductions.hpp", "src/ovxx/reductions/reductions_idx.hpp", "src/ovxx/reductions/functors.hpp", "src/vsip/impl/reductions/reductions.hpp", "src/vsip/impl/reductions/reductions_idx.hpp"],
 mech=[("reduction evaluators per dimension and order", "src/ovxx/reductions/reductions.hpp"), ("accumulation functors", "src/ovxx/reductions/functors.hpp"), ("index reductions", "src/ovxx/reductions/reductions_idx.hpp")], note=NOTE),
dict(id="C11", title="Convolution is exact for every support and symmetry",
 statement="A Convolution object created from coefficients of any symmetry, region of support, input size and decimation reports the parameters and output size the specification prescribes. Every call writes to each output element exactly the sum of products of the full (unfolded) kernel and the input, elements outside the input counting as zero, for vectors and matrices of any stride, order and complex format; coefficients changed after construction, earlier calls and copies of the object have no influence, the input is unchanged and nothing else is written.",
 over=["inputs", "configurations"], quant="all kernel and input sizes, decimations and strides in the bound, all coefficient and input values (exact products and sums)",
 why="The tests compare a few sizes with a reference; the minimal and same-size supports, symmetric kernels, decimation and strides interact at boundaries that need not be among them.",
 files=["src/ovxx/signal/conv.hpp", "src/vsip/impl/signal/conv.hpp"],
 mech=[("generic and optimized convolution loops per support", "src/ovxx/signal/conv.hpp"), ("kernel unfolding and output sizes", "src/vsip/impl/signal/conv.hpp")], note=NOTE),
dict(id="C12", title="Correlation is exact for every support and bias",
 statement="A Correlation object reports the sizes the specification prescribes and writes to each output element exactly the sum of products of the (conjugated) reference and the input at that lag, unscaled when biased, and divided by the number of overlapping elements when unbiased, for every region of support, size, stride, dimension order and complex format. Inputs are unchanged and nothing else is written.",
 over=["inputs", "configurations"], quant="all reference and input sizes and strides in the bound, all values (exact products and sums)",
 why="The tests compare a few sizes with a reference; the scaling at partial overlap and the offset per support are boundary cases.",
 files=["src/ovxx/signal/corr.hpp", "src/vsip/impl/signal/corr.hpp"],
 mech=[("correlation per support, and unbiasing", "src/ovxx/signal/corr.hpp")], note=NOTE),
dict(id="C13", title="FIR and IIR filters process a stream block by block",
 statement="Feeding a signal to an FIR or IIR filter object in consecutive blocks yields exactly the samples that filtering the whole signal at once would (decimation phase included) when state is saved, and treats every block as a new signal when it is not. reset() starts a new signal, copies and assigned objects continue independently from the state they were copied from, the number of outputs is reported truthfully, kernel changes after construction have no effect, inputs are unchanged and nothing but the output is written.",
 over=["inputs", "histories"], quant="all kernel lengths, block sizes, decimations, strides and all coefficient and signal values in the bound; histories of three blocks with reset and copies at any point",
 why="The tests run few block sizes; the carry-over of state and decimation phase between blocks, after a reset or in a copy depends on the history.",
 files=["src/ovxx/signal/fir.hpp", "src/vsip/impl/signal/fir.hpp", "src/vsip/impl/signal/iir.hpp"],
 mech=[("state carried between blocks", "src/ovxx/signal/fir.hpp"), ("second-order sections", "src/vsip/impl/signal/iir.hpp")], note=NOTE),
dict(id="C14", title="Products of vectors and matrices are exact",
 statement="dot, cvjdot, outer, kron, cumsum, prod, prod3, prod4, prodh, prodj, prodt, gemp and gems give exactly the sums of products that define them (with the operation requested for each operand), for operands and destinations of any size, stride, dimension order, sub-matrix window and complex format, whether they are passed to BLAS or evaluated generically. Calls to BLAS satisfy its preconditions, operands are unchanged, and nothing outside the destination is written.",
 over=["inputs", "configurations"], quant="all sizes, windows and strides in the bound, all values (exact products and sums), every combination of dimension orders listed",
 why="The tests multiply whole matrices or a few windows; leading dimensions, negative strides and mixed orders decide which routine runs and with which arguments.",
 files=["src/vsip/impl/matvec.hpp", "src/vsip/impl/matvec_prod.hpp", "src/ovxx/lapack/blas.hpp"],
 mech=[("selection of and arguments to BLAS", "src/ovxx/lapack/blas.hpp"), ("generic evaluators", "src/vsip/impl/matvec.hpp")], note=NOTE+" BLAS is represented by a contract model following the reference semantics (replays run the installed BLAS)."),
dict(id="C15", title="Frequency swap, vector-matrix multiply and histograms are exact",
 statement="freqswap exchanges the halves of a vector, the quadrants of a matrix, or the halves of each row or column, in place or not. vmmul multiplies each row or column of a matrix element-wise by a vector. A Histogram counts every value in exactly one bin: below the minimum, at or above the maximum, or the equal-width bin that contains it, accumulating only when asked to. All of this holds for every size, stride, dimension order, complex format and element type, with arguments unchanged and nothing else written.",
 over=["inputs", "configurations"], quant="all extents (odd and even), windows and values in the bound, all bin counts and ranges in the bound",
 why="The tests use a few even and odd sizes and evenly divisible ranges; odd extents in place, bin boundaries and ranges that do not divide evenly are not covered.",
 files=["src/ovxx/signal/freqswap.hpp", "src/vsip/impl/signal/freqswap.hpp", "src/vsip/impl/vmmul.hpp", "src/ovxx/expr/vmmul.hpp", "src/vsip/impl/signal/histo.hpp"],
 mech=[("swap of halves and quadrants", "src/ovxx/signal/freqswap.hpp"), ("vmmul evaluation per dimension order", "src/vsip/impl/vmmul.hpp"), ("bin selection", "src/vsip/impl/signal/histo.hpp")], note=NOTE),
dict(id="C16", title="Selection, generation and user functions act on exactly the named elements",
 statement="first and indexbool return exactly the positions that satisfy their predicate, gather and scatter read and write exactly the indexed elements (the last one winning on repetition), clip and invclip replace exactly the values their thresholds name, ramp generates its arithmetic progression, swap exchanges the contents of two views position by position, and user functions of one, two or three arguments are applied to corresponding elements of their views with the state of the function object and the declared result type.",
 over=["inputs", "configurations"], quant="all values, thresholds, index lists (repetitions included), sizes, strides and dimension orders in the bound",
 why="The tests use one data set per function; ordering of equal values, repeated indices and views of different orders are not sampled.",
 files=["src/vsip/selgen.hpp", "src/vsip/impl/fns_userelt.hpp", "src/ovxx/expr/generator.hpp"],
 mech=[("selection functions", "src/vsip/selgen.hpp"), ("user function adapters", "src/vsip/impl/fns_userelt.hpp")], note=NOTE),
dict(id="C17", title="Random numbers are reproducible and drawn in order",
 statement="A generator of any seed, portable or not, produces exactly the documented sequence: uniform numbers in range, normal and complex numbers as the documented combinations of uniform ones. Generators of one seed created for several processors run through their own shares of the sequence. A view of random numbers takes exactly one number per element in the destination's order and continues the sequence without dropping or repeating numbers.",
 over=["inputs", "histories"], quant="all 32-bit seeds, all generator numbers in the bound, sequences and views in the bound",
 why="The tests compare one seed with stored results; sequence shares, evaluation order and overflow corrections depend on the seed.",
 files=["src/vsip/random.hpp", "src/ovxx/expr/generator.hpp"],
 mech=[("linear congruential generators and their shares", "src/vsip/random.hpp")], note=NOTE),
dict(id="C18", title="Fourier transforms compute the transform of exactly their input",
 statement="An Fft of one, two or three dimensions and a multiple Fftm, complex or real in either direction, by value, by reference, in place or inside an expression, stores in every element of the output the scaled transform defined for that kind and dimension of exactly the elements of the input, whatever the storage layout, dimension order, strides, alignment and complex format of the two views. It changes neither its input nor anything outside its output, one object can be used repeatedly, and it reports its sizes, scale and direction.",
 over=["inputs", "histories"], quant="all element values, sizes, strides, layouts and kinds of transform in the bound",
 why="The tests transform whole dense views of a few sizes with a tolerance; layout, alignment and in-place handling depend on strides and addresses.",
 files=["src/ovxx/signal/fft.hpp", "src/ovxx/signal/fft/workspace.hpp", "src/ovxx/signal/fft/functor.hpp", "src/ovxx/fftw/fftw.cpp", "src/vsip/impl/signal/fft.hpp"],
 mech=[("layout negotiation and copies around the FFT library", "src/ovxx/signal/fft/workspace.hpp"), ("plans and their execution", "src/ovxx/fftw/fftw.cpp")], note=NOTE),
]
