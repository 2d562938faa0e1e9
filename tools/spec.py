"""The properties, in one place: generates properties.jsonl and MANIFEST.json."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, level="exploration", note="", observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, level=level, note=note, observe=observe or [], state=state or []))


prop(
    "M01", "Element-wise arithmetic on structured matrices equals dense arithmetic",
    "For every combination of matrix types (nested and batched, real data types), arrays and scalars on either side, +,"
    " -, *, / (by a dense, constant or Kronecker matrix, array or scalar without zeros), negation, absolute value,"
    " positive integer powers, and square roots and fractional powers of non-negative matrices give a matrix whose dense"
    " version is the same operation on the dense versions, with NumPy broadcasting, up to rounding."
    " Square-by-type operands (diagonal, triangular, Woodbury) are taken at full size, not broadcast over the matrix axes; products of two Kronecker"
    " products may be refused if their factors do not fit.",
    ["inputs", "programs"],
    "every ordered pair of operand types with nested factors, all broadcastable batch shapes, sizes, memory layouts,"
    " value patterns (zeros, integers, large, small, nearly equal columns), float64/float32/int64, operator or function form",
    "The tests sample one or two shapes per type pair with the same few fixed batch codes and generic normal entries;"
    " dispatch picks a different formula for each of ~150 type pairs and several depend on values (equal columns, zeros)",
    ["matrix/ops/add.py", "matrix/ops/multiply.py", "matrix/ops/subtract.py", "matrix/ops/divide.py", "matrix/ops/negative.py",
     "matrix/ops/abs.py", "matrix/ops/power.py", "matrix/ops/sqrt.py", "matrix/ops/algorithms/align.py", "matrix/promote.py"],
    [("type-pair specific sum and product formulas", "matrix/ops/add.py, matrix/ops/multiply.py"),
     ("column alignment of low-rank factors", "matrix/ops/algorithms/align.py"),
     ("promotion of arrays and scalars", "matrix/promote.py")],
    "differential runtime monitor: real operations on generated operands, judged online against NumPy on the dense denotation",
)
prop(
    "M02", "Matrix products, Kronecker products and transposes equal their dense versions",
    "matmul with any transposition flags (two or three factors, arrays allowed), the @ operator, the diagonal of a square"
    " product, Kronecker products and transposes of matrices of any types, nesting and broadcastable batch shapes have as"
    " dense version the same product of the dense versions, up to rounding. The only refusal is of products of Kronecker"
    " products whose factors do not fit together.",
    ["inputs", "programs"],
    "every ordered pair of operand types, all four transposition-flag combinations, fitting rectangular sizes, batch"
    " broadcasting, the same object on both sides, three-factor products",
    "Over 120 type pairs times flags times batch patterns; tests use square or a few rectangular shapes and rarely combine"
    " flags with batch broadcasting or nested factors",
    ["matrix/ops/matmul.py", "matrix/ops/matmul_diag.py", "matrix/ops/kron.py", "matrix/ops/transpose.py"],
    [("type-pair specific products", "matrix/ops/matmul.py"), ("diagonal of a product without the product", "matrix/ops/matmul_diag.py")],
    "differential runtime monitor against NumPy products of the dense denotation",
)
prop(
    "M03", "Inverses, linear solves and Schur complements satisfy their equations",
    "For every well-conditioned invertible (or positive-definite) matrix of every type that supports it, inv, pd_inv,"
    " solve, triangular solves (whatever the lower flag says for typed triangular matrices: one that contradicts the type gives a warning), Cholesky solves and the Schur"
    " complements of Woodbury matrices equal those of the dense matrix up to rounding amplified by the condition number,"
    " for right-hand sides of every type and broadcastable batch shapes. Scaling the matrix by 1e-8 or 1e8 does not matter.",
    ["inputs"],
    "all invertible operand types incl. Woodbury with any rank (also above the size) and structured factors, nested"
    " Kronecker products, right-hand sides of every type, batch broadcasting on both sides",
    "Tests invert a handful of generic matrices per type; matrix-inversion-lemma formulas differ by rank, factor type,"
    " batch pattern and non-identity middle",
    ["matrix/ops/inv.py", "matrix/ops/pd_inv.py", "matrix/ops/solve.py", "matrix/ops/triangular_solve.py",
     "matrix/ops/cholesky_solve.py", "matrix/ops/schur.py", "matrix/ops/pd_schur.py"],
    [("matrix inversion lemma", "matrix/ops/inv.py:inv(Woodbury), matrix/ops/pd_inv.py"), ("cached Schur complement", "matrix/ops/schur.py")],
    "runtime monitor: results judged against the inverse of the dense denotation with a condition-number allowance",
)
prop(
    "M04", "Cholesky factors and square roots reproduce the matrix they factorise",
    "For every positive-definite matrix (positive semi-definite for zero, constant, low-rank and their Kronecker products),"
    " the Cholesky factor times its transpose is the matrix, and for dense, diagonal, Woodbury and Kronecker products of"
    " positive-definite matrices the factor is lower triangular with positive diagonal; the root is symmetric, positive"
    " semi-definite, and squares to the matrix. Asking again gives the same factor.",
    ["inputs"],
    "all supported types incl. nested Kronecker products and low-rank matrices with non-identity middle, batches, scales",
    "Tests factorise one generic matrix per type",
    ["matrix/ops/cholesky.py", "matrix/ops/root.py"],
    [("type-specific factorisations and the factor cache", "matrix/ops/cholesky.py"), ("root by SVD", "matrix/ops/root.py")],
    "runtime monitor: recombination oracle and structural assertions on every factor",
)
prop(
    "M05", "Log-determinants, inverse quadratic forms, ratios and traces are exact",
    "For every positive-definite matrix (log-determinant also of triangular matrices with positive diagonal), logdet, iqf,"
    " iqf_diag (with one or two outer matrices of any type), ratio (with positive semi-definite numerator) and trace equal"
    " the value for the dense matrix, with the broadcast batch shape, up to rounding amplified by the condition number."
    " Log-determinants stay finite and correct when the determinant itself under- or overflows.",
    ["inputs"],
    "all supported matrix types times all types of the outer matrices, batches, scales 1e-60 to 1e60",
    "Tests use a few sizes with generic values; Woodbury and Kronecker use type-specific determinant and trace identities",
    ["matrix/ops/logdet.py", "matrix/ops/iqf.py", "matrix/ops/iqf_diag.py", "matrix/ops/ratio.py", "matrix/ops/trace.py"],
    [("matrix determinant lemma", "matrix/ops/logdet.py"), ("split trace identities", "matrix/ops/ratio.py")],
    "differential runtime monitor against slogdet / inverse of the dense denotation",
)
prop(
    "M06", "Sums, means, diagonals, traces and NaN masks equal those of the dense matrix",
    "sum and mean over everything or over any one axis (batch or matrix, counted from either end), the diagonal (also of"
    " rectangular matrices), the trace and the NaN mask of a matrix of any type, nesting and batch shape equal those of"
    " its dense version, as ordinary numeric arrays or structured matrices of the right shape.",
    ["inputs"],
    "all types, all axes from either end, rectangular and batched operands whose parts carry different batch shapes",
    "Axis handling differs per type and breaks only for parts with unequal batch shapes or rectangular factors",
    ["matrix/ops/sum.py", "matrix/ops/mean.py", "matrix/ops/diag.py", "matrix/ops/diag_extract.py", "matrix/ops/isnan.py",
     "matrix/ops/trace.py"],
    [("axis resolution per representation", "matrix/ops/sum.py"), ("diagonal of products without the product", "matrix/ops/diag.py")],
    "differential runtime monitor against NumPy reductions of the dense denotation",
)
prop(
    "M07", "Selecting, reshaping, tiling, concatenating and broadcasting match dense",
    "take with (repeated, unsorted, negative) indices or masks along any axis, submatrix (increasing indices or masks for"
    " diagonal, triangular and Woodbury matrices), indexing, reshape, squeeze, tile, concat, broadcast_to,"
    " broadcast_batch_to, to_numpy and ones/zeros/eye-like of a matrix of any type, nesting and batch shape give what the"
    " same operation gives on its dense version, for non-empty selections.",
    ["inputs"],
    "all types, list/tuple/array indices and masks, all axes, all broadcast targets, tiled blocks along every axis",
    "Tests take a few fixed index sets; each type has its own index arithmetic that only shows for batched numeric factors",
    ["matrix/ops/take.py", "matrix/ops/submatrix.py", "matrix/ops/reshape.py", "matrix/ops/squeeze.py", "matrix/ops/tile.py",
     "matrix/ops/concat.py", "matrix/ops/broadcast_to.py", "matrix/ops/broadcast_batch_to.py", "matrix/ops/to_numpy.py",
     "matrix/ops/util.py", "matrix/matrix.py"],
    [("selection applied to factors", "matrix/ops/take.py"), ("batch alignment", "matrix/ops/util.py"), ("concatenation of tiled blocks", "matrix/ops/concat.py")],
    "differential runtime monitor against NumPy indexing of the dense denotation",
)
prop(
    "M08", "Block, block-diagonal and tiled matrices and filled diagonals assemble correctly",
    "block over any grid of fitting blocks, block_diag of any matrices or of tiled blocks, TiledBlocks through every"
    " constructor form, fill_diag, and Constant and Zero with an explicit batch shape denote the matrix assembled from the"
    " dense versions of their parts with batch shapes broadcast, whichever structure the parts and zero blocks have.",
    ["inputs"],
    "grids of 1 to 3 by 1 to 3 blocks of all types with broadcastable batches; grids that are zero or diagonal but for one block",
    "Structure detection looks at every block; tests have one grid per case",
    ["matrix/ops/block.py", "matrix/ops/block_diag.py", "matrix/ops/fill_diag.py", "matrix/tiledblocks.py", "matrix/ops/dense.py",
     "matrix/constant.py"],
    [("zero/diagonal detection in grids", "matrix/ops/block.py"), ("repetition and concatenation of blocks", "matrix/ops/dense.py:dense(TiledBlocks)")],
    "differential runtime monitor against NumPy concatenation of the dense denotation",
)
prop(
    "M10", "Every matrix object means what its type and attributes say, caches included",
    "Every matrix object that an operation builds or returns is well formed: the attributes its documentation names exist"
    " and have fitting shapes, a (lower/upper) triangular matrix has exact zeros on the other side, the declared rank of a"
    " low-rank matrix bounds its rank, the shape and batch shape it reports are those of its parts broadcast, and a cached"
    " dense version, Cholesky factor or Schur complement agrees with what the attributes denote.",
    ["programs", "histories"],
    "every object constructed, intermediates included, in random programs of arithmetic, selection, assembly,"
    " factorisation and functionals over all types and batches",
    "A wrong label or stale cache gives right values until a later type-specific operation uses it; tests look at the value"
    " of one result",
    ["matrix/matrix.py", "matrix/lowrank.py", "matrix/woodbury.py", "matrix/kronecker.py", "matrix/diagonal.py", "matrix/triangular.py",
     "matrix/ops/dense.py", "matrix/ops/cholesky.py", "matrix/ops/schur.py", "matrix/ops/pd_schur.py"],
    [("attributes and caches of matrix objects", "matrix/*.py constructors"), ("dense, cholesky and schur caches", "matrix/ops/dense.py, matrix/ops/cholesky.py, matrix/ops/schur.py")],
    "object registry (hooked constructor) with an audit of every object and cache against the matrix recomputed from its attributes",
    observe=["AbstractMatrix.__new__"], state=["dense", "cholesky", "schur", "_middle"],
)
prop(
    "M22", "Matrices can be shared between threads",
    "When several threads use the same matrices at the same time - the same or different operations, with caches (dense version, Cholesky"
    " factor, Schur complement) empty or filled - every operation gives in every interleaving what it gives alone on fresh operands"
    " (same type, shape, data type and value), nothing fails that works alone, and every cache that is left behind is right.",
    ["schedules", "inputs", "histories"],
    "two or three threads, one to three operations each from a common list, on all operand types; switches before any source line of matrix and LAB",
    "No test uses threads; a cache that is filled in two steps, or an attribute that is changed for the duration of a call, passes every sequential test",
    ["matrix/ops/cholesky.py", "matrix/ops/schur.py", "matrix/ops/dense.py", "matrix/ops/pd_inv.py", "matrix/ops/iqf.py", "matrix/lowrank.py"],
    [("caches filled at one stroke", "matrix/ops/cholesky.py; matrix/ops/schur.py; matrix/ops/dense.py"), ("defaults computed on first use", "matrix/lowrank.py:LowRank.middle")],
    "runtime monitor under a controlled thread scheduler (random and few-switch schedules), results judged against lone executions, caches audited",
    observe=["sys.monitoring LINE events as switch points", "attributes of all shared objects"],
)
prop(
    "M23", "Programs over shared structured matrices equal the same programs on dense arrays",
    "Any straight-line program of supported operations, in which results are operated on again and operands are shared and"
    " reused, gives at every step a matrix whose dense version is that of the same program run on dense arrays; for"
    " programs on small integers the agreement is exact.",
    ["programs", "histories"],
    "random programs of 6 to 14 operations over pools of all types, results of any structured type returning to the pool",
    "Tests exercise single operations on directly constructed matrices; compositions create representations (nested factors,"
    " cached parts, unusual batch patterns) that no test constructs",
    ["matrix/ops", "matrix/lowrank.py", "matrix/woodbury.py", "matrix/kronecker.py"],
    [("closure of operations over representations", "matrix/ops"), ("caches on shared operands", "matrix/ops/dense.py, matrix/ops/cholesky.py")],
    "online differential monitor of random programs against the same program on NumPy arrays",
    level="exploration",
)

prop(
    "M09", "Shapes, ranks, data types and printed forms of matrices tell the truth",
    "Without making anything dense, every matrix of every type, nesting and batch shape, freshly made or the result of an"
    " operation, reports the shape, batch shape, matrix shape, rank, data type and abstractness that its dense version has"
    " (each dimension an integer, however it is asked for: B.shape, B.shape_batch, B.shape_matrix, .rows, .cols, .T), pairs report"
    " the shapes they broadcast to or are refused as incompatible exactly when NumPy would, and str and repr name the right"
    " type and this shape and data type. The result of an operation with a matrix operand is a matrix object where it is a matrix"
    " (selections, products, sums, blocks, tilings, casts), and an array where it is not (diagonals, traces, sums, flattenings).",
    ["inputs", "programs"],
    "all types, nestings and batches; operands and the results of random programs; all ways of asking; all pairs",
    "Shapes are computed from the parts by a separate formula per type, tested for one or two batch patterns each; wrong"
    " claims surface only later, in operations that size their results with them",
    ["matrix/shape.py", "matrix/ops/shape.py", "matrix/ops/dtype.py", "matrix/ops/isabstract.py", "matrix/ops/rank.py", "matrix/util.py",
     "matrix/*.py (str, repr)"],
    [("shape formula per type", "matrix/ops/shape.py"), ("broadcasting and compatibility of shapes", "matrix/shape.py")],
    "runtime monitor: every object's claims recorded before densification, judged against the denoted matrix",
)
prop(
    "M14", "Operations keep structure: result types, bounded ranks and cancellation",
    "The result of an operation has the structured type that the operands determine (sums, products, matrix products,"
    " Kronecker products, transposes, inverses, factorisations, selections, tilings and blocks of zero, constant, diagonal,"
    " triangular, low-rank, Woodbury and Kronecker matrices), not a dense matrix; the rank of a low-rank result is at most"
    " the sum (for sums) or product (for element-wise products) or minimum (for matrix products) of the ranks; low-rank terms"
    " that share columns of distinct norms are merged, and a low-rank matrix minus itself is zero, in any column order and at any scale.",
    ["inputs"],
    "all ordered pairs of types under every operation with promised result types, nested factors, batches and scales",
    "A loss of structure gives right values, and the tests check types only for a few fixed shapes per pair",
    ["matrix/ops/add.py", "matrix/ops/multiply.py", "matrix/ops/matmul.py", "matrix/ops/kron.py", "matrix/ops/inv.py", "matrix/ops/block.py",
     "matrix/ops/algorithms/align.py", "matrix/lowrank.py"],
    [("merging of shared columns", "matrix/ops/algorithms/align.py"), ("detection of zero and diagonal grids", "matrix/ops/block.py")],
    "runtime monitor of result types and ranks against a table of promises",
)
prop(
    "M16", "Operations do only the work the structure allows, and factorise once",
    "Operations that exploit structure cost what the structure allows: products and sums of diagonal, low-rank and Woodbury matrices,"
    " and inverses, solves, log-determinants, quadratic forms, ratios and samples with them take a number of multiply-adds linear in the"
    " size and factorise nothing larger than the rank; inverses, log-determinants, Cholesky factors, roots, samples and products with"
    " Kronecker products work on the factors; solves with triangular matrices are substitutions; a dense positive-definite matrix is factorised"
    " once per operation; diagonals, traces and sums form no product. The product of three (dense) matrices and of a"
    " Kronecker product with a matrix are evaluated in the cheaper order. Cholesky factors and Schur complements are computed once per"
    " matrix object, whichever operations use them.",
    ["inputs", "histories"],
    "over 200 operations at size 210 to 340, ranks 1 to 3, 1 to 5 columns, batches; random shapes and flags for the orders; all ordered pairs"
    " of positive-definite operations on one object for the reuse",
    "A method that falls back to the dense formula, a swapped order or a lost cache gives right values, only slowly; tests run at size 6",
    ["matrix/ops/matmul.py", "matrix/ops/inv.py", "matrix/ops/pd_inv.py", "matrix/ops/iqf.py", "matrix/ops/iqf_diag.py", "matrix/ops/logdet.py",
     "matrix/ops/ratio.py", "matrix/ops/cholesky.py", "matrix/ops/schur.py", "matrix/ops/sample.py", "matrix/ops/diag.py"],
    [("order of products", "matrix/ops/matmul.py"), ("matrix inversion lemma", "matrix/ops/inv.py, matrix/ops/iqf.py"),
     ("caches of factors", "matrix/ops/cholesky.py, matrix/ops/schur.py")],
    "runtime monitor: meter on every numerical product and factorisation (multiply-adds, size, count), judged against the cost of the structured formula",
    observe=["calls of NumPy/SciPy products and factorisations"],
)

prop(
    "M17", "Data types follow NumPy promotion, casts reach every part, integers stay exact",
    "For operands of equal or mixed float64, float32 and int64 data types (no part of which is zero, since a zero matrix"
    " takes no part in promotion), the result of every operation is of the data type NumPy promotes to, and claims it;"
    " inverses, factorisations and quadratic forms stay in the precision of their operands; casting converts all parts and keeps"
    " type and value; sums, products, selections and assemblies of 64-bit integers beyond 2**53 are exact.",
    ["inputs"],
    "all types and nested factors with data types drawn per operand, Python and NumPy scalars, integers up to 2**61",
    "Tests run in float64 nearly everywhere; a single array created without the operand's data type silently degrades or"
    " upgrades precision",
    ["matrix/ops/dtype.py", "matrix/ops/cast.py", "matrix/promote.py", "matrix/ops/dense.py", "matrix/ops/block.py", "matrix/lowrank.py",
     "matrix/ops/add.py"],
    [("arrays created inside operations", "matrix/ops/*.py"), ("identity middle factor of low-rank matrices", "matrix/lowrank.py")],
    "runtime monitor of claimed and actual data types, and exact integer oracle",
)

prop(
    "M11", "Operations change nothing: operands, results, arguments, global state",
    "No operation, in whatever order, changes the contents of the arrays or the attributes of its operands, of any earlier"
    " result (also when it shares memory with operands), of lists and arrays given as arguments, or the global state of NumPy,"
    " LAB and the warnings module. Only caches that were empty may get filled. Operands in read-only memory work as well as others, and"
    " printing or querying a result changes nothing either. In-place operators produce new objects.",
    ["histories", "inputs"],
    "random programs over all operand types with results operated on again, all operations of the catalogue incl. factorisations and"
    " sampling, half of them with operands in read-only memory; Snapshots of everything reachable before and after every operation",
    "Tests look at the result of one operation on fresh operands and never look at the operands again",
    ["matrix/ops/*.py", "matrix/matrix.py", "matrix/lowrank.py", "matrix/woodbury.py"],
    [("results share arrays and sub-objects with operands", "matrix/ops/*.py"), ("caches filled on operands", "matrix/ops/dense.py, matrix/ops/cholesky.py, matrix/ops/schur.py")],
    "runtime monitor: content snapshots (hashes) of all reachable state before and after every operation, plus read-only memory as a write trap",
)

prop(
    "M12", "Results depend on what operands are, not on what was done with them before",
    "The result of an operation (type, nested types, shape, data type, and value: to the last bit for element-wise arithmetic,"
    " products, selections and assemblies; up to rounding amplified by the condition number for inverses, factorisations and what uses"
    " them) is the same on operands that were used before in any way (dense versions, Cholesky factors and Schur complements cached"
    " on them, on their parts or on matrices sharing parts, results derived from results) as on fresh identical operands, and the"
    " same when repeated. Operations that assume a positive-definite operand are used on positive-definite operands only.",
    ["histories", "inputs"],
    "random programs of elementary, positive-definite and general-inverse operations with caches of random objects and parts filled at"
    " random moments; each judged result is recomputed on regenerated operands by only the operations it needs",
    "Caches are invisible to tests that call one operation on fresh operands; a cache that travels to a derived object (transpose,"
    " multiple, selection) is wrong only after the right history",
    ["matrix/ops/dense.py", "matrix/ops/cholesky.py", "matrix/ops/schur.py", "matrix/ops/pd_schur.py", "matrix/ops/*.py"],
    [("dense, cholesky and schur caches on objects", "matrix/ops/dense.py, matrix/ops/cholesky.py, matrix/ops/schur.py, matrix/ops/pd_schur.py"),
     ("sub-objects shared between results and operands", "matrix/ops/*.py")],
    "runtime monitor: differential execution with and without history, bitwise comparison",
)

prop(
    "M13", "Failures are atomic: an interrupted operation leaves nothing half-done",
    "If an operation is interrupted by an exception at any source line (memory error, keyboard interrupt, or a failure of its own,"
    " such as a matrix that is not positive definite or is singular, or shapes that do not fit), no array or attribute of any operand is changed, caches are either"
    " empty or right, global state (such as NumPy's, LAB's and the warnings module's) is as before, and the same or other operations on the same operands then"
    " give what they give on fresh operands. A failure repeats as long as its cause lasts, and not afterwards.",
    ["crash points", "histories", "inputs"],
    "every operation of the catalogue on all operand types, interrupted before each (or a random sample) of the source lines of matrix"
    " and LAB that it executes; natural failures with and without removal of the cause",
    "Tests never interrupt an operation; caches are assigned in the middle of operations",
    ["matrix/ops/cholesky.py", "matrix/ops/schur.py", "matrix/ops/pd_schur.py", "matrix/ops/dense.py", "matrix/lowrank.py"],
    [("cache assignments in the middle of operations", "matrix/ops/cholesky.py, matrix/ops/schur.py, matrix/ops/pd_schur.py, matrix/ops/dense.py")],
    "runtime monitor with fault injection at every executed line (sys.monitoring), state audit and differential retry", level="fault_enumeration",
)
prop(
    "M18", "Operands that do not fit are refused, never silently combined",
    "Element-wise operations, products and diagonals of products, solves, quadratic forms, ratios, concatenations, blocks, reshapes and"
    " broadcasts of matrices of any types raise an exception, rather than give a result, if the batch or matrix shapes (of size 2 or"
    " more) do not fit by NumPy's rules; so do Cholesky decompositions, roots, inverses and log-determinants of rectangular matrices, and low-rank, Woodbury,"
    " Kronecker, constant and tiled matrices made of parts that do not fit; selections and sums at axes that do not exist or with indices that are not a list; and,"
    " except on zero and constant matrices, indices out of range and masks of the wrong length. (block assumes that a grid of"
    " zero matrices aligns.)",
    ["inputs"],
    "every ordered pair of operand types with nested factors, mismatch in rows, columns, inner size or batch (also at different batch ranks)",
    "Tests check the refusal for very few pairs; formulas on diagonals, constants and factors drop the dimension that would have shown the mismatch",
    ["matrix/ops/add.py", "matrix/ops/multiply.py", "matrix/ops/matmul.py", "matrix/ops/solve.py", "matrix/shape.py",
     "matrix/ops/broadcast_batch_to.py", "matrix/ops/broadcast_to.py", "matrix/ops/shape_batch_broadcast.py"],
    [("assert_compatible", "matrix/shape.py"), ("batch shapes derived by broadcasting the parts", "matrix/ops/shape_batch.py")],
    "runtime monitor: negative testing with generated misfits, results judged by NumPy's shape rules",
)

prop(
    "M15", "Structured matrices are never made dense silently or needlessly",
    "No operation on structured matrices (zero, constant, diagonal, low-rank, Woodbury, Kronecker) allocates memory of the order of the"
    " dense matrix unless it issues a ToDenseWarning; operations that exploit structure (among them negation, transposes, scaling, sums,"
    " diagonals, traces, sums and products within diagonal, constant, low-rank and Woodbury matrices, products with vectors and zero"
    " matrices, products of fitting Kronecker products, Kronecker products, inverses, log-determinants and Cholesky factors of diagonal and Kronecker"
    " matrices, inverses, solves and log-determinants of Woodbury matrices) never do, and do not warn if the factors are"
    " plain. With a dense operand, a structured one is not silently made dense by element-wise products and quotients, matmul_diag and assembling,"
    " and not at all by products with zero, constant, diagonal and low-rank matrices and sums with zero and constant ones. Conversion on request does not warn. Turning the warning into an error refuses exactly the operations that warn, and changes nothing.",
    ["inputs"],
    "every operation on every structured type and pair of types, square and rectangular, batched, nested factors, float64 and float32",
    "A lost or too general method gives right values at a million times the memory; tests run at size 6 and never look at memory",
    ["matrix/ops/*.py", "matrix/util.py", "matrix/ops/add.py", "matrix/ops/matmul.py", "matrix/ops/multiply.py", "matrix/ops/diag.py", "matrix/ops/inv.py"],
    [("dispatch to type-specific methods", "matrix/ops/*.py"), ("ToDenseWarning before conversions", "matrix/ops/*.py")],
    "runtime monitor: allocation tracer (peak memory per operation) and warning recorder, judged against the size of the dense matrix",
    observe=["tracemalloc", "warnings"],
)

prop(
    "M19", "JAX arrays, eager or compiled with B.jit, behave as NumPy arrays",
    "For programs of operations on matrices around JAX arrays, or mixed JAX and NumPy arrays, every result has the same value, matrix"
    " type and data type as with NumPy arrays. The same holds when the program is compiled by B.jit, also when the compiled function is called"
    " again with other numbers, provided they have the same pattern of equal columns and cancellations (LAB's control-flow cache"
    " records those decisions at the first call), and when some operands live outside of the function; those stay usable and unharmed. Index arrays for take and submatrix, and numbers that scale, shift or fill, may be compiled, too."
    " Casts are to JAX data types, and products of two low-rank matrices are left out of compilation (LAB cannot unstack there).",
    ["inputs", "histories", "programs"],
    "programs of one to three operations from the general and the positive-definite catalogue; eager, compiled, called again, closed over",
    "Almost all tests use NumPy arrays only; under compilation any Python branch on values or shapes that is not recorded fails or is silently fixed to the first call's outcome",
    ["matrix/ops/algorithms/align.py", "matrix/ops/add.py", "matrix/ops/take.py", "matrix/shape.py", "matrix/constant.py", "matrix/ops/matmul.py"],
    [("control-flow outcomes recorded and replayed in order", "matrix/ops/algorithms/align.py; matrix/ops/add.py:add(LowRank, LowRank)"),
     ("lazy shapes under compilation", "matrix/shape.py; matrix/constant.py:Constant.__init__")],
    "differential runtime monitor over back ends: eager, compiled and repeated executions judged against the NumPy denotation; monitored control-flow cache and tracer leaks",
    observe=["lab.control_flow outcomes", "jax tracers held by objects"],
)
prop(
    "M20", "Gradients through structured operations are those of the dense operations",
    "For programs of differentiable operations on matrices around JAX arrays (general or positive definite, at points where the dense program is"
    " smooth), reverse- and forward-mode derivatives with respect to all the numbers in all operands are finite and equal those of the"
    " same program on dense matrices, along directions that keep equal columns equal; also when numbers are shared between operands, when intermediate factorisations come"
    " from a cache, and when the gradient is compiled with B.jit.",
    ["inputs", "programs"],
    "programs of one to three operations; all operand types with shared factors; gradients with respect to every leaf, forward mode, compiled gradients",
    "No test differentiates anything; detaching a value (conversion to NumPy, rebuilding from a stale cache, a where over an infinite branch) leaves all values right",
    ["matrix/ops/algorithms/align.py", "matrix/ops/cholesky.py", "matrix/ops/logdet.py", "matrix/ops/iqf.py", "matrix/ops/iqf_diag.py", "matrix/ops/schur.py", "matrix/ops/add.py"],
    [("values only inspected, never rebuilt, when aligning columns", "matrix/ops/algorithms/align.py"), ("caches in differentiated objects", "matrix/ops/cholesky.py; matrix/ops/schur.py")],
    "differential runtime monitor: derivatives observed from the real code against extrapolated differences of the dense denotation",
)
prop(
    "M21", "Samples have the right covariance, fresh noise, and a reproducible random state",
    "For every positive (semi-)definite matrix of every type, nesting and batch shape, B.sample gives zero-mean normal samples of"
    " the matrix's shape and data type with exactly that covariance; different samples, different matrices of a batch, and successive calls use"
    " independent noise; the samples are determined by the random state given (NumPy random states and JAX keys), or by the global one if"
    " none is given, and by the matrix, not by what was done with it before; the state that comes back gives new samples, and no other random state is touched.",
    ["inputs", "histories"],
    "all types with structured factors and parts of different batch shapes; NumPy states and JAX keys, explicit and global",
    "The one test per type estimates a covariance from random samples to 10 percent, for one batch pattern, and never looks at dependence",
    ["matrix/ops/sample.py", "matrix/ops/cholesky.py", "matrix/ops/broadcast_batch_to.py"],
    [("noise pushed through the Cholesky factor", "matrix/ops/sample.py"), ("threading of the random state through the parts", "matrix/ops/sample.py:sample(Woodbury)")],
    "runtime monitor: recording random state (noise-to-sample map observed element by element) and statistical monitor of real random states",
    observe=["numpy.random.RandomState", "jax.random keys"],
)

BUILT = None


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    **({"state": p["state"]} if p["state"] else {}),
                    **({"observe_at": p["observe"]} if p["observe"] else {}),
                    "hook_needed": None,
                },
            }) + "\n")
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "mon", "checks")) if f.startswith("m")}
    checks, na = [], []
    for p in sorted(P, key=lambda p: p["id"]):
        if p["id"] in have:
            checks.append({
                "property": p["id"],
                "quick_cmd": f"./check.sh {p['id']} quick",
                "thorough_cmd": f"./check.sh {p['id']} thorough",
                "technique": p["technique"],
                "level": p["level"],
                "level_note": p["note"] or "runtime monitoring of generated workloads; evidence counts the distinct situations observed",
            })
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na},
              open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
