#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that statements stay in one reviewable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
H, I, F, C = "histories", "inputs", "fault_sequences", "configurations"

p("P01", "Growable array is an exact sequence with exact element lifetimes",
  "After any sequence of construct, append, resize, reserve, set, clear, copy and move operations (including with arguments that alias the array's own elements), the growable one-dimensional array holds exactly the elements a plain sequence would hold, in order, and its capacity is never below its size. Every element object it creates is destroyed exactly once, none is read or assigned before it is constructed, all its memory is released, and copies are independent of their source. A request to reserve or resize never loses or changes elements that remain within the new size.",
  [H, I], "all operation sequences up to a depth over a small alphabet, for trivial, non-trivial and move-only-observable element types, in checked and unchecked builds",
  "tests run a couple of fixed sequences per method; storage reuse, growth and assignment bugs depend on the combination of size, capacity and previous history",
  ["il/container/1d/Array.h", "il/core/memory/allocate.h"],
  [("growth and relocation", "il/container/1d/Array.h: IncreaseCapacity, Reserve, Append, Resize"), ("copy/move", "il/container/1d/Array.h: constructors and operator=")],
  ["operator[], size(), capacity(), element constructor/destructor counts, allocator balance"])
p("P02", "Aligned storage honours the requested alignment and stays in bounds",
  "For every one- to three-dimensional array built with a requested byte alignment (and optional remainder), the address of its storage has that remainder modulo that alignment, both after construction and after every later growth, resize, copy or move for which the array still reports that alignment. Every element inside the array's reported capacity lies inside memory the array owns. The contents are the same as for an array without alignment.",
  [H, I, C], "all alignment/remainder combinations allowed by the preconditions × element types × operation sequences up to a depth",
  "tests check one alignment on freshly constructed arrays only; over-allocation arithmetic depends on address, element size and growth history",
  ["il/core/memory/allocate.h", "il/container/1d/Array.h", "il/container/2d/Array2D.h", "il/container/2d/Array2C.h", "il/container/3d/Array3D.h", "il/container/3d/Array3C.h"],
  [("aligned allocation", "il/core/memory/allocate.h: allocateArray with alignment"), ("leading-dimension padding", "Array2D.h/Array2C.h/Array3D.h/Array3C.h aligned constructors")])
p("P03", "Small-buffer array behaves the same inline and on the heap",
  "After any sequence of construct, append, resize, reserve, set, copy and move operations, the small array holds exactly the elements a plain sequence would hold, whether they live in its inline buffer or on the heap. Every element object is destroyed exactly once, none is used before it is constructed, and all memory is released; a moved-from array can be reused.",
  [H, I], "all operation sequences up to a depth around the inline-buffer size, trivial and non-trivial elements",
  "tests barely touch the class; the transition between inline and heap storage in each direction under assignment is a product of histories",
  ["il/container/1d/SmallArray.h"], [("inline/heap switch", "il/container/1d/SmallArray.h")])
p("P04", "Double-ended queue keeps order at both ends through wrap-around",
  "After any sequence of insertions and removals at either end, the queue returns exactly the elements a reference double-ended queue would return, in the same order, at every wrap-around position, for as long as it holds no more elements than its capacity, which is fixed when it is created or first reserved. A push beyond the capacity stops the program instead of overwriting an element. Every element is destroyed exactly once and all memory is released.",
  [H], "all push/pop/reserve sequences up to a depth, starting from several capacities",
  "no test exists; ring-buffer index errors need particular combinations of front position, size and capacity",
  ["il/container/deque/Deque.h"], [("ring indices", "il/container/deque/Deque.h: PushBack, PushFront, PopBack, PopFront, Reserve")])
p("P05", "Dense matrices keep every entry through resize, reserve, copy and move",
  "For the two dense matrix containers (row- and column-ordered), any sequence of construct, resize, reserve, assign, copy, move and element writes yields exactly the shape and entries of a reference matrix: surviving entries keep their values and newly exposed ones take the supplied value. Entries are stored at the position the reported strides imply, distinct entries never share storage, and reported sizes, strides and capacities are consistent. Every element object is destroyed exactly once and all memory is released.",
  [H, I], "all operation sequences up to a depth over shapes 0..3 × 0..3, trivial and non-trivial elements, aligned and unaligned",
  "tests exercise single resizes between fixed shapes; the in-place shuffling of rows/columns depends on old shape, new shape and capacity together",
  ["il/container/2d/Array2D.h", "il/container/2d/Array2C.h"],
  [("in-place resize", "Resize in Array2D.h / Array2C.h"), ("copy assignment", "operator= in Array2D.h / Array2C.h")])
p("P06", "Three- and four-dimensional arrays keep every entry through resizing",
  "For the three- and four-dimensional arrays in both storage orders, any sequence of construct, resize, reserve, copy and move operations yields exactly the shape and entries of a reference array: surviving entries keep their values, and entries at distinct positions never share storage. Every element object is destroyed exactly once and all memory is released.",
  [H, I], "all operation sequences up to a depth over shapes with extents 0..2 (3 for 3D), trivial and non-trivial elements",
  "only one of the four classes has tests; resize loops have a distinct branch per grown or shrunk dimension",
  ["il/container/3d/Array3D.h", "il/container/3d/Array3C.h", "il/container/4d/Array4D.h", "il/container/4d/Array4C.h"],
  [("resize loops", "Resize/Reserve in the four headers")])
p("P07", "Views read and write exactly the elements they denote",
  "A read-only or editable view over a whole array, matrix or three-dimensional array, over an index range, a sub-block, or a single row or column, exposes exactly the denoted elements at the denoted positions, and nested views compose. Writing through an editable view changes those elements of the underlying container and no other memory.",
  [I, H], "all containers × shapes up to 4×4 (with and without spare capacity or padding) × all sub-ranges × all nested sub-ranges up to depth 2",
  "no test enumerates sub-blocks; wrong strides only show on non-contiguous sub-blocks",
  ["il/container/1d/ArrayView.h", "il/container/2d/Array2DView.h", "il/container/2d/Array2CView.h", "il/container/3d/Array3DView.h", "il/container/1d/Array.h", "il/container/2d/Array2D.h", "il/container/2d/Array2C.h", "il/container/3d/Array3D.h"],
  [("stride arithmetic", "view()/Edit() and the view classes' operator()")])
p("P08", "Checked builds reject out-of-range and ill-formed requests, harmlessly",
  "In a checked build, every element access with an index outside the container's bounds and every request with negative sizes, capacities or ranges outside the container raises the library's abort error before touching memory outside the container. The container is unchanged by the rejected request, and every in-range access succeeds.",
  [I, H], "all containers and views × all small shapes × all indices in and around the valid range, including extreme values",
  "tests check single bad indices on fresh arrays; the bound to compare with depends on the dimension, the capacity and the history",
  ["il/core/core.h", "il/container/1d/Array.h", "il/container/1d/SmallArray.h", "il/container/1d/StaticArray.h", "il/container/1d/ArrayView.h", "il/container/2d/Array2D.h", "il/container/2d/Array2C.h", "il/container/3d/Array3D.h", "il/container/3d/Array3C.h", "il/container/4d/Array4D.h", "il/container/4d/Array4C.h"],
  [("precondition checks", "IL_EXPECT_MEDIUM / IL_EXPECT_FAST in each accessor")])
p("P09", "Hash map agrees with a reference map under any history",
  "After any sequence of set, insert, erase, clear, reserve, copy and move operations, for integer and string keys, a lookup finds a key exactly when it was set and not erased since, and returns its latest value; the reported number of elements equals the number of present keys. Iterating from the first spot visits every present pair exactly once. Keys and values are destroyed exactly once, memory is released, and copies are independent.",
  [H, I], "all operation sequences up to a depth over key sets chosen to collide in every bucket pattern, from several initial capacities",
  "tests insert a few distinct keys; tombstone and rehash errors need erase/insert/rehash histories on colliding keys",
  ["il/container/hash/Map.h", "il/container/hash/HashFunction.h"],
  [("open addressing with tombstones", "il/container/hash/Map.h: search, insert, erase, rehash"), ("sentinel keys", "il/container/hash/HashFunction.h")])
p("P10", "Ordered map keeps insertion order and agrees with a reference map",
  "After any sequence of set, reserve, copy and move operations, a lookup in the insertion-ordered map finds a key exactly when it was set and returns its latest value; the size equals the number of distinct keys; iteration by index visits the pairs in the order their keys were first set. Keys and values are destroyed exactly once and copies are independent.",
  [H, I], "all operation sequences up to a depth over colliding keys",
  "used only indirectly by tests through TOML files; duplicates and growth depend on history",
  ["il/container/hash/MapArray.h", "il/container/hash/Map.h", "il/container/1d/Array.h"],
  [("index map + pair array", "il/container/hash/MapArray.h")])
p("P11", "Strings hold exactly the bytes put in, across inline and heap storage",
  "After any sequence of construct, append, insert, reserve, clear, substring, concatenate, copy and move operations (including appending or assigning parts of the string to itself), a string holds exactly the bytes a reference string would hold, is followed by a zero byte, and reports the right size with capacity at least that. Memory is released exactly once, a moved-from string is usable, and copies are independent.",
  [H, I], "all operation sequences up to a depth with pieces sized around the inline-buffer limit",
  "tests check a handful of constructions; the small/large switch and tag bookkeeping depend on size, capacity and history",
  ["il/container/string/String.h"],
  [("small/large layout and tag byte", "il/container/string/String.h")])
p("P12", "Text encoding is preserved: valid UTF-8 in, valid UTF-8 out",
  "Appending a Unicode code point, once or repeated, appends exactly its UTF-8 encoding; the validity predicates for code points, UTF-8 and ASCII accept exactly what the Unicode standard accepts; and the encoding a string reports (ASCII, UTF-8, WTF-8 or raw bytes) is one its contents satisfy after any sequence of appends and insertions. Stepping through a string by rune visits exactly the code points that were appended.",
  [I, H], "all 1 114 112 code points plus surrogates and out-of-range integers; all byte strings up to length 4 over boundary bytes; all append/insert sequences of typed pieces up to a depth",
  "tests try a few code points; the boundaries of the encoding lengths and of the tag lattice are an input space",
  ["il/container/string/String.h"],
  [("encoder/decoder", "il/container/string/String.h: Append(rune), nextRune, rune accessors, isUtf8, isRune"), ("type lattice", "joinType")])
p("P13", "String search, comparison and slicing agree with the byte-level definition",
  "For all strings, equality and ordering comparisons, prefix and suffix tests, counting, searching, sub-views and sub-strings return what their definition on the sequence of bytes gives, for owned strings, views and literals alike. Rendering an integer as text gives its exact decimal form for every value.",
  [I], "all pairs of strings up to a length over a small alphabet (with lengths straddling the inline limit), all sub-ranges, boundary integers",
  "tests compare a few literals; prefix-versus-equality and offset errors show only for particular pairs",
  ["il/container/string/String.h", "il/container/string/algorithmString.h", "il/string_util.h"],
  [("comparison and search", "il/container/string/String.h, il/container/string/algorithmString.h")])
p("P14", "Conversions between UTF-8 and UTF-16 strings are lossless",
  "Converting any valid UTF-8 string to UTF-16 and back yields the same text, and each conversion yields exactly the standard encoding of the same code points. A UTF-16 string holds exactly the code units appended to it through any sequence of appends, reserves, copies and moves, across inline and heap storage, and releases its memory exactly once.",
  [I, H], "all code points; all sequences up to a depth of code points around encoding-length boundaries; all UTF-16 string operation sequences up to a depth",
  "no tests exist for these files",
  ["il/container/string/UTF16String.h", "il/container/string/unicode.h"],
  [("conversion", "il/container/string/unicode.h"), ("UTF-16 storage", "il/container/string/UTF16String.h")])
p("P15", "Dynamic values keep their type and value and are deep-copied",
  "A dynamic value reports exactly one type, the one it was built with, and returns exactly the value it was given, for every supported type and bit pattern. Copying is deep (later changes to either side are invisible to the other), moving transfers the value, assignment replaces it, and everything owned is released exactly once, for all nestings and assignment histories including self- and child-assignment.",
  [H, I], "all sequences of construct/copy/move/assign over every payload type, nested to depth 2-3",
  "tests construct each type once; assignments between differing payload types are quadratic in types",
  ["il/container/dynamic/Dynamic.h", "il/container/dynamic/Type.h"],
  [("NaN-boxed representation", "il/container/dynamic/Dynamic.h"), ("CopyData/ReleaseMemory", "il/container/dynamic/Dynamic.h")])
p("P16", "Error reports carry the recorded facts, and unexamined failures are caught",
  "An error report returns, for each key recorded in it, exactly the last value and kind recorded, and reports absent keys as absent, through any sequence of set, copy and move operations across inline and heap storage; the error and its domain are the ones set, and no two errors are the same. In checked builds a status that was set to a failure or success cannot be dropped or overwritten without having been examined, and an examined one never aborts; ownership of the duty to examine passes on move. Memory is released exactly once.",
  [H], "all operation sequences up to a depth over keys that are prefixes of each other and values of every kind",
  "tests check one status each; the examined/unexamined flag is a protocol over histories",
  ["il/container/info/Info.h", "il/container/info/Status.h"],
  [("packed record list", "il/container/info/Info.h"), ("to-check flag", "il/container/info/Status.h")])
p("P17", "Overflow-checked integer arithmetic is exact",
  "Checked addition, subtraction, multiplication, division and conversion of integers return the mathematically exact result without an error exactly when it is representable in the type, and report an error otherwise; products of several factors never return a wrong value without an error, and report no error when every partial product is representable. A container asked for more elements than memory can address stops the program instead of allocating less.",
  [I], "all pairs drawn from every boundary neighbourhood of the types (and all 8-bit style small values), all triples/quadruples of boundary factors",
  "tests check a handful of pairs; sign/limit case splits need every sign and boundary combination",
  ["il/core/math/safe_arithmetic.h"], [("overflow tests", "il/core/math/safe_arithmetic.h")])
p("P18", "Sorting, searching and extremum helpers satisfy their definitions",
  "Sorting returns an ascending permutation of the input; binary search in an ascending array returns a position of the value exactly when it is present and a negative index otherwise; minimum, maximum and maximum magnitude (and the index of their first occurrence), mean and variance over an array or a range, and the extrema of a matrix column, equal their mathematical definition. Sorting a copy leaves its argument unchanged. Integer powers, roundings to powers of two and logarithms are exact.",
  [I], "all arrays up to a length over a small value alphabet (including non-integers and negatives), all sub-ranges",
  "few or no tests; order-dependent slips need duplicates, absent values and each position",
  ["il/algorithm/algorithmArray.h", "il/algorithm/algorithmArray2D.h"],
  [("algorithms", "il/algorithm/algorithmArray.h")])
p("P19", "Reading any bytes as configuration text ends cleanly with a status",
  "For any file content whatsoever, reading a configuration (TOML) file terminates and returns with a status that is either success or an error, never crashing, never touching memory it does not own, never leaking memory or file handles. The file itself is not modified.",
  [I], "all byte strings up to a length over the grammar's significant bytes; all single-byte deletions, substitutions and truncations of a corpus of valid documents",
  "tests feed ~40 valid documents; malformed input is an unbounded space around them",
  ["il/io/toml/toml.cpp", "il/io/toml/toml.h"],
  [("parser", "il/io/toml/toml.cpp: TomlParser")])
p("P20", "Well-formed configuration documents are read to the values they denote",
  "Every document formed from the supported subset of the TOML grammar (comments, bare and quoted keys, integers, floats, booleans, basic and literal strings with escapes, arrays, inline tables, tables, nested tables, arrays of tables) is read without error to exactly the values it denotes. Documents that redefine a key or table, or that violate the grammar of a value, are reported as an error with the line at which it occurs.",
  [I], "all documents generated by a bounded grammar: every sequence of up to N lines from a line alphabet, every value form, every whitespace/comment placement",
  "tests check ~40 fixed documents; interactions of table headers, nesting and values are combinatorial",
  ["il/io/toml/toml.cpp", "il/io/toml/toml.h"],
  [("grammar", "il/io/toml/toml.cpp: parse*")])
p("P21", "Saving a configuration and reading it back gives the same configuration",
  "Any configuration built from supported values (booleans, integers, finite floats, strings, arrays, nested tables) that is saved as TOML without error can be read back without error, and yields the same keys with equal values and types.",
  [I, C], "all configurations up to a size over boundary values of each type and nesting up to depth 3",
  "no test saves a TOML file",
  ["il/io/toml/toml.h", "il/io/toml/toml.cpp"],
  [("writer", "il/io/toml/toml.h: SaveHelper, save_aux")])
p("P22", "Numeric array files round-trip exactly and match the NumPy format",
  "Saving a vector or a column-ordered matrix as a NumPy file and loading it back gives the same shape and bit-identical entries, whatever the array's capacity or padding. The file written is exactly a well-formed version-1 NumPy file describing those contents.",
  [I], "all shapes 0..4 × 0..4, element types, capacities/paddings and boundary bit patterns",
  "one fixed round-trip test; header padding and strides depend on shape digits and capacity",
  ["il/io/numpy/numpy.h", "il/io/numpy/numpy.cpp"],
  [("writer/reader", "il/io/numpy/numpy.h, il/io/numpy/numpy.cpp")])
p("P23", "Damaged numeric array files are reported, never trusted",
  "Loading a file that is not a complete well-formed NumPy file of the requested type, rank and order returns with an error status, never crashing, over-reading memory, leaking memory or file handles. A loader asked for an array type that does not match the file's contents reports an error rather than reinterpreting the data.",
  [I, F], "every truncation length, every single-byte corruption of the header region over significant bytes, all mismatched type/rank/order requests",
  "tests load only good files",
  ["il/io/numpy/numpy.h", "il/io/numpy/numpy.cpp"],
  [("header parsing", "il/io/numpy/numpy.cpp"), ("loaders", "il/io/numpy/numpy.h")])
p("P24", "A save or load that failed is never reported as a success",
  "When opening, reading, writing or closing the file fails at any point (missing directory, no permission, no free handle, full device at any byte), saving and loading of configuration, numeric array and raw files return an error status and leak no file handle or memory. When the status is success, the file holds the complete contents.",
  [F], "every failing byte offset of the written file and every failing open, for each writer and reader",
  "tests never inject faults",
  ["il/io/toml/toml.h", "il/io/toml/toml.cpp", "il/io/numpy/numpy.h", "il/io/numpy/numpy.cpp", "il/io/File.h", "il/io/io_base.h"],
  [("error paths", "fopen/fwrite/fclose result handling in the listed files")])
p("P25", "Buffered file reading returns the file's bytes, in order, once",
  "Any sequence of reads and skips of any sizes on a file returns exactly the file's bytes at the current position and advances by exactly that amount, across internal buffer boundaries; asking for bytes past the end reports an error and never returns stale or uninitialised data as if read. What was written to a file opened for writing is its contents once it is closed. In checked builds, reading a file opened for writing, writing a file opened for reading and using a closed file are refused, without any effect.",
  [H, I], "all sequences up to a depth of read/skip sizes around the buffer size on files with sizes around multiples of the buffer",
  "no tests exist; buffer-boundary arithmetic needs particular size sequences",
  ["il/io/File.h"], [("buffer", "il/io/File.h: FileReader Read/Skip")])
p("P26", "Binary pack files round-trip every configuration and reject truncation",
  "Saving a configuration in the binary pack format and loading it back gives the same keys, in order (for an ordered map), with equal values and types, for every supported value and nesting, whether or not a nested map of vectors is saved as an array of structures. What the format cannot represent and failures to write are reported as errors. Loading a truncated or damaged file terminates, with an error status if it is cut short, and never crashes or reads memory it does not own.",
  [I, F], "all configurations up to a size over every value type; every truncation length, damaged byte, short file and write fault",
  "no tests exist for this format",
  ["il/io/filepack/filepack.h"], [("encoder/decoder", "il/io/filepack/filepack.h")])
p("P27", "Dense linear-algebra kernels compute the algebraic definition",
  "For all shapes, storage orders, views with padding, transposition and accumulation variants, dense vector and matrix products, scaled updates, dot and cross products give the result of the algebraic definition (exactly, on integer data), write only the output, and reject mismatched sizes in checked builds.",
  [I, C], "all shape triples 1..3 × storage orders × padding × transposes × coefficient choices, with basis and distinct-integer data",
  "tests use one square or fixed shape per overload; transposition and leading-dimension errors vanish on square or unpadded data",
  ["il/linearAlgebra/dense/blas/blas.h", "il/linearAlgebra/dense/blas/blas_static.h", "il/linearAlgebra/dense/blas/dot.h", "il/linearAlgebra/dense/blas/cross.h"],
  [("BLAS calls and loops", "il/linearAlgebra/dense/blas/blas.h, blas_static.h, dot.h")])
p("P28", "Linear solvers and factorisations solve the system they were given",
  "For every invertible system, the direct solvers (general, row- and column-ordered, banded, tridiagonal, factor-once solve-many, Cholesky, and the in-place decompositions with their triangular and permutation solves) return the solution; the factors reproduce the matrix, the determinant has the right sign and value, the inverse is right, the condition estimate has the right magnitude and never exceeds the condition number, and the singular values and eigenvalues are those of the matrix. Matrices and right-hand sides given by value and the operands that are only read are not modified, padding is ignored and preserved, and mismatched sizes are rejected in checked builds. The solvers and factorisations that take a status report an error for a singular system, without stopping the program.",
  [I, C], "all matrices up to 3×3 over a small integer alphabet (with row/column permutations up to 4×4), right-hand sides from a basis, padded storage",
  "tests solve one system per overload; pivoting sign, bandwidth and leading-dimension errors need other patterns",
  ["il/linearAlgebra/dense/factorization/LU.h", "il/linearAlgebra/dense/factorization/linearSolve.h", "il/linearAlgebra/dense/factorization/Singular.h", "il/linearAlgebra/dense/factorization/Eigen.h", "il/linearAlgebra/dense/factorization/Cholesky.h", "il/linearAlgebra/dense/factorization/luDecomposition.h", "il/linearAlgebra/dense/factorization/qrDecomposition.h", "il/linearAlgebra/dense/blas/solve.h"],
  [("LAPACK calls", "the listed headers")])
p("P29", "Norms of vectors and matrices equal their definitions",
  "The L1, L2 and infinity norms that exist for a vector (static or dynamic), a matrix (with any padding) or a tridiagonal matrix equal their mathematical definition for every operand whose squared values are representable, scaled or not, and reading them does not modify the operand.",
  [I], "all vectors up to length 5 and all matrices up to 3×3 over a small signed alphabet × containers × norm kinds; all operands with one or two entries of larger shapes",
  "tests check one vector and one matrix",
  ["il/linearAlgebra/dense/norm.h"], [("norm", "il/linearAlgebra/dense/norm.h")])
p("P30", "Sparse matrices assemble and multiply as the dense matrix they denote",
  "A compressed sparse matrix assembled from any list of positions (unordered, repeated) has each position exactly once, rows sorted, and the returned index of every listed position denotes that entry. Element access, sparse matrix-vector products, the infinity norm under row and column weights and sparse solves with it agree with the dense matrix it denotes, after any copy or move and whatever time the machine takes. Checked builds refuse operands whose sizes do not fit and solves before their factorization.",
  [I, H], "all position lists up to a length on shapes up to 3×3, every vector of a basis, coefficient choices, every pair of delays of the clock the solver consults",
  "tests only run the solvers on one heat-equation pattern",
  ["il/container/2d/SparseMatrixCSR.h", "il/linearAlgebra/sparse/blas/SparseMatrixBlas.h", "il/linearAlgebra/sparse/blas/sparseBlas.h", "il/linearAlgebra/sparse/blas/sparseDot.h", "il/linearAlgebra/sparse/factorization/Pardiso.h", "il/linearAlgebra/sparse/factorization/GmresIlu0.h"],
  [("assembly", "il/container/2d/SparseMatrixCSR.h"), ("products", "il/linearAlgebra/sparse/blas")])
p("P31", "Iterative solvers converge to the solution they report",
  "When the conjugate-gradient or GMRES solver returns success on a system it is given as a matrix-free operator, the returned vector satisfies the requested relative residual, otherwise it returns an error after at most the number of iterations it was allowed. On small well-conditioned systems (symmetric positive definite for conjugate gradient) with enough iterations it does return success, from every starting point including the exact solution and with a zero right-hand side, preconditioned or not. Advancing one iteration at a time, the reported residual norm is the one of the current solution and does not grow for GMRES; with the exact inverse as preconditioner one iteration is enough, and checked builds refuse operators and vectors whose sizes do not fit.",
  [I, C], "all small integer SPD/invertible systems in an enumerated family × right-hand sides × starting points × preconditioned or not × restart lengths",
  "one test system; breakdown cases (zero residual, restart boundary) are specific inputs",
  ["il/linearAlgebra/matrixFree/solver/Cg.h", "il/linearAlgebra/matrixFree/solver/Gmres.h", "il/linearAlgebra/Matrix.h"],
  [("iterations", "Cg.h, Gmres.h")])
p("P32", "Packed matrix storages address each stored entry exactly once",
  "The triangular, banded, tridiagonal and sparse storages give every stored position its own storage, keep its value until it is overwritten, and preserve all values through copy, move, assignment and resize. Every element is destroyed exactly once and memory is released.",
  [H, I], "all shapes up to 4 (bandwidths up to 3) × all positions × all copy/assign/resize sequences up to a depth",
  "no tests exist for these classes; packed-index formulas alias only at particular positions",
  ["il/container/2d/LowerArray2D.h", "il/container/2d/UpperArray2D.h", "il/container/2d/BandArray2C.h", "il/container/2d/TriDiagonal.h"],
  [("packed index", "operator() in the listed headers")])
p("P33", "Fixed-size arrays are value types with a one-to-one layout",
  "Fixed-size arrays of one to four dimensions give each position its own element, initialise from values, lists and fill values exactly, and copies are independent; their bytes are laid out in the documented order.",
  [I, H], "all instantiated shapes with extents 1..3 × all positions × construction forms",
  "partly tested through BLAS only",
  ["il/container/1d/StaticArray.h", "il/container/2d/StaticArray2D.h", "il/container/2d/StaticArray2C.h", "il/container/3d/StaticArray3D.h", "il/container/4d/StaticArray4D.h"],
  [("layout", "operator() in the listed headers")])
p("P34", "Trees keep every added node reachable with its value and parentage",
  "After any sequence of root, add-child and value-change operations on a tree, each node keeps its value, parent, depth and children as in a reference tree, and nodes never added are reported absent.",
  [H], "all operation sequences up to a depth on binary and quaternary trees",
  "one test with three nodes",
  ["il/container/tree/Tree.h"], [("flags and spots", "il/container/tree/Tree.h")])

p("P35", "Hash set agrees with a reference set under any history",
  "After any sequence of add, search, copy, move, assignment, reserve and clear operations, a hash set contains exactly the elements added since its creation or last clear, each once, whatever the collisions of their hashes. A search finds an element if and only if it is present, and an iteration visits each of them exactly once and ends. Every element object is destroyed exactly once, all memory is released, and copies are independent of their source.",
  [H], "all operation sequences up to a depth over key types and hash functions which collide entirely, partly or not",
  "no test exists; probing, growth and reuse errors depend on the collisions and on the history of the table",
  ["il/container/hash/Set.h"], [("probing and growth", "il/container/hash/Set.h: search, Add, Reserve, grow, operator=")])
p("P36", "Debug builds mark every unset element of a trivial type",
  "In a debug build, every element of a trivial type which a container exposes by construction or by a resize without a value, and which nobody has set since, reads as the marker value of its type (a quiet NaN for floating point numbers), never as stale data. Elements which were set and survive a resize keep their value.",
  [H, I], "all operation sequences up to a depth over the one- to four-dimensional, small, static and triangular arrays, checked builds",
  "tests check the marker on freshly constructed arrays only; stale values need a shrink followed by a growth within the capacity",
  ["il/core/core.h", "il/container/1d/Array.h", "il/container/1d/SmallArray.h", "il/container/1d/StaticArray.h", "il/container/2d/Array2D.h", "il/container/2d/Array2C.h", "il/container/2d/LowerArray2D.h", "il/container/2d/UpperArray2D.h", "il/container/3d/Array3D.h", "il/container/3d/Array3C.h", "il/container/4d/Array4D.h", "il/container/4d/Array4C.h"],
  [("default-value fill", "IL_DEFAULT_VALUE blocks of the constructors and Resize"), ("marker values", "il/core/core.h: defaultValue")])
p("P37", "Scalar and integer helpers equal their definitions",
  "The scalar helpers (minimum and maximum, absolute value, integer powers, floor of a quotient of non-negative integers, previous and next powers of two, ceiling of the base-two logarithm, real, imaginary and conjugate parts, time units) return, for every argument whose result is representable, the value of their mathematical definition.",
  [I], "every 32-bit argument for the bit helpers (quick tier: the whole blocks at the ends of the range and, in each of the 4096 blocks, its ends and every number whose lower 20 bits are at most three powers of two, ±1), neighbourhoods of all sums of two powers of two for 64 bits, dense blocks and boundaries for the rest",
  "tests check a few values; bit tricks fail at particular boundaries",
  ["il/math.h", "il/core/core.h", "il/unit/time.h"],
  [("bit helpers", "il/math.h: previous_power_of_2, next_power_of_2, next_log2"), ("powers", "il/math.h: ipow")])
p("P38", "PPM images are read exactly, and damaged ones are reported",
  "Every binary PPM image with a depth of 255 whose magic number is alone on its first line, possibly followed by comment lines, is read to exactly its width, height and pixels. For any other content of the file, and for any failure to open or read it, reading ends with an error status or with exactly the image the format defines, never crashing, never reading memory it does not own and never leaving the file open or modified.",
  [F, I], "all images up to a size over layouts of the header, all byte and token sequences up to a length, all edits of a corpus, a fault and a truncation at every byte",
  "no test exists; hangs, misplaced pixels and wrapped sizes need particular damaged headers",
  ["il/io/ppm/ppm.h"], [("reader", "il/io/ppm/ppm.h: readPpm")])

p("P39", "File names choose the format, and unsupported requests are reported",
  "Saving to and loading from a file uses the format its name ends with, and no other file is touched. A type the format does not support, or a name with no known ending, gives an error status and creates or changes no file. What was saved under a name is loaded back equal under that name when the format supports both directions for the type.",
  [F, I], "all names up to a length over the letters of the known endings, for every supported and some unsupported types, with the contents of every format under the name",
  "tests save and load under well-formed names only",
  ["il/io/io_base.h", "il/io/numpy/numpy.h", "il/io/toml/toml.h", "il/io/filepack/filepack.h"],
  [("choice of the format", "il/io/*: save and load, endsWith on the file name")])

p("P40", "Timers and benchmarks report exactly the time they were running",
  "After any sequence of starts, stops, resets and copies, a timer reports the sum of the times elapsed between each start and its stop since the last reset, whatever adjustments are made to the wall clock, and in checked builds refuses a start, stop or sleep out of turn. Sleeping until a time returns at that time after the start, immediately if it has passed, even when signals interrupt the sleep. A benchmark runs its program exactly the number of iterations it asks for and returns the time per iteration of its last run (to a nanosecond), which lasts at least half of its goal, without the paused parts.",
  [H, I], "all operation sequences up to a depth under a virtual clock, programs over a grid of costs, set-up times, pauses and goals",
  "tests cannot control the clock; wrong averages show only for particular ratios between the cost and the goal",
  ["il/benchmark/tools/timer/Timer.h", "il/benchmark/tools/timer/Benchmark.h"],
  [("clock", "il/benchmark/tools/timer/Timer.h"), ("estimate of the number of iterations", "il/benchmark/tools/timer/Benchmark.h")])

p("P41", "Formatted text is what the format language defines, malformed ones refused",
  "Formatting copies literal text, reduces doubled braces, and replaces each field by its argument (in automatic, numbered or named order) written with the requested fill, alignment, sign, prefix, width, precision and type, for integers, characters, booleans, floating point numbers, strings, pointers and streamable types, whatever the length of the text. A malformed format, an unknown argument, or a specification which the type does not support raises a format error and never anything else. Printing writes exactly the formatted bytes to the standard output.",
  [I], "all specifications built from the grammar over a table of values, all format strings up to a length over the letters of the grammar, all sequences of fields, all positions around the limits of the buffer",
  "no test exists; errors depend on the combination of flags, and on the place in the text where the buffer fills up",
  ["il/print.h", "il/io/format/formatIL.h", "il/io/format/format.h", "il/io/format/print.cc", "il/io/format/ostream.h"],
  [("writers", "il/io/format/format.h: write_int, write_double, write_str"), ("parser", "il/io/format/format.h: BasicFormatter::format")])

p("P42", "Sobol points fill every box evenly, whatever their number and dimension",
  "The points of the Sobol sequence returned for a number of points, a dimension and a box are the first points of the sequence in that box: every coordinate lies in its interval, and with the origin of the sequence, which is left out, every aligned block of 2^k points has exactly one point in each of the 2^k equal intervals of every coordinate. A request with more points or dimensions begins with the points or coordinates of the shorter one. The result is a function of its arguments alone, and a request which the generator can not satisfy is refused in checked builds.",
  [I], "all numbers of points up to a bound × all dimensions × boxes, every block and interval, every pair of requests",
  "no test exists; a wrong stride, skip or scale still returns plausible points",
  ["il/random/sobol.h"],
  [("points", "il/random/sobol.h: sobol")])

p("P43", "PNG images survive a round trip, damaged files and failed writes are errors",
  "An image of one to four colors saved as PNG is a valid file with exactly its pixels, and loading a valid file whose samples have 8 bits, or with a palette (expanded to its colors), whatever its filters, interlacing, compression and division into chunks, returns exactly its pixels. Loading a file of another depth, one that misses any of its pixels, or a missing one is reported as an error, and a damaged file never returns pixels other than those of the original image. Saving reports every failure to open, write or close the file; no path leaks memory or a file handle, and loading never changes the file.",
  [I, F], "all small images, all kinds of files × shapes × filters × layouts from an independent encoder, every truncation, byte corruption and header field, every position of a read or write failure",
  "no test exists; errors unwind through longjmp, past whatever was allocated",
  ["il/io/png/png.cpp", "il/io/png/png.h", "il/png.h"],
  [("load and save", "il/io/png/png.cpp: loadPng, savePng")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
