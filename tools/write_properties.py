#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=observe, hook_needed=hook)))


TESTS = "The stable tests of this build only cover floating point exceptions and integer conversion; "

p("C01", "Concurrent atomic append to inner arrays is exactly-once",
  "When several threads append values atomically to the inner arrays of a ragged array, possibly all to the same inner array, every value appears exactly once in the inner array it was appended to and each inner array grows by exactly the number of appends to it. "
  "The values that were there before, their order and the capacities are unchanged, and no two threads touch the same memory without synchronisation. "
  "This holds for every atomic policy, element type and number of threads as long as the total fits the capacity.",
  ["schedules", "inputs"], "every interleaving of any number of threads, every distribution of appends over inner arrays that fits their capacities",
  TESTS + "the unit test of the atomic append runs whatever interleaving the machine happens to produce and a lost update needs one switch between a read and a write.",
  ["src/ArrayOfArraysView.hpp", "src/arrayManipulation.hpp"],
  [("atomic increment reserves a slot before the value is constructed in it", "src/ArrayOfArraysView.hpp emplaceBackAtomic"), ("construction at the end of the values", "src/arrayManipulation.hpp emplaceBack")],
  ["sizeOfArray, element access after the threads joined"], [("sizes", "number of values of each inner array", "src/ArrayOfArraysView.hpp m_sizes")])

p("C02", "Threads modifying different inner arrays, sets or rows do not interfere",
  "Threads that concurrently modify different inner arrays, sets, rows or outer-dimension slices of the same container through its views never access memory that belongs to another one's part, never lose or duplicate a value and end with exactly the content each thread's own sequence of operations produces. "
  "This holds also when the parts are adjacent, empty or filled exactly to capacity. Threads that only use distinct containers never share any hidden state.",
  ["schedules", "inputs", "histories"], "every interleaving of per-thread operation sequences on disjoint parts, every layout of the parts in memory",
  TESTS + "an out-of-part write only shows when another thread uses the neighbouring memory at that moment.",
  ["src/ArrayOfArraysView.hpp", "src/ArrayOfSetsView.hpp", "src/SparsityPatternView.hpp", "src/CRSMatrixView.hpp", "src/sortedArrayManipulation.hpp", "src/arrayManipulation.hpp"],
  [("every view operation only touches [offset, offset + capacity) of its part and its own size", "src/ArrayOfArraysView.hpp, src/ArrayOfSetsView.hpp insertIntoSetImpl, src/CRSMatrixView.hpp"),
   ("in place insert and erase", "src/arrayManipulation.hpp shiftUp, shiftDown"), ("in place insertion into sorted values", "src/sortedArrayManipulation.hpp insert, remove")],
  ["contents of all parts after the threads joined"], [("offsets", "where each part starts", "src/ArrayOfArraysView.hpp m_offsets")])

p("C03", "Concurrent additive assembly into a sparse matrix sums exactly",
  "When several threads add contributions atomically to entries of a compressed row matrix, including many threads to the same entry, every entry ends as its initial value plus the sum of all contributions to it and no other entry changes. "
  "This holds for each of the search strategies (sorted input, unsorted input, linear and binary search) and for any row length. The sparsity pattern is never changed by adding.",
  ["schedules", "inputs"], "every interleaving of assembling threads, every pattern and set of columns per contribution",
  TESTS + "the unit test adds from real threads and only samples the interleavings that occur.",
  ["src/CRSMatrixView.hpp", "src/sortedArrayManipulation.hpp"],
  [("atomic add on the entry found", "src/CRSMatrixView.hpp addToRow, addToRowLinearSearch, addToRowBinarySearch, addToRowBinarySearchUnsorted"), ("find in the sorted columns", "src/sortedArrayManipulation.hpp find")],
  ["getEntries, getColumns after the threads joined"])

p("C04", "Data-parallel bulk operations do not depend on the schedule",
  "Operations that take an execution policy (building a ragged container from capacities, filling with or copying values, zeroing, turning a ragged array into a set or matrix) give the same result for the sequential policy and for every thread team size and interleaving, without any data race. "
  "After building from capacities each part is empty and has at least the requested capacity, and appending the requested number of values never needs more room.",
  ["schedules", "inputs", "configurations"], "every team size and interleaving of the parallel loops, every vector of capacities including zeros and empty vectors, every previous content",
  TESTS + "the parallel loops are only run with the real scheduler on a few shapes.",
  ["src/ArrayOfArraysView.hpp", "src/ArrayView.hpp", "src/SparsityPattern.hpp", "src/CRSMatrix.hpp", "src/ArrayOfSets.hpp", "src/CRSMatrixView.hpp"],
  [("parallel inclusive scan of the capacities into the offsets", "src/ArrayOfArraysView.hpp resizeFromCapacities"), ("parallel fill and copy", "src/ArrayView.hpp setValues"), ("parallel matrix fill", "src/CRSMatrixView.hpp setValues")],
  ["sizes, capacities and values after the operation"])

p("C05", "A one dimensional array behaves like a vector for every history",
  "For every sequence of resizing, reserving, appending, inserting, removing, clearing, copying, moving and assigning, a one dimensional array has the same length and values as the standard vector given the same sequence, its capacity is at least its length and never less than what was reserved, and growing keeps existing values at their positions. "
  "This holds for every element type, for heap and for fixed in-object storage, when an argument refers to an element of the same array, and whatever the memory allocator does with placement, reuse and content of the memory it hands out.",
  ["histories", "inputs", "fault_sequences"], "every operation history, allocator placement and content of fresh memory, one or several independent callers",
  TESTS + "the container tests use a few fixed sequences and the one allocator behaviour of the machine.",
  ["src/Array.hpp", "src/ArrayView.hpp", "src/bufferManipulation.hpp", "src/arrayManipulation.hpp", "src/MallocBuffer.hpp", "src/StackBuffer.hpp"],
  [("resize, reserve, dynamic growth", "src/bufferManipulation.hpp setCapacity, reserve, dynamicReserve, resize"), ("shifting values", "src/arrayManipulation.hpp shiftUp, shiftDown, emplace, insert, erase"), ("deep copy", "src/bufferManipulation.hpp copyInto, src/Array.hpp operator=")],
  ["size, capacity, data, element access"])

p("C06", "Multidimensional arrays keep their values and agree across layouts",
  "For every memory layout and number of dimensions, each multi-index within the dimensions addresses its own distinct value inside the allocation, the reported sizes, strides and slices agree with it, and values written through one access path are read through every other. "
  "Changing the length of the dimension that single-index resizing acts on keeps every value whose index still exists and gives new ones the default or the requested value. Assigning or copying between arrays reproduces dimensions and all values, and filling, zeroing and copying from another layout reach every element exactly once.",
  ["histories", "inputs", "schedules"], "every layout, dimension vector (including zeros), resize history and allocator behaviour",
  TESTS + "the unit tests enumerate fixed shapes and resize each dimension a couple of times.",
  ["src/Array.hpp", "src/ArrayView.hpp", "src/ArraySlice.hpp", "src/indexing.hpp", "src/sliceHelpers.hpp"],
  [("shuffling values when one dimension changes", "src/Array.hpp resizeDefaultDimension"), ("strides from the permutation", "src/indexing.hpp calculateStrides"), ("slicing", "src/ArraySlice.hpp operator[]"), ("visiting all values", "src/sliceHelpers.hpp forValuesInSlice")],
  ["operator(), operator[], size, toSlice"], [("dims, strides", "shape of the array", "src/ArrayView.hpp m_dims m_strides")])

p("C07", "A sorted array behaves like an ordered set for every history",
  "For every sequence of single and ranged insertions, removals, reservations, copies, moves and assignments a sorted array holds exactly the values the standard ordered set holds, strictly increasing, and membership queries and the returned counts of newly inserted or removed values agree with it. "
  "Ranged insertion takes any sorted range of unique values, wherever they fall relative to the stored ones. This holds whatever the allocator does and independent of other callers.",
  ["histories", "inputs", "fault_sequences"], "every operation history over any values, element type and allocator behaviour",
  TESTS + "the unit test samples random sequences on one allocator without checking element lifetimes or memory bounds.",
  ["src/SortedArray.hpp", "src/SortedArrayView.hpp", "src/sortedArrayManipulation.hpp"],
  [("sorted in place insertion and removal, single and ranged", "src/sortedArrayManipulation.hpp insert, remove"), ("growing callback", "src/SortedArray.hpp CallBacks"), ("binary search", "src/sortedArrayManipulation.hpp find")],
  ["size, values, contains, return values"])

p("C08", "A ragged array behaves like a vector of vectors for every history",
  "For every sequence of appending, inserting, erasing, resizing, reserving, compressing, copying, moving and assigning on the outer and the inner level, a ragged array has the same content as the standard vector of vectors given the same sequence. "
  "Each inner array has room for at least its values and for every capacity that was asked for, inner arrays never overlap, compressing leaves no unused room and changes no value, and the flat storage is big enough for all of them. This holds whatever the allocator does.",
  ["histories", "inputs", "fault_sequences"], "every operation history over any inner lengths and capacities, element type and allocator behaviour",
  TESTS + "offsets go wrong only after particular combinations of capacity changes, erasures and growth.",
  ["src/ArrayOfArrays.hpp", "src/ArrayOfArraysView.hpp", "src/bufferManipulation.hpp", "src/arrayManipulation.hpp"],
  [("changing one capacity shifts everything behind it", "src/ArrayOfArraysView.hpp setCapacityOfArray"), ("compress", "src/ArrayOfArraysView.hpp compress"), ("resizing the outer level", "src/ArrayOfArraysView.hpp resizeImpl"), ("outer insertion and erasure", "src/ArrayOfArrays.hpp insertArray, eraseArray, appendArray"), ("deep copy", "src/ArrayOfArraysView.hpp setEqualTo")],
  ["size, sizeOfArray, capacityOfArray, valueCapacity, element access"], [("offsets", "start of each inner array", "src/ArrayOfArraysView.hpp m_offsets"), ("sizes", "length of each inner array", "src/ArrayOfArraysView.hpp m_sizes")])

p("C09", "An array of sets behaves like a vector of ordered sets for every history",
  "For every sequence of inserting into, removing from, appending, erasing, clearing, reserving and compressing sets, copying, moving and taking over the content of a ragged array, an array of sets holds in each set exactly the values of the standard ordered set given the same sequence, strictly increasing, with correct membership answers and counts. "
  "Taking over ragged content described as sorted or unsorted, unique or not, yields the set of the distinct values of each inner array. This holds whatever the allocator does.",
  ["histories", "inputs", "fault_sequences"], "every operation history over any values, element type and allocator behaviour",
  TESTS + "the combination of growth of one set with shifts of its neighbours is only sampled.",
  ["src/ArrayOfSets.hpp", "src/ArrayOfSetsView.hpp", "src/ArrayOfArraysView.hpp", "src/sortedArrayManipulation.hpp"],
  [("insertion with growth", "src/ArrayOfSets.hpp CallBacks, src/ArrayOfSetsView.hpp insertIntoSetImpl"), ("taking over a ragged array", "src/ArrayOfSets.hpp assimilate"), ("erasing and inserting sets", "src/ArrayOfSets.hpp insertSet, eraseSet")],
  ["sizeOfSet, contains, iteration, consistencyCheck"])

p("C10", "Sparse patterns and matrices behave like a map from position to value",
  "For every sequence of inserting, removing, overwriting, adding, compressing, reserving, resizing, copying, moving and taking over a pattern, a compressed row matrix holds exactly the entries and values of a map from (row, column) to value given the same sequence, with columns strictly increasing in each row and each value kept with its column. "
  "The pattern class behaves like the key set of that map, and counts of inserted and removed entries are exact. This holds whatever the allocator does.",
  ["histories", "inputs", "fault_sequences"], "every operation history over any rows, columns and values, with every allocator behaviour",
  TESTS + "columns and values live in two buffers that must stay in step through every growth, shift and compression.",
  ["src/SparsityPattern.hpp", "src/SparsityPatternView.hpp", "src/CRSMatrix.hpp", "src/CRSMatrixView.hpp", "src/ArrayOfSetsView.hpp"],
  [("entries follow the columns", "src/CRSMatrixView.hpp CallBacks, src/CRSMatrix.hpp CallBacks"), ("taking over a pattern", "src/CRSMatrix.hpp assimilate"), ("row insertion and removal", "src/CRSMatrixView.hpp insertNonZero(s), removeNonZero(s)"), ("row growth", "src/CRSMatrix.hpp setRowCapacity, dynamicallyGrowRow")],
  ["getColumns, getEntries, numNonZeros, empty"])

p("C11", "Every element is constructed and destroyed exactly once and nothing leaks",
  "For every history of operations on the owning containers, each element is constructed once before it is used, is never used after it was destroyed or moved away without being reconstructed, and is destroyed exactly once; no object is created over a living one. "
  "When the containers are gone all elements are destroyed and all memory obtained has been returned, also for elements that themselves own memory and for nested containers.",
  ["histories", "inputs"], "every operation history of every container with elements that own resources",
  TESTS + "existing tests compare values only, a leaked or doubly created element is invisible to them.",
  ["src/arrayManipulation.hpp", "src/bufferManipulation.hpp", "src/sortedArrayManipulation.hpp", "src/ArrayOfArraysView.hpp", "src/Array.hpp", "src/SortedArray.hpp", "src/CRSMatrixView.hpp"],
  [("placement construction and destruction around every shift", "src/arrayManipulation.hpp"), ("uninitialized moves on reallocation", "src/bufferManipulation.hpp setCapacity, src/MallocBuffer.hpp reallocate"), ("destruction on free", "src/bufferManipulation.hpp free")],
  ["life time events of the elements, allocator balance"])

p("C12", "Views alias their owner, copies are deep, moves transfer ownership",
  "A view taken from a container reads and writes the container's own values until the container is reallocated, however often the view is copied, converted to a more constant view or captured by a kernel; a copied container shares nothing with its source. "
  "A moved-from container is empty and can be destroyed, assigned to, copied from or resized, its values are unchanged in their new owner, and assigning to a container releases what it held. Containers with in-object storage give the same content semantics although they copy on move.",
  ["histories", "inputs"], "every chain of copy, move, assignment, view creation and conversion, view capture and modification between them",
  TESTS + "aliasing errors show only in particular chains of copies and modifications.",
  ["src/Array.hpp", "src/ArrayView.hpp", "src/SortedArray.hpp", "src/ArrayOfArrays.hpp", "src/ArrayOfArraysView.hpp", "src/ArrayOfSets.hpp", "src/SparsityPattern.hpp", "src/CRSMatrix.hpp", "src/MallocBuffer.hpp", "src/StackBuffer.hpp"],
  [("copy and move constructors and assignments", "src/Array.hpp, src/ArrayOfArrays.hpp operator=, src/SortedArray.hpp operator=, src/CRSMatrix.hpp operator="), ("views share the buffer", "src/MallocBuffer.hpp, src/ChaiBuffer.hpp copy constructors")],
  ["values seen through owner and views, heap balance"])

p("C13", "Values stay coherent across memory spaces",
  "Whatever sequence of kernels on the host and on the device, explicit moves, touches and host modifications runs, a kernel or host code that uses a captured or moved view sees exactly the values written last, in whichever memory space that happened; capturing a constant view never invalidates the other copy. "
  "Device code only ever accesses device memory and host code host memory, nested containers are moved with their outer one, and every copy made in a memory space is released when the container is destroyed or reallocated. Host threads may use containers of their own at the same time.",
  ["histories", "programs", "inputs"], "every sequence of captures, moves with and without touching, reallocations, copies and destructions in both memory spaces and every kind of view",
  TESTS + "the tests of this need a GPU build, which this machine cannot run at all, and cover fixed sequences.",
  ["src/ChaiBuffer.hpp", "src/ArrayView.hpp", "src/SortedArrayView.hpp", "src/ArrayOfArraysView.hpp", "src/CRSMatrixView.hpp", "src/bufferManipulation.hpp"],
  [("copy constructor moves to the active space", "src/ChaiBuffer.hpp"), ("move and touch per view type", "src/ArrayView.hpp move, src/ArrayOfArraysView.hpp move, src/CRSMatrixView.hpp move"), ("reallocation through the host", "src/ChaiBuffer.hpp reallocate, move, registerTouch"), ("constant views move without touching", "src/bufferManipulation.hpp, src/ArrayOfArraysView.hpp")],
  ["values seen by kernels and host code, number of transfers, live allocations per space"])

p("C14", "Block copies copy exactly the selected values, in order with events",
  "Copying a slice of one array to an equally sized slice of another copies exactly the selected values, leaves everything around it unchanged and works between any two memory spaces of Umpire and any memory of the host. "
  "The asynchronous form has the same result once its event was waited for, and consecutive copies on one stream take effect in order. Mismatched sizes are refused before anything is written.",
  ["schedules", "inputs", "histories"], "every pair of slices and memory spaces, every progress of the asynchronous stream",
  TESTS + "asynchronous copies complete at once in the tests, so a missing wait or wrong order is never seen.",
  ["src/memcpy.hpp", "src/umpireInterface.cpp", "src/umpireInterface.hpp"],
  [("slicing both sides and size check", "src/memcpy.hpp memcpy"), ("copy through the resource manager", "src/umpireInterface.cpp copy, memset")],
  ["destination values and neighbours"])

p("C15", "Running out of memory or capacity stops before damage",
  "If an allocation fails or a fixed capacity is exceeded, the program is stopped with an error by the operation that needed the memory, before existing values are lost, overwritten or moved to invalid memory; only what the operation was asked to clear or replace may be gone. "
  "Views, whose capacity is fixed, stop in builds with bounds checking. The operation never writes outside memory it owns and never carries on silently with too little of it. Operations that fit never stop. Allocators of Umpire report a failure by an exception: it reaches the caller of the operation, appending, inserting, reserving, resizing or moving, the container keeps its size and its values, nothing leaks, and this and every other container stays usable and can be destroyed.",
  ["fault_sequences", "histories"], "an allocation failure or capacity exhaustion at any point of any operation history",
  TESTS + "no test makes an allocation fail.",
  ["src/MallocBuffer.hpp", "src/StackBuffer.hpp", "src/ChaiBuffer.hpp", "src/bufferManipulation.hpp", "src/Array.hpp", "src/ArrayOfArraysView.hpp", "src/ArrayOfArrays.hpp", "src/ArrayOfSetsView.hpp", "src/CRSMatrixView.hpp"],
  [("allocation", "src/MallocBuffer.hpp reallocate, src/ChaiBuffer.hpp reallocate"), ("fixed capacity", "src/StackBuffer.hpp reallocate"), ("capacity checks of the views", "src/ArrayOfSetsView.hpp CallBacks, src/SparsityPatternView.hpp CallBacks")],
  ["fail stop, state of the values at the stop"])

p("C16", "Checked builds stop invalid accesses before they touch memory",
  "In a build with bounds checking every access with an index, inner index, column or position outside the valid range, through containers, views and slices, and every operation whose stated capacity or ordering requirement is broken, stops the program with an error before any memory outside the container's values is read or written. "
  "No valid operation is ever stopped, and the error message names what was wrong.",
  ["inputs", "histories", "configurations"], "every invalid argument to every checked operation after any history; every valid history",
  TESTS + "bounds checking is off in the default build and only a handful of invalid accesses are tested.",
  ["src/indexing.hpp", "src/ArrayView.hpp", "src/ArraySlice.hpp", "src/ArrayOfArraysView.hpp", "src/ArrayOfSetsView.hpp", "src/SortedArrayView.hpp", "src/SparsityPatternView.hpp", "src/CRSMatrixView.hpp", "src/arrayManipulation.hpp", "src/bufferManipulation.hpp"],
  [("index checks", "src/indexing.hpp checkIndices"), ("inner index checks", "src/ArrayOfArraysView.hpp ARRAYOFARRAYS_CHECK_BOUNDS"), ("position checks", "src/arrayManipulation.hpp ARRAYMANIPULATION_CHECK_BOUNDS, ARRAYMANIPULATION_CHECK_INSERT_BOUNDS"), ("macros", "src/Macros.hpp LVARRAY_ERROR_IF*")],
  ["fail stop versus completion"])

p("C17", "Error reports and stack traces survive a failing environment",
  "A stack trace or error report is produced, names the frames and includes the given message and source location, whatever fails while looking up symbols: no helper process can be started or it dies, pipes break, descriptors run out, its output is short, empty, garbled, very long or interrupted. "
  "The report never crashes, hangs, or leaves behind open descriptors or unreaped child processes. A failed check always ends in the installed error handler exactly when its condition is true, and a throwing check throws the message it was given.",
  ["fault_sequences", "inputs", "configurations"], "every failure, interruption and partial result of every operating system call made during the report, any number of reports",
  TESTS + "the operating system calls succeed in the tests.",
  ["src/system.cpp", "src/system.hpp", "src/Macros.hpp"],
  [("external symboliser", "src/system.cpp Addr2LinePipe, addr2line"), ("trace assembly", "src/system.cpp stackTrace, collect, getSourceLocationFromFrame"), ("error macros", "src/Macros.hpp LVARRAY_ERROR_IF, LVARRAY_THROW_IF, LVARRAY_WARNING_IF, LVARRAY_INFO_IF"), ("error handler", "src/system.cpp setErrorHandler, callErrorHandler")],
  ["returned text, descriptor table, process table"])

p("C18", "Signal handlers and floating point settings are restored as documented",
  "Restoring signal handling brings back for every handled signal the handler that was in place before the first installation, however often and in whatever order handlers were installed in between, and delivery of a handled signal always runs the handler installed last, with a trace of the signal it was given. "
  "Enabling or disabling floating point traps returns the previous setting, changes only the requested exceptions, never triggers on exceptions that were raised before, and leaving a scope makes every exception trap again that trapped when it was entered, however scopes are nested and whatever was raised inside.",
  ["histories", "schedules", "fault_sequences"], "every sequence of installing, restoring, delivering signals at any point, enabling, disabling and nesting scopes, failing system calls",
  "The stable tests check single fixed sequences of trap changes with a real process each; they never nest scopes, repeat installations or deliver signals in between.",
  ["src/system.cpp", "src/system.hpp"],
  [("saved initial handlers", "src/system.cpp setSignalHandling, resetSignalHandling, initialHandler"), ("trap mask", "src/system.cpp enableFloatingPointExceptions, disableFloatingPointExceptions, setFPE"), ("scoped guard", "src/system.hpp FloatingPointExceptionGuard")],
  ["signal dispositions, floating point control and status words"])

p("C19", "Arrays are parsed from text correctly or refused",
  "Reading an array from text yields exactly the dimensions and values written there for any placement of blanks (text with other white space is understood the same or refused), or reports an error for text that is truncated, unbalanced, ragged or has a value that does not parse; it never crashes, hangs, reads outside the text or silently accepts another array. "
  "Where the text lies in memory, how it was produced and what was in the array before makes no difference.",
  ["inputs", "fault_sequences"], "every text, including every truncation and every single or multiple byte corruption of a valid one, any previous content of the array",
  TESTS + "the unit test parses a fixed list of texts.",
  ["src/input.hpp"],
  [("structure scan and value extraction", "src/input.hpp stringToArray, internal::StringToArrayHelper")],
  ["resulting dimensions and values, exception"])

p("C20", "Text output shows exactly the content and survives stream failures",
  "Writing a container to a text stream shows exactly its structure and values, in order, so that what is written can be parsed back to an equal array, and does not change the container. "
  "If the stream stops accepting characters at any point, what was accepted is a prefix of the full text, the stream is left failed and the container is unharmed.",
  ["inputs", "fault_sequences"], "every content and shape, a failing write at every position of the text",
  TESTS + "the output operators are not covered by any stable test and no test makes a stream fail.",
  ["src/output.hpp"],
  [("stream operators", "src/output.hpp operator<<")],
  ["characters accepted by the stream"])

p("C21", "Sorting and sorted-range algorithms permute exactly and stay in range",
  "Sorting a range leaves exactly the same values in the order of the given comparison, sorting two ranges together keeps every pair together, and making a range sorted and unique leaves exactly the distinct values; the queries for sortedness and uniqueness agree with the definition. "
  "The algorithms terminate on every input, use bounded auxiliary storage and never read or write outside their range, so that threads can sort adjacent ranges of one buffer at the same time.",
  ["inputs", "schedules"], "every input order including adversarial ones, every comparison, every length, concurrent work on adjacent ranges",
  TESTS + "the sort has a fixed depth and partition scheme whose bad inputs random tests never meet, and stray accesses at the ends of the range are invisible to value comparisons.",
  ["src/sortedArrayManipulation.hpp", "src/sortedArrayManipulationHelpers.hpp"],
  [("hand written introsort", "src/sortedArrayManipulationHelpers.hpp introsortLoop, unguardedPartition, insertionSort"), ("pair iterators", "src/sortedArrayManipulationHelpers.hpp DualIterator"), ("duplicates", "src/sortedArrayManipulation.hpp removeDuplicates, makeSortedUnique, isSortedUnique")],
  ["contents of the ranges and of the memory around them"])

p("C22", "Small tensor operations compute the algebraic result",
  "The fixed size vector and matrix operations (products, inverses, determinants, eigenvalues, symmetric storage) compute the mathematical result up to rounding for every operand layout.",
  ["inputs"], "every operand value and layout", "The tests compare against a reference for fixed operands.",
  ["src/tensorOps.hpp", "src/genericTensorOps.hpp", "src/fixedSizeSquareMatrixOps.hpp", "src/fixedSizeSquareMatrixOpsImpl.hpp"],
  [("unrolled formulas", "src/fixedSizeSquareMatrixOpsImpl.hpp")], ["results"])

p("C23", "Math functions and checked integer conversions agree with their definitions",
  "The math wrappers give for every supported type the value of the corresponding standard function, and a checked conversion between integer types returns the same number or stops.",
  ["inputs"], "every argument of every supported type", "The tests sample arguments.",
  ["src/math.hpp", "src/limits.hpp"],
  [("conversion check", "src/limits.hpp integerConversion")], ["results"])

p("C24", "Exported containers behave in Python as in C++ and failures end in exceptions",
  "A method of an exported container does exactly what the container's own operation does when the object's access level permits it, returns what is documented, and is otherwise refused with a Python exception that leaves the container as it was. "
  "A NumPy array or SciPy matrix obtained from it is over the container's own memory with the right type, extents and strides, and is writeable only if the level permits modification and what it shows may be modified. "
  "Arguments of the wrong type, shape, length or range, objects that Python made itself without a container, callbacks that raise, and calls into the interpreter or NumPy that fail end in a Python exception (or PythonError in C++), never in a crash, in a value together with an exception or in a failure without one. "
  "No Python object is leaked or released too often. Outside: values that the C++ operation requires to be sorted, unique or present, access levels other than the three constants, views after the container reallocated, and objects used after their container was destroyed.",
  ["histories", "fault_sequences"], "every sequence of exports, calls, writes through views, drops and C++ modifications, every argument, every failing call into the interpreter", "The Python tests call each method a few times, never with failing allocations, and cannot see leaks.",
  ["src/python/PyArray.cpp", "src/python/PyArray.hpp", "src/python/PySortedArray.cpp", "src/python/PySortedArray.hpp", "src/python/PyArrayOfArrays.cpp", "src/python/PyArrayOfArrays.hpp", "src/python/PyArrayOfSets.cpp", "src/python/PyArrayOfSets.hpp",
   "src/python/PyCRSMatrix.cpp", "src/python/PyCRSMatrix.hpp", "src/python/PyFunc.cpp", "src/python/PyFunc.hpp", "src/python/python.cpp", "src/python/numpyHelpers.cpp", "src/python/numpyHelpers.hpp", "src/python/pythonHelpers.cpp", "src/python/pythonHelpers.hpp"],
  [("access levels", "src/python/PyArray.cpp VERIFY_RESIZEABLE"), ("conversion of arguments", "src/python/numpyHelpers.cpp parseNumPyArray"), ("views", "src/python/numpyHelpers.cpp createNumpyArrayImpl"), ("reference counts", "src/python/pythonHelpers.hpp PyObjectRef")],
  ["objects seen from Python", "contents of the container", "reference counts", "memory of Python objects"])

p("C25", "Every transfer between memory spaces is announced with its name",
  "Whenever a buffer that exists in several memory spaces is copied from one space to another, because a container, a view or a captured view is moved or used there, exactly one line on standard output announces it, with the size of the transfer, the target space, the type of the owner and the name that was set last; nothing is announced that did not happen. "
  "The parts of ragged arrays, sets, patterns and matrices are told apart by what is appended to the name (/m_values, /m_sizes, /m_offsets, /entries). A name stays with its container when it grows, is resized, or is assigned the values of another one, goes with the content when it is moved or exchanged, and does not depend on the string it was set from. "
  "Sizes are given in KB, MB or GB with one decimal. A standard output that fails changes nothing else. Outside: the names of containers made by copying or taken over from other kinds before a name is set.",
  ["histories", "inputs", "fault_sequences"], "every sequence of naming, moves, captures, growth, copies and exchanges of every kind of container, with an output that works or fails",
  "The stable tests of this build only cover floating point exceptions and integer conversion; the tests that use names need a GPU build and do not look at the text.",
  ["src/ChaiBuffer.hpp", "src/ArrayOfArraysView.hpp", "src/CRSMatrixView.hpp", "src/Array.hpp", "src/SortedArray.hpp", "src/system.cpp"],
  [("announcement from the call back of the pointer record", "src/ChaiBuffer.hpp setName"), ("the call back goes with a reallocation", "src/ChaiBuffer.hpp reallocate"), ("names of parts", "src/ArrayOfArraysView.hpp setName, src/CRSMatrixView.hpp setName"), ("text of sizes", "src/system.cpp calculateSize")],
  ["lines on standard output", "transfers recorded by the array manager"])

p("C26", "A debugger is shown every array as it is, in a table that never overruns",
  "With LVARRAY_USE_TOTALVIEW_OUTPUT, showing an array or a view to the debugger (TV_ttf_display_type) at any moment, also in the middle of an operation, adds to the open table one row each for its lengths (m_dims), strides (m_strides), buffer (m_dataBuffer) and resize dimension (m_singleParameterResizeIndex), "
  "and with bounds checks showing a slice adds rows for its values (tv(m_data) with all lengths, m_data with the first), lengths and strides; each row gives the name, the type (with the numbers of elements where it is several) and the complete address, in hexadecimal, where exactly that is found. "
  "TV_ttf_add_row adds a row whole or not at all: a row that fits into the 16384 characters of the table with its end is added whatever its address, one that does not is refused with TV_ttf_ec_buffer_exhausted, names or types with tabs or line breaks with TV_ttf_ec_invalid_characters, and while no table is open every row with TV_ttf_ec_not_active; "
  "what was refused leaves the table as it was, always terminated. TV_ttf_display_type returns zero exactly when all its rows were added, and adds nothing for a null pointer, for example when arrays are constructed while a table is open. Each opening starts an empty table.",
  ["histories", "inputs", "fault_sequences"], "every history of an array with displays at every moment, every sequence of rows, every address and every fill of the table",
  "Nothing in the repository's tests calls these functions, and they are compiled only with an option that is off.",
  ["src/totalview/tv_data_display.c", "src/totalview/tv_data_display.h", "src/totalview/tv_helpers.hpp", "src/ArrayView.hpp", "src/ArraySlice.hpp", "src/Array.hpp"],
  [("rows of the table", "src/totalview/tv_data_display.c TV_ttf_add_row"), ("rows of an array", "src/ArrayView.hpp TV_ttf_display_type"), ("rows of a slice", "src/ArraySlice.hpp TV_ttf_display_type"), ("types", "src/totalview/tv_helpers.hpp format")],
  ["the table", "status of each call", "memory the rows refer to"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
