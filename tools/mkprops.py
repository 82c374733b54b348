#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Arrays are shared by assignment; copy() gives independent storage",
  "Assigning, passing, or storing an array, string, map or view in a container makes another holder of the same storage, so a change made through any holder is seen through all of them, while scalars are always copied by value. copy() gives separate top-level storage of the same type, contents and shape (elements that are themselves arrays stay shared), so later changes of the copy and of the original do not affect each other. An element read into a variable by assignment is a value of its own, whereas writing through an element expression changes the container itself.",
  ["programs","histories"], "Every program of assignments, element reads and writes, container operations, copies and views over any number of variables, for every element type.",
  "test-var and test-math exercise a few fixed programs with one or two variables; aliasing is a property of every history of operations over several holders.",
  ["lube/var.cpp","lube/heap.cpp","lube/view.cpp"],
  [("reference counted heap shared by copy and assignment","var::operator=, var::var(const var&), var::attach"),("shallow copy","var::copy, Heap::copy, View(const IHeap&)"),("dereference on assignment","var::dereference")],
  ["public API: deep contents of every variable after every operation"])

p("C02", "Storage is released exactly when its last holder goes",
  "The storage of an array, string, map or view stays valid while any variable, container element, map key, element reference or view holds it, and is released as soon as the last holder goes, whether by reassignment, clear(), pop, shift, remove, shrinking, going out of scope or an exception. No sequence of library calls, including calls that throw, leaks storage, uses storage after release or releases it twice.",
  ["programs","histories","fault_sequences"], "Every program over the var API, including the error paths (calls that throw).",
  "The tests check printed values and never count allocations; a missing or extra release shows only after particular histories of holders.",
  ["lube/var.cpp","lube/heap.cpp","lube/heap.h","lube/view.cpp"],
  [("reference count","Heap::attach, Heap::detach"),("release on destruction","var::~var, var::detach, Heap::dealloc, View::~View"),("placement delete in shift and unshift","Heap::shift, Heap::unshift"),("shrinking releases","Heap::resize")],
  ["allocation counting in the harness, AddressSanitizer build of the library"])

p("C03", "Array operations behave as operations on a sequence",
  "push, pop, shift, unshift, insert, remove, append, the comma operator, resize and clear transform an array exactly as the corresponding operations on a finite sequence, returning the element removed where they return one, at every length and across every reallocation, for every element type. Elements not named by the operation keep their value and order, elements of a dense array keep the array's type, and growing a dynamically typed array exposes only undefined elements.",
  ["programs","histories","inputs"], "Every sequence of operations, position and length, for char, int, long, float, double, complex and dynamically typed arrays.",
  "The tests run one short fixed sequence per operation and never cross most capacity boundaries.",
  ["lube/var.cpp","lube/heap.cpp"],
  [("element moving","var::insert, var::remove, Heap::shift, Heap::unshift"),("growth","Heap::resize, allocSize, var::resize, var::presize"),("push and append","var::push, var::append")],
  ["public API: size, type and elements after every operation"])

p("C04", "Element access grows, types and converts as documented",
  "Indexing a variable beyond its size grows it to include the index, turning an undefined variable into a dynamically typed array and a scalar into a dense array of its own type whose first element is that scalar; negative indices are refused. Assigning to an element of a dense array converts the value to the array's type, assigning to an element of a dynamically typed array or map stores the value with its own type, and reads return the last value stored, at any nesting depth. Reads through at(), get, size, type, shape and defined never change any variable.",
  ["programs","inputs"], "Every nesting of containers, index and value type.",
  "Tests touch a handful of fixed indices and types.",
  ["lube/var.cpp","lube/heap.cpp"],
  [("reference creation","var::operator[](int), var::reference, var::at"),("typed element assignment","var::operator="),("promotion to array","var::array, var::resize"),("indirect access","Heap::derefInt, Heap::deref, Heap::derefSize, Heap::derefType")],
  ["public API: contents and types of all variables"])

p("C05", "A map holds one entry per key, in key order, with the last value stored",
  "After any history of insertions, overwrites and removals a map lists each key once, in increasing key order, and looking up a key gives the value last stored under it, for keys of any comparable type, mixed types and any insertion order. Looking up an absent key with at() gives nil, and index() gives a negative result, without changing the map; indexing with [] creates the entry. Values may be nested maps or arrays to any depth and are shared, not copied.",
  ["histories","programs"], "Every insertion/removal order and key set, with string, integer, char, real and array keys.",
  "Tests insert a few string keys in one order.",
  ["lube/var.cpp","lube/heap.cpp"],
  [("binary search insert","var::operator[](var), var::binary, var::insert"),("lookup","var::at(var), var::index, var::key"),("removal","var::remove")],
  ["public API: key list and values"])

p("C06", "A view is a window on its array: same storage, right elements, in bounds",
  "A view of given shape and offset addresses, in row-major order, exactly the elements of the underlying array from the offset on: reads and writes through the view, any view or subview made from it, or the array itself are seen through all of them. shape, stride, dim, offset and size describe that window, and a view, subview, offset change or index that would reach outside the array or shape is refused with an exception that leaves everything as it was. copy() of a view has the same shape and contents but independent storage, and assigning an array of the same type and shape to a variable holding a view of numbers or characters writes the elements through to the underlying array.",
  ["inputs","programs","histories"], "Every shape, offset, index, element type and nesting of views.",
  "test-math prints a few fixed views of float arrays.",
  ["lube/view.cpp","lube/heap.h","lube/var.cpp","lube/math.cpp"],
  [("offset and strides","View::setStrides, View::offset, View::stride"),("indexing","var::operator()(int,...), var::bounds"),("element access through the offset","View::ptr*, View::deref*"),("assignment through a view","View::copyable, Set::scalar, Set::vector"),("subview","var::subview")],
  ["public API: elements of all views and arrays, exceptions"])

p("C07", "Equality and ordering are by content and form a total order",
  "Two values are equal exactly when they have the same type class and the same contents, element by element and, for maps, key by key; views compare by the elements they show. < is a strict total order consistent with equality on non-complex values: nil first, then arrays before scalars, scalars of different types by type, numbers by value (characters as unsigned bytes), arrays lexicographically, so exactly one of a<b, a==b, b<a holds, < is transitive, and >, <=, >=, != are its exact derivatives; two complex numbers of one type are ordered by magnitude. Comparison never changes an operand, and is defined for every pair of values.",
  ["inputs"], "All pairs and triples of values: nil, every scalar type, strings, dense and dynamically typed arrays, maps, views, nested.",
  "A total order quantifies over all triples of values; the tests compare a few scalars and strings.",
  ["lube/var.cpp","lube/heap.cpp"],
  [("comparison operators","var::operator!=, var::operator<, var.h"),("array comparison","Heap::neq, Heap::lt")],
  ["public API: the six comparison operators on every pair"])

p("C08", "Sorting permutes into order and searching finds what is there",
  "sort() returns a new array holding the same elements with the same multiplicities in increasing order and leaves the original unchanged; the in-place sort functor does the same within each row of a dense array or view, and changes nothing outside it. index() of an array returns the position of the first equal element and of a map the position of the key, and a negative result if and only if there is none.",
  ["inputs"], "Every array, of any element type and length, with duplicates.",
  "Tests sort one or two fixed arrays.",
  ["lube/var.cpp","lube/math.cpp"],
  [("insertion sort by binary search","var::sort, var::binary"),("dense in place sort","Sort::vector"),("search","var::index")],
  ["public API"])

p("C09", "Conversions between scalar types and text preserve the value",
  "Converting a scalar to another numeric type gives the value C++ conversion gives (exact where representable, truncation toward zero from real to integer, real part of a complex when converted to a real type), and converting a string gives the number its text spells, throwing when it does not start with one or the integer type asked for cannot hold it; the source is never changed. Functions of numbers apply to each element of an array, to any depth. Floor, real, imaginary, absolute value and norm of exactly representable values are exact and keep, or for complex arguments reduce to, the corresponding real type; square roots, exponentials, logarithms, trigonometric functions and powers have, for real and complex arguments, the value C++ gives, to rounding.",
  ["inputs"], "Every source type, target type and value; strings of any content.",
  "Tests convert a couple of values.",
  ["lube/var.cpp","lube/math.cpp"],
  [("cast functors","Cast<T>::scalar, var::cast"),("unary functors","math.cpp CMATH_UNARY_FUNCTOR, RealUnaryFunctor::alloc, UnaryFunctor::broadcast")],
  ["public API"])

p("C10", "Writing a value as JSON and reading it back gives an equal value",
  "For any value built from nil, integers, exactly printable reals, strings of any bytes, arrays (dense, dynamically typed, empty, single element) and string-keyed maps nested to any depth, the text written by << is read back by >> as an equal value up to the width of the numeric type, and writing and reading that value again changes neither it nor the text. Writing never changes the value, and consecutive values written to a stream are read back one after another.",
  ["inputs"], "Every value tree and string content, including quotes, backslashes, brackets, control characters and empty containers.",
  "test-json round-trips a few fixed trees and compares the text only.",
  ["lube/json.cpp","lube/stream.cpp"],
  [("formatter","JSON::format, JSON::formatArray, JSON::formatView"),("parser","JSON::doValue, doArray, doObject, doString, doRaw")],
  ["public API: operator<< and operator>> on varstream and std streams"])

p("C11", "The JSON reader accepts JSON text and rejects broken text cleanly",
  "Reading well-formed JSON text (values: true, false, null, numbers, strings whose escapes are of quote or backslash, arrays, objects; any white space between tokens) gives the value it denotes, with true and false read as 1 and 0 and integers and reals told apart. Text that ends inside a string, array, object or before a value, or that contains a word that is neither a number nor true, false or null, throws, leaving the destination variable as it was. Reading stops right after the value, so the rest of the stream is left for the next read.",
  ["inputs"], "Every text, well formed, truncated at any byte, or corrupted.",
  "Tests read a few fixed well-formed texts; the input space is unbounded and error paths are untested.",
  ["lube/json.cpp"],
  [("parser","JSON::peek, doValue, doObject, doArray, doString, doRaw, toNumber"),("destination assigned last","operator>>(std::istream&, var&)")],
  ["public API: value or exception, position of the stream after the read"])

p("C12", "A stream on a variable reads and writes exactly its bytes",
  "Writing through a stream on a variable appends exactly the bytes written to the variable's string, and reading returns exactly the bytes of the string in order, each once, for all 256 byte values, with end of file reported only after the last. peek does not consume, unget and putback go back one byte, seeking sets the next read position (up to and including the end, an error beyond) without changing the contents, and writes are visible to later reads. The variable, its other holders and the stream see the same contents at all times.",
  ["histories","inputs"], "Every interleaving of reads, peeks, ungets, seeks and writes, with any bytes.",
  "test-stream writes and reads two fixed strings.",
  ["lube/stream.cpp","lube/var.h"],
  [("unbuffered stream buffer","varbuf::overflow, underflow, uflow, pbackfail, seekpos")],
  ["public API: std::iostream operations on varstream"],
  [dict(name="read position", meaning="next byte to read", where="varbuf::mInd")])

p("C13", "String functions compute the documented result on every string",
  "split, join, strip, toupper, tolower, search, match and replace give the result their definition gives on every string (regular expressions as backtracking Perl syntax; split and the regular expressions take strings without zero bytes that are not views), and join with the separator inverts split on it. The forms that are defined on arrays work element by element on nested arrays and maps of strings; forms that return a new value leave the argument unchanged; in place, strip and the case functions change the string itself, and so all its holders, replace gives the variable or element a new string, and both kinds give the same text. len() counts UTF-8 code points and is negative exactly when the bytes are not well-formed sequences of lead and continuation bytes.",
  ["inputs"], "Every string, separator, limit and pattern; nested arrays of strings.",
  "Tests run each function on one or two strings.",
  ["lube/string.cpp","lube/utf8.cpp","lube/string.h","lube/regex.h"],
  [("string functors and broadcasting","StringFunctor, Strip, ToUpper, ToLower"),("split and join","var::split, var::join"),("regular expressions","Search, Match, Replace"),("code points","utf8len, var::len")],
  ["public API"])

p("C14", "Lines are read whole, in order and once; text files round-trip",
  "Reading lines from any stream yields exactly the text between newline characters, in order, each once, whatever their length, including empty lines and a last line without newline, then nil at the end of file for ever after. Reading a text file gives the array of its lines (nil for an empty file), writing an array of newline-free strings and reading it back gives the same array, and a file that cannot be opened throws.",
  ["inputs"], "Every byte content and line length, across every growth of the line buffer.",
  "Tests read one fixed file.",
  ["lube/string.cpp","lube/txtfile.cpp"],
  [("line reader","var::getline"),("text module","txtfile::read, txtfile::write")],
  ["public API: getline on varstream and std streams, txt file module"])

p("C15", "Arithmetic is element-wise with broadcasting and leaves operands alone",
  "+, -, * and / on scalars give the C++ result in the type of the left operand; on arrays they apply element by element, a scalar or single-element right operand applying to every element and a smaller right operand being repeated over the leading dimensions of the left. The operands of a binary operator are left unchanged and the result is a new value of the left operand's type and shape; the compound forms give the same values written into the left operand, seen through all its holders. Operand shapes or types that do not match throw, and nothing outside the operands' elements is read or written.",
  ["inputs","programs"], "Every supported element type, shape, view and aliasing of operands, in place and out of place.",
  "test-math prints a few fixed float cases.",
  ["lube/math.cpp","lube/func.cpp","lube/clapack.cpp","lube/math.h"],
  [("broadcasting","ArithmeticFunctor::broadcast, UnaryFunctor::broadcast"),("element and vector operations","Add, Sub, Mul, Div scalar/vector, Mul::scale"),("allocation of results","BinaryFunctor::alloc, UnaryFunctor::alloc")],
  ["public API: all operands and result after every operation"])

p("C16", "Reductions and linear algebra compute their definitions on every shape",
  "Sum, sum of magnitudes, index of the largest magnitude, dot product, matrix-vector and matrix-matrix product, transpose, concatenation and swap give, for every shape and for each row of a higher-dimensional array or view (including one at an offset), the value their definition gives, exactly when the arithmetic is exact. Transposing twice, in or out of place and for square and oblong matrices, restores the array and its shape. Inputs are unchanged unless the operation is in place, and incompatible shapes throw. The index of the largest of nothing, and of complex values for which measures of magnitude differ, is not covered.",
  ["inputs"], "Every shape, offset, dimension and supported element type.",
  "test-math and test-lapack print a few fixed shapes.",
  ["lube/math.cpp","lube/func.cpp","lube/transpose-mkl.cpp","lube/transpose-adhoc.cpp","lube/clapack.cpp"],
  [("reductions","Sum, ASum, IAMax"),("products","Dot::alloc, Dot::vector"),("transpose","Transpose::alloc, scalar, vector"),("concatenation and swap","Concatenate, Swap"),("broadcast over rows","UnaryFunctor::broadcast, BinaryFunctor::broadcast, NaryFunctor::broadcast")],
  ["public API"])

p("C17", "DFT and inverse DFT, and poly and roots, are inverse to each other",
  "The forward transform of any vector equals the defining sum, the inverse transform of a forward transform restores the input to rounding, for real and complex input of single and double precision, any size, and row by row for multi-dimensional arrays, with the output shape and type of the definition. poly gives the coefficients of the monic polynomial with the given roots, and roots recovers them up to order and rounding. Inputs are not changed, and inputs of the wrong type or of another size throw. roots and poly of nothing, and of a zero leading coefficient, are not covered.",
  ["inputs"], "Every size, type and number of rows.",
  "test-math prints one transform and one polynomial.",
  ["lube/dft-mkl.cpp","lube/math.cpp","lube/dft.h"],
  [("transform","DFTBase::DFTBase, alloc, scalar, vector"),("polynomials","Poly, Roots, polyt")],
  ["public API"])

p("C18", "Configuration is the last-wins merge of ini files and settings",
  "Reading an ini file gives, per section, each key with its value, with white space around them removed, blank and comment lines ignored (the key ends at the first =, or else the first :), and a malformed line or missing file refused with an exception. The configuration is global to the program: after any sequence of files and explicit settings, a lookup in a section gives the value last given for that key in that section by any Config object, converted to the type of the default, or the default (nil without one) when absent. Lookups never change the configuration.",
  ["histories","inputs"], "Every sequence of files, settings and lookups over several Config objects; every ini text.",
  "test-config reads one fixed file.",
  ["lube/config.cpp","lube/inifile.cpp","lube/config.h"],
  [("merge","Config::configFile, configSet, configSection"),("lookup","Config::config"),("ini parser","inifile::read")],
  ["public API: Config and the ini file module"])

p("C19", "Command line options are parsed as declared",
  "Parsing a command line gives every declared option its argument when the option takes one, 1 when it is a flag that was given, and its declared default (nil for a flag) when it was not given; the last occurrence wins, clustered flags and attached or separate arguments are equivalent, and -- ends the options. args() gives exactly the non-option arguments, in order; an unknown option or a missing argument shows the usage and ends the program; and a new parse starts from the beginning, whatever came before.",
  ["inputs","configurations"], "Every declaration of options and every argument vector made of them.",
  "test-config parses one fixed command line at most.",
  ["lube/config.cpp","lube/config.h"],
  [("declaration and parsing","Option::operator(), Option::parse, Option::arg, Option::args")],
  ["public API: Option"])

p("C20", "XML documents read into the element tree and round-trip",
  "Reading a well-formed XML document gives, for every element, its name, its attributes by name and its content in document order, with entities decoded, and white space kept except line ends. Writing a tree and reading it back gives the same tree (adjacent text runs taken together), for any text and attribute values; a document that is malformed, truncated or cannot be opened throws, and reading a document again gives the same tree, whatever was done with what was read before. Comments, processing instructions, CDATA sections and DTDs are not supported, and nothing is claimed of documents that have them.",
  ["inputs"], "Every document tree, attribute set and text content including markup characters.",
  "Only one fixed document is read, in a test that does not pass here.",
  ["lube/xmlfile.cpp","lube/data.h"],
  [("parser callbacks and element stack","Expat::startElementHandler, endElementHandler, characterDataHandler, element"),("writer and escaping","XMLWriter::writeElem, escape")],
  ["public API: xml file module"])

p("C21", "Directory listings contain exactly what is in the directory",
  "dir lists exactly the entries of the directory, rdir exactly the entries at any depth below it, and tree gives the nested map with a map for each non-empty subdirectory and nil for each file or empty directory; when asked, each listed path comes with its parent, stem and extension, which put together give the path back. A path that does not exist throws.",
  ["configurations","inputs"], "Every directory tree and file naming.",
  "test-path lists one fixed directory of the repository.",
  ["lube/path.cpp","lube/path.h"],
  [("listing","Path::dir, Path::rdir, Path::tree, bits")],
  ["public API: path module on a scratch directory"])

p("C22", "Modules: instances live until their loader goes, then the library closes",
  "Every instance created by a module loader receives the argument given, stays valid as long as the loader, and is destroyed exactly once when the loader is destroyed and before its library is closed; several loaders and instances of one library do not interfere. Loading a library that does not exist or is not a module, or creating an instance that the factory refuses or that is of another kind, throws and leaves nothing loaded that was not loaded before.",
  ["histories","fault_sequences"], "Every interleaving of loads, creates, uses and destructions, including failing ones.",
  "Tests load each module once and never look at destruction order.",
  ["lube/module.cpp","lube/module.h"],
  [("load","module::module"),("create and own","module::create"),("destroy then close","module::~module")],
  ["a probe module in the harness that logs construction, destruction and unloading"])

p("C23", "Audio files round-trip samples, channels and rate; graphs write what was added",
  "Writing a one-dimensional array, or a two-dimensional array with one row per channel, as audio and reading it back gives the same samples (exactly for values representable in 16 bits), number of channels and rate, for any length, none included; other real types are converted, and something that is not an array of real numbers throws. A graph written to a file contains each vertex and each edge that was added, once, with vertices numbered from 0 in order of creation; an edge to a negative vertex, and a file that cannot be written, throw. Values outside [-1, 1), and edges to vertices that were never added, are not covered.",
  ["inputs","histories"], "Every channel count, length and 16-bit sample value; every sequence of vertex and edge additions.",
  "The audio test needs a file that is absent, and the graph test writes one graph.",
  ["lube/sndfile.cpp","lube/graph.cpp"],
  [("audio","sndfile::read, sndfile::write"),("graph","Graph::addVertex, addEdge, writeGraphViz")],
  ["public API: snd and graph modules"])

p("C24", "Ranges contain exactly the steps between their limits",
  "range(lo, hi, step) holds lo, lo+step, ... up to and including hi, and irange the same excluding hi, in the type of lo, for a positive step and limits of one type; with one argument they start at 1 and 0 of that type, and when there is nothing between the limits the result is nil. The index type counts like an integer, is true exactly when not negative, and its complement operator maps i to -(i+1) and back. A variable built from a size and a value, an initialiser list or a raw array holds exactly those elements.",
  ["inputs"], "All limits, steps and types; all index values; all initialisers.",
  "test-ind and test-var print a few ranges.",
  ["lube/var.cpp","lube/ind.h"],
  [("ranges","libube::range, libube::irange"),("index type","ind"),("constructors","var::var(int, var), var::var(initializer_list), libube::view")],
  ["public API"])

p("C25", "GEDCOM files are read into individuals and families",
  "Reading a GEDCOM file gives its individuals and its families, each in the order of the file: an individual with the last given NAME, TITL and SEX, spelt exactly as in the file, or nil; a family with the position of its husband, wife and children among the individuals (children: nil, a number, or an array of them). Header, submitter, events and notes, and references to individuals that are not in the file, change nothing; a file read before, whole or not, has no effect. A file that does not exist, ends before its trailer or has a line without a level throws. Tags the reader does not know, families before their members, and references in a file without individuals are not covered.",
  ["inputs","histories"], "All sequences of records and reads.",
  "No test reads a GEDCOM file.",
  ["lube/gedfile.cpp"],
  [("reader","gedfile read"),("lines","ged line")],
  ["public API (filemodule \"ged\")"])
p("C26", "What is written to gnuplot is sent whole and in order",
  "Writing an array to the gnuplot module sends, in order, each string as a command and each array of numbers as inline data: one value per line, or for a matrix one line for each column with the values of that column, ended by a line e. If a file is named, commands that direct output there come first. An item of any other kind throws after what came before it was sent; each instance has its own gnuplot, which gets everything in the order of the writes; reading throws; the array written is unchanged. Blank lines do not count.",
  ["inputs","histories"], "All arrays of commands and data; all orders of writes to several instances.",
  "No test plots.",
  ["lube/gnuplot.cpp"],
  [("writer","Gnuplot write")],
  ["public API (filemodule \"gnuplot\")"])
p("C27", "A transfer returns exactly the bytes at the URL",
  "Fetching a URL returns exactly the bytes there, whatever their number and values, as a string of its own; a URL that cannot be read throws; and neither has any effect on other transfers, with the same object or another, or on what they returned.",
  ["inputs","histories"], "All contents and sizes; all orders of transfers, failed and successful, over several objects.",
  "No test fetches anything.",
  ["lube/curl.cpp"],
  [("transfer","curl")],
  ["public API (curlmodule)"])

p("C28", "Printing shows a value exactly, and changes nothing",
  "The text printed for a value depends on the value alone: null for nil, a character in single quotes, numbers with at most six significant digits, complex ones as (re,im), a string in double quotes with a backslash before quotes and backslashes, an array of numbers on one line in brackets with commas, a dynamically typed array or one of double complex with one element a line, a map with one key: value a line, each level two further in, and a view as its matrices in order, one line a row, after its shape when there are more than two dimensions. Every element is printed once, in order, the same for every holder and offset. The text of an error begins with its argument printed, stays the same when it is copied, and leaves nothing behind; a timer prints its name; writing to an ini file prints one element a line; the names of types are those of the language.",
  ["inputs","histories"], "All values, nestings, shapes and offsets.",
  "The tests compare the printed text of some fixed values.",
  ["lube/json.cpp","lube/var.cpp"],
  [("formatter","JSON::format, JSON::formatArray, JSON::formatView"),("errors","error::error, error::what"),("names of types","typeStr, var::atypeStr"),("others","timer, inifile::write")],
  ["public API: operator <<, error::what, var::typeStr, var::atypeStr"])

p("C29", "A functor that a program defines is applied to every row of its arguments",
  "What a user-defined functor says of one number, row or matrix is done to each of them in an argument of any number of dimensions, dense array or view, at any offset: once each, and with the corresponding parts of the arguments and of the result. A unary functor goes over its argument, a binary or n-ary one over all of its arguments together, an arithmetic one repeats the right argument over the left; the result has the type and shape of the first argument unless the functor allocates another. The form with an output argument gives the same values in its storage. Arguments are unchanged; arguments with fewer dimensions than the functor works on, of types that differ, a functor that does not say what it does, and an n-ary one called with nothing to allocate from, throw. Arguments whose rows do not correspond in number are not covered.",
  ["inputs"], "Every type, shape, offset and number of arguments, and functors on numbers, rows and matrices, with or without their own allocation.",
  "The tests only use functors that the library defines.",
  ["lube/func.cpp","lube/func.h"],
  [("broadcasting","UnaryFunctor::broadcast, BinaryFunctor::broadcast, ArithmeticFunctor::broadcast, NaryFunctor::broadcast"),("parts","UnaryFunctor::vector, BinaryFunctor::vector"),("allocation","alloc() of each")],
  ["public API: subclasses of UnaryFunctor, BinaryFunctor, ArithmeticFunctor and NaryFunctor"])

out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
