"""Writes properties.jsonl and MANIFEST.json from the table below (development aid)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = "abstract interpretation of the LLVM IR (value numbering in a polynomial domain)"
NOTE = ("Decided from the source on every run without executing it; sound for the analysed entry partitions under the listed "
        "assumptions, obligations that the analysis cannot decide are listed in the evidence and not counted.")


def P(pid, title, statement, over, qtext, why, files, mech, tech=TECH, note=NOTE, observe=None):
    return dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                tech=tech, note=note, observe=observe)


PROPS = [
 P("C01", "Extension fields compute in K[x]/(m)",
   "For every extension field the library builds (quadratic, i^2=-1, polynomial quotient of any supported degree, the ternary towers), each arithmetic operation returns exactly the sum, difference, product, square, double, half, negation, scalar multiple, inverse, quotient or root that the quotient ring K[x]/(m) prescribes, for all operands including those with vanishing components. Equality, zero and one tests answer truthfully about the represented value.",
   ["inputs", "configurations"], "all operands and every extension-field implementation, base field abstract",
   "Tests multiply a few random elements; special operands (vanishing components) and every degree-specific routine are not sampled.",
   ["arith/fieldquadratic.c", "arith/poly.c", "arith/ternary_extension_field.c"],
   [("quadratic extension", "arith/fieldquadratic.c"), ("polynomial quotient ring", "arith/poly.c"), ("ternary towers", "arith/ternary_extension_field.c")]),
 P("C02", "Curve points obey the elliptic-curve group law",
   "Addition, subtraction, doubling, negation, copying and comparison of curve points follow the chord-and-tangent group law in every case: neutral element, equal points, opposite points, points of order two and points in general position. The result does not depend on whether the output is fresh, already used, or one of the operands.",
   ["inputs", "configurations"], "every pair of points of both curve implementations, every output aliasing",
   "Random points never hit the neutral, opposite or order-two cases except where a test names them.",
   ["ecc/curve.c", "ecc/eta_T_3.c"], [("group law", "ecc/curve.c"), ("characteristic-3 curve", "ecc/eta_T_3.c")]),
 P("C03", "Batch point operations equal the individual ones",
   "Doubling or adding a whole array of points at once gives, for every member, the same point as performing that member's operation alone. This holds for every mixture of neutral, equal, opposite and order-two members, since one member may not influence another.",
   ["inputs"], "every mixture of member cases in the batch",
   "The simultaneous inversion is only run on random points by the tests; degenerate members poison the others.",
   ["ecc/curve.c", "arith/field.c"], [("simultaneous inversion", "ecc/curve.c"), ("batch entry points", "arith/field.c")]),
 P("C04", "The output of an operation may be one of its inputs",
   "Every element operation gives the same result when its output is also one of its operands, or when the same element is passed as several operands, as when all are distinct elements holding the same values. This holds for every field and group the library offers, at every special value.",
   ["inputs", "configurations"], "all operand values and all ways of identifying output and operands, for each implementation",
   "Tests call an operation with one aliasing on random values; a read after the output was written shows only for some aliasing and value combination.",
   ["arith/montfp.c", "arith/fieldquadratic.c", "arith/poly.c", "ecc/curve.c", "arith/field.c"],
   [("limb arithmetic", "arith/montfp.c"), ("extension fields", "arith/fieldquadratic.c"), ("curves", "ecc/curve.c")],
   tech="abstract interpretation of the LLVM IR: relational comparison of exit states between memory layouts"),
 P("C05", "Operations leave their operands and shared data unchanged",
   "An element operation changes nothing but its output: operands, exponents, byte strings and hashes passed in, and the field or pairing shared by all elements keep their values. Operations documented to destroy an operand are the only exception.",
   ["inputs", "histories"], "all operand values and every operation of every implementation",
   "A test compares the result, not every input afterwards; a modified operand or field shows only when it is used again.",
   ["arith", "ecc/curve.c"], [("operand frames", "arith/montfp.c"), ("field data", "arith/poly.c")],
   tech="abstract interpretation of the LLVM IR: frame (effect) analysis of exit states"),
 P("C06", "A result does not depend on what the output held before",
   "The value an operation leaves in its output is a function of its operands only, never of the value, zero mark, degree or identity mark that the output element held before the call. This holds for every initialised output of every field and group.",
   ["inputs", "histories"], "all operands and all previous contents of the output",
   "Tests write to fresh elements or overwrite random values; a stale flag survives only for special old and new values.",
   ["arith/montfp.c", "arith/fasterfp.c", "arith/poly.c", "ecc/curve.c"],
   [("zero flags", "arith/montfp.c"), ("coefficient counts", "arith/poly.c"), ("identity flag", "ecc/curve.c")],
   tech="abstract interpretation of the LLVM IR: relational comparison of exit states between old output contents"),
 P("C07", "Temporaries are initialised before use and released once on every path",
   "On every path through a library function, including early returns, error exits and special-case branches, each temporary element, field, big integer, array, file and heap block is initialised before it is used and released exactly once before the function returns, unless it is handed to the caller or stored in a longer-lived object. Nothing is used or released again after its release.",
   ["inputs", "histories"], "every path of every library function",
   "The tests neither count allocations nor take the error and special-case exits; a leak or double release shows only there.",
   ["arith", "ecc", "misc"], [("temporaries of field code", "arith/field.c"), ("parameter generation", "ecc"), ("random sources", "misc/random.c")],
   tech="path-sensitive interprocedural typestate analysis over the LLVM IR"),
 P("C08", "Clearing releases exactly what was acquired",
   "After an element, field, pairing, parameter set or preprocessed table has been initialised, used by any operation and cleared, every big integer, element and memory block acquired on its behalf has been released exactly once. This holds for every kind of field and pairing, every method option and sequence of options, and for parameters that are rejected.",
   ["histories", "configurations"], "every field and pairing kind, method option, operation and operand case, up to clear",
   "The tests neither count allocations nor clear everything they create, and rarely select the optional methods.",
   ["ecc", "arith"], [("pairing lifecycles", "ecc/pairing.c"), ("curve data", "ecc/curve.c"), ("field lifecycles", "arith/field.c"), ("parameters", "ecc/param.c")],
   tech="abstract interpretation of the LLVM IR with a typestate per resource over whole lifecycles"),
 P("C09", "All memory goes through the configured memory functions",
   "Every block of memory the library uses is obtained, resized and released by the functions the application configured, never by the C library directly once those are replaced. Configuring them takes effect exactly as given and nothing else changes them.",
   ["configurations", "histories"], "every function of the library and every configured allocator",
   "The tests always use the default allocator, for which a direct call to the C library behaves the same.",
   ["misc/memory.c", "include/pbc_memory.h"], [("configurable allocator", "misc/memory.c")],
   tech="whole-program effect analysis over the LLVM IR (who may reference the C allocator)"),
 P("C10", "Randomness comes only from the configured source",
   "All randomness the library uses - random integers, random elements and parameter generation - is obtained from the random source the application configured, one request with the caller's bound per random integer and a fresh request per component of a random field element. The built-in sources return only numbers below the bound made from the seed or the bytes of the file they were given, and can return every such number.",
   ["inputs", "configurations", "histories"], "every function of the library, every configured source and bound",
   "Tests look at whether results are plausible; they do not replace the source, supply short reads or hit the bound exactly.",
   ["arith/random.c", "arith/init_random.c", "include/pbc_random.h"], [("requests", "arith/random.c"), ("random elements", "arith/fieldquadratic.c")],
   tech="whole-program effect analysis over the LLVM IR and abstract interpretation of the random sources"),
 P("C11", "Results depend only on arguments and explicit configuration",
   "No operation keeps hidden state: apart from the explicit configuration calls (memory functions, random source, field implementation, messages) and the generator behind the deterministic source, no call changes anything that a later call on unrelated objects depends on. Choosing a field implementation affects exactly the fields made afterwards.",
   ["histories", "schedules"], "every function of the library and every sequence of calls",
   "Tests use one field or pairing per program in one fixed order; a cached value shared by two fields shows only when both are used.",
   ["arith", "ecc", "misc"], [("field implementation choice", "arith/fp.c"), ("random state", "arith/random.c"), ("pairing method options", "ecc/d_param.c")],
   tech="whole-program effect analysis over the LLVM IR (writers of variables with static storage)"),
 P("C12", "Points that are made or accepted lie on the curve",
   "Every point the library makes or accepts - at random, from a hash, from bytes in any form, from text, from integers, as a generator, on a curve or its twist - is the point at infinity or satisfies the equation of its curve, whatever the input bytes or text. Random and hashed points are multiplied by the curve's cofactor, so they lie in the group of the stated order.",
   ["inputs"], "all byte strings, texts, hashes and random choices; every path of every point-making operation",
   "Tests decode what they encoded; arbitrary bytes, x-coordinates of no point and twists without cofactor are not tried.",
   ["ecc/curve.c", "ecc/eta_T_3.c"], [("decoding and hashing", "ecc/curve.c"), ("random point of the ternary curve", "ecc/eta_T_3.c")],
   tech="abstract interpretation of the LLVM IR (polynomial domain modulo path conditions)"),
 P("C13", "Encodings have the reported length and decode to the same element",
   "Encoding an element writes exactly as many bytes as its reported length, none beyond them, and the same number is returned and later consumed. Decoding gives back an equal element for every value of every field and group that can be encoded, whatever the buffer and the receiving element held before, zero and the point at infinity included; the compressed form keeps the point and the x-only form keeps it up to sign. Numbers are big-endian, padded in front with zero bytes to the length of the prime.",
   ["inputs", "configurations"], "all elements of all kinds of fields and groups, all previous contents of the buffer",
   "Tests encode random elements into fresh buffers; short numbers, zero, O and both signs of y with both roots are rarely or never met.",
   ["arith", "ecc/curve.c", "ecc/pairing.c", "include/pbc_pairing.h"], [("compressed points", "ecc/curve.c"), ("padding of numbers", "arith/field.c"), ("extension fields", "arith/fieldquadratic.c")],
   tech="abstract interpretation of the LLVM IR (symbolic byte buffers and element contents)"),
 P("C16", "Pairings with the neutral element are 1, in products too",
   "A pairing with the neutral element in either place is 1 for every type of parameters, every method and every front end (direct, preprocessed, as an operation of the target group), and a product of pairings is the product of those of its pairs that contain no neutral element, also when there are none. Equal or opposite points in the two places of a symmetric pairing are no exception to the pairing's definition.",
   ["inputs", "configurations"], "all points, all places of the neutral element in products of up to three pairings",
   "Tests pair random points, which are never neutral, equal or opposite.",
   ["include/pbc_pairing.h", "ecc/pairing.c", "ecc/a_param.c", "ecc/d_param.c", "ecc/f_param.c"], [("neutral inputs", "include/pbc_pairing.h"), ("products", "ecc/pairing.c")],
   tech="abstract interpretation of the LLVM IR over formal circuits (random interpretation of field terms)"),
 P("C17", "The last power of a pairing is the power (q^k - 1)/r",
   "For every type of parameters (A, A1, D with any embedding degree, E, F, G) the final powering replaces an invertible element of the extension field by exactly its power with exponent (q^k - 1)/r. Hence random and hashed elements of the target group lie in that group.",
   ["inputs", "configurations"], "all generic elements, all primes q, all cofactors of up to five or six bits and a symbolic one",
   "Tests run a handful of shipped parameters, with one cofactor each; wrong bits of the ladder, other embedding degrees and other cofactors are not met.",
   ["ecc/a_param.c", "ecc/d_param.c", "ecc/e_param.c", "ecc/f_param.c", "ecc/g_param.c", "ecc/pairing.c"], [("Lucas ladder", "ecc/a_param.c"), ("Frobenius powers", "ecc/d_param.c"), ("random elements of the target group", "ecc/pairing.c")],
   tech="abstract interpretation of the LLVM IR over formal circuits (random interpretation of field terms)"),
 P("C18", "Every way of computing a pairing gives the reduced Tate pairing",
   "For points in general position and parameters of types A, A1, D, E, F and G, the default method and every method that can be chosen by name, the preprocessed pairing and products of several pairings all give the reduced Tate pairing of their points (Miller's function raised to (q^k - 1)/r), whatever the shape of the group order: signs, exponents, bits. This holds after any choice of methods in any order, and for the second use of a pairing or of preprocessed data as for the first.",
   ["inputs", "configurations", "histories"], "all points in general position, all primes q, group orders of up to six bits of every shape, all sequences of two methods",
   "Tests compute few pairings with the shipped parameters, whose group orders have one sign pattern each; most methods, sign patterns and products are not exercised or compared.",
   ["ecc/a_param.c", "ecc/d_param.c", "ecc/e_param.c", "ecc/f_param.c", "ecc/g_param.c", "ecc/pairing.c"], [("Miller loops", "ecc/a_param.c"), ("twisted curves", "ecc/d_param.c"), ("elliptic nets", "ecc/e_param.c"), ("products", "ecc/pairing.c")],
   tech="abstract interpretation of the LLVM IR over formal circuits (random interpretation of field terms)"),
 P("C22", "Prime fields compute modulo p and keep residues canonical",
   "For every supported prime size, each F_p implementation returns the residue that addition, subtraction, multiplication, division, doubling, halving, negation, inversion, powering or conversion from an integer prescribes modulo p, including results near zero, near p and near a limb boundary. The stored number is always the canonical one, so comparison, zero and one tests and conversion to integers tell the truth.",
   ["inputs", "configurations"], "all residues and moduli; carries, borrows and limb boundaries included",
   "Carries out of the top limb and results equal to p occur with negligible probability on random operands.",
   ["arith/montfp.c", "arith/fastfp.c", "arith/fasterfp.c", "arith/naivefp.c"],
   [("Montgomery arithmetic", "arith/montfp.c"), ("one-limb primes", "arith/naivefp.c")],
   tech="abstract interpretation of the LLVM IR with exact carries (congruence and polyhedral bounds)"),
 P("C25", "Preprocessed data does not depend on what happens to its input later",
   "After a first pairing input or a base has been preprocessed, the original element may be overwritten, set to the neutral element or cleared, and another method may be chosen: applying the preprocessed data still gives the pairing with, or the power of, the element that was preprocessed. Powers from preprocessed bases equal ordinary powers for every exponent, zero and exponents longer than the group order included.",
   ["histories", "configurations"], "all points in general position, all types and methods, all single later changes",
   "Tests use preprocessed data at once, with the input untouched and the method unchanged.",
   ["include/pbc_pairing.h", "ecc/pairing.c", "ecc/a_param.c", "arith/field.c"], [("default preprocessing", "ecc/pairing.c"), ("choice of methods", "ecc/a_param.c"), ("tables of powers", "arith/field.c")],
   tech="abstract interpretation of the LLVM IR over formal circuits (random interpretation of field terms)"),
 P("C24", "Square roots square back and only squares are called squares",
   "Whenever an element of a finite field is a square, taking its square root gives an element whose square is the argument, also in place and whatever the destination held: for zero, for elements of the base field in an extension (residues and nonresidues of the base field alike), and in prime fields for every power of two dividing the order of the multiplicative group. The test for squares accepts exactly the squares, zero included; integers are called squares only if they are.",
   ["inputs"], "all squares of all sorts (zero, in the base field, general) of quadratic and polynomial extensions; all squares of prime fields by their discrete logarithm",
   "Tests take roots of random elements in fields of one congruence class, where zero, elements of the subfield and high powers of two never occur.",
   ["arith/field.c", "arith/fieldquadratic.c", "arith/poly.c", "arith/z.c"], [("prime fields", "arith/field.c"), ("quadratic extensions", "arith/fieldquadratic.c"), ("polynomial extensions", "arith/poly.c")],
   tech="abstract interpretation of the LLVM IR: discrete-logarithm domain for prime fields, random interpretation of field terms for extensions"),
 P("C15", "Parameter texts round-trip and incomplete ones are rejected",
   "Parameters read from a complete text, whatever the order of its keys, its white space, comments and further keys, are written as a text with the same type and the same numbers under the same keys, and that text is read back as the same parameters. A text in which the type is missing or unknown, or any key the type needs is missing or no number, is rejected with a nonzero result, and no pairing is built from it. Reading from a buffer never looks beyond the given length, and no buffer overflows however long words are.",
   ["inputs"], "all types and keys; every key missing or malformed; orders, layouts, lengths of words sampled around the buffer sizes",
   "Tests read the shipped files, whose order, layout and completeness never vary.",
   ["include/pbc_param.h", "ecc/param.c", "misc/symtab.c", "ecc/pairing.c"], [("reader", "ecc/param.c"), ("symbol table", "misc/symtab.c"), ("writers", "ecc/d_param.c")],
   tech="abstract interpretation of the LLVM IR over texts with symbolic numerals and bounded buffers"),
 P("C14", "Printing elements is bounded, and printed elements read back",
   "Printing an element, or a format with elements, numbers and strings, into a buffer of n bytes writes only into those n bytes, ends the text within them whenever n is positive, leaves the longest prefix that fits and returns the length of the whole text. Output to a stream returns the number of characters written and uses the same text and the given base. An element of a prime or extension field, a curve point or an element of the target group that was printed is read back unchanged whatever white space is put between its parts, the number of characters read is returned, and texts with a missing bracket or comma are refused without looking behind their end.",
   ["inputs"], "all buffer sizes up to beyond the text, all element kinds with symbolic coordinates, all cuts of a text, a list of formats",
   "Tests print into ample buffers only and never read texts that are cut off or spaced differently.",
   ["include/pbc_field.h", "misc/extend_printf.c", "arith/field.c", "arith/fieldquadratic.c", "arith/poly.c", "ecc/curve.c"], [("formats", "misc/extend_printf.c"), ("extensions", "arith/poly.c"), ("points", "ecc/curve.c")],
   tech="abstract interpretation of the LLVM IR over texts with symbolic numerals and bounded buffers"),
 P("C19", "Generated parameters satisfy the conditions of their type",
   "Whatever random numbers are drawn, the parameters that a generator writes satisfy the documented equations of their type: A: q + 1 = hr with 12 | h; A1: p + 1 = ln with 4 | l; E: q = hr^2 + 1 with h three times a square; A and E: r = 2^a +- 2^b +- 1 as recorded; F: the Barreto-Naehrig polynomials; D and G: nk is the order over the extension, nk = hk r^2, the j-invariant a root of the class polynomial; I: n n2 is the order of the curve and n has at least the wanted size. Every number that has to be prime, every polynomial that has to be irreducible and every element that has to be no square was accepted as such by the corresponding test. The curve is the one, among a curve and its twists, on which random points have the right order.",
   ["inputs", "configurations"], "all large random numbers, all patterns of signs, exponents by partition, all patterns of a few rejections by the tests for primes, irreducibility, squares and orders",
   "Tests generate few parameters, if any, and use them without checking primality or the recorded equations.",
   ["include/pbc_a_param.h", "ecc/a_param.c", "ecc/e_param.c", "ecc/f_param.c", "ecc/d_param.c", "ecc/g_param.c", "ecc/eta_T_3.c", "ecc/curve.c"], [("supersingular curves", "ecc/a_param.c"), ("complex multiplication", "ecc/d_param.c"), ("twists", "ecc/f_param.c"), ("table of ternary curves", "ecc/eta_T_3.c")],
   tech="abstract interpretation of the LLVM IR with symbolic random numbers and recorded test answers"),
 P("C20", "Integers and nested integer lists compute exactly",
   "Sums, differences, products, quotients, halves, comparisons and signs of elements of the ring of integers equal those of the integers, and sums, differences and products of nested lists of integers equal those of the multinomials they denote, for operands of every sign and shape and also when the result is stored in an operand. Operands that are not the result are left unchanged, and assigning a list to an extension field element gives the element with those coefficients, missing ones being 0.",
   ["inputs"], "all integer coefficients (symbolic), constants of every sign, parity and pattern of zeros, shapes of lists up to depth 3, all sharings of result and operands",
   "No test of the suite uses nested lists, and the integers are used with a few positive numbers only.",
   ["arith/z.c", "arith/multiz.c", "misc/darray.c", "arith/fieldquadratic.c", "arith/poly.c"],
   [("ring of integers", "arith/z.c"), ("multinomials", "arith/multiz.c"), ("assignment of lists", "arith/poly.c")],
   tech="abstract interpretation of the LLVM IR with symbolic integer coefficients over enumerated list shapes"),
 P("C21", "Hashing to elements depends on the given bytes alone",
   "The element made from given bytes depends on nothing but the bytes and the field or group, not on earlier contents, random numbers or which square root is found: the bytes H, continued as H, 0, H, 1, ... to the length of the order, are read as a big-endian number that is halved until it is below the order; the components of a quadratic extension take the first half and the rest of the bytes, those of polynomial extensions all bytes; a point takes the first of x, x^2 + 1, ... that is an abscissa, the ordinate of positive sign, and is multiplied by the cofactor. No byte outside the given ones is read, and in every field the sign of -a is the opposite of the sign of a.",
   ["inputs", "configurations"], "all bytes (symbolic), lengths of data and of the order from 0 bytes to several times each other, all numbers of unsuitable abscissas up to 2 and all signs of the root found",
   "Tests hash one or two strings and compare results computed by the same code, so wrong, ignored or unread bytes and results that depend on a random nonresidue go unseen.",
   ["arith/field.c", "arith/montfp.c", "arith/fasterfp.c", "arith/fastfp.c", "arith/naivefp.c", "arith/fieldquadratic.c", "arith/poly.c", "ecc/curve.c", "arith/z.c"],
   [("number from a hash", "arith/field.c"), ("point from a hash", "ecc/curve.c")],
   tech="abstract interpretation of the LLVM IR with symbolic bytes in bounded buffers"),
 P("C23", "Exponentiation computes the power of every exponent",
   "Every way to exponentiate - sliding window, double and triple bases, precomputed tables, scalars given as integers or as ring elements - returns exactly the base raised to the given nonnegative exponent. This holds for exponent zero and one, exponents of every bit pattern and length relative to the windows and tables, and exponents beyond the group order.",
   ["inputs"], "all nonnegative exponents over the structure of windows and tables",
   "Random exponents of full length exercise a few window patterns; short, sparse or overlong exponents and unequal lengths are not sampled.",
   ["arith/field.c", "arith/montfp.c", "ecc/param.c"],
   [("windowed powering", "arith/field.c"), ("base tables", "arith/field.c")],
   tech="abstract interpretation of the LLVM IR in an exponent domain (group elements as formal powers)"),
 P("C26", "CM parameters found by the searches satisfy their equations",
   "Whatever discriminant and limit are given, each set of parameters that a search for type D or G curves passes to the callback satisfies n = q + 1 - t = hr, 4q - t^2 = D times a square and r divides the cyclotomic polynomial of the embedding degree at q, with q and r found prime and r no longer than the limit. The search stops when the callback returns nonzero and returns that value, otherwise 0, and releases everything it made.",
   ["inputs"], "all discriminants of a list, with every candidate accepted as a prime and with true primality",
   "Tests use shipped parameters; no test runs a search, and wrong parameters show only when a curve is built from them.",
   ["ecc/mnt.c", "include/pbc_mnt.h"], [("Pell equations", "ecc/mnt.c"), ("MNT and Freeman curves", "ecc/mnt.c")],
   tech="constant propagation through the LLVM IR (abstract interpretation) for enumerated discriminants, primality answers arbitrary"),
 P("C27", "Resizing memory keeps it intact and secure builds wipe what they release",
   "The default memory functions give blocks of at least the size asked for, keep the common part of a resized block, accept NULL, stay inside their blocks and do not return without memory; cleared allocation gives zeros, string copies are exact, and installed functions are the ones used. In a build with secure cleaning every block that is released or moved, GMP's included, is overwritten with zeros first, in optimised code too.",
   ["inputs"], "all pairs of old and new block sizes of a list", "No test resizes blocks downwards, looks at released memory or builds with secure cleaning.",
   ["misc/memory.c", "include/pbc_memory.h"], [("default and secure memory functions", "misc/memory.c")],
   tech="byte-precise abstract interpretation of the LLVM IR of the normal and the secure build, the latter also after clang's -O2 pipeline"),
 P("C28", "Type I pairings are the reduced eta_T pairing, on valid parameters",
   "For points in general position and every degree m prime to 6 the type I pairing is the eta_T pairing of its points: the product of its line values, each with its power of three, raised to (3^3m - 1)(3^m + 1)(3^m + 1 - mu 3^((m+1)/2)). Type I parameters generated for a supported group size have an order of at least that many bits which is prime and divides the number of points with the given cofactor, and an irreducible modulus.",
   ["inputs"], "all points; degrees from a list with every residue mod 12; all group sizes", "Tests pair a few random points of degree 97, where only one of four cases of the formula occurs.",
   ["ecc/eta_T_3.c", "arith/ternary_extension_field.c"], [("Miller loop and last power in characteristic three", "ecc/eta_T_3.c"), ("parameter table", "ecc/eta_T_3.c")],
   tech="abstract interpretation of the LLVM IR in a domain of products of powers of sparse line values (Frobenius powers as symbols); polynomial identities over GF(3)"),
 P("C29", "The C++ classes compute the same and release every object exactly once",
   "Every operator and member function of the C++ element classes gives the result of the corresponding operation on its operands in the order written, also when they are the same object, and leaves operands it does not assign to as they were. Encoding and decoding stay within the text, text of another length is refused with an exception, two points of one group are paired only if the pairing is symmetric, and every element and pairing that is made is cleared exactly once.",
   ["inputs"], "all operands, with operands that are one object", "Tests use each class with a few values, and hardly any operand twice.",
   ["include/pbcxx.h"], [("element classes", "include/pbcxx.h"), ("pairing class", "include/pbcxx.h")],
   tech="abstract interpretation of the LLVM IR of the instantiated C++ classes, the library's C functions as axioms over symbolic elements; ownership of elements and pairings"),
 P("C30", "Discrete logarithms are logarithms whenever one is returned",
   "Whenever the brute force or rho search returns, the exponent it gives raises the given base to the given element: whatever sequence of random numbers was drawn and whatever equality ended the search, for prime and composite orders alike. An equality that determines no exponent does not end the search.",
   ["inputs", "schedules"], "all random choices, equalities after a bounded number of steps; orders from a list", "No test computes a logarithm.",
   ["arith/dlog.c"], [("brute force", "arith/dlog.c"), ("Pollard's rho", "arith/dlog.c")],
   tech="abstract interpretation of the LLVM IR in the free group on base and element with symbolic exponents; linear congruences modulo small orders"),
 P("C31", "The calculator evaluates texts as written and answers misuse with a message",
   "The calculator gives every expression its usual meaning - powers from the right before signs, products, sums, comparisons and conditionals - calls the library operation each operator and built-in function names on the operands in order, and expressions that do not assign leave variables unchanged. Operators, built-in functions and conversions to a field that get too few, too many or the wrong kind of operands give a message instead of using memory that is not theirs.",
   ["inputs"], "all pairs of operators, every built-in function, all values of numerals", "Tests run a few scripts with valid input and hardly any mixed expressions.",
   ["pbc/pbc.c", "pbc/parser.y", "pbc/parser.lex"], [("evaluation of trees", "pbc/pbc.c"), ("grammar", "pbc/parser.y"), ("lexer", "pbc/parser.lex")],
   tech="the grammar's LALR automaton and lexer rules as tables; abstract interpretation of the IR of the tree evaluator over symbolic numerals"),
 P("C32", "Growable arrays are sequences and symbol tables are maps, within their memory",
   "An array holds exactly what was appended and not removed, in order, at every size; searches, visits and removals see each item as a sequence would, a copy is independent of its source, and no function touches memory outside the array's own or leaves some behind. A symbol table gives for every key the value put last under exactly that key, keeps its own copy of keys, and nothing for other keys.",
   ["inputs", "histories"], "all contents; sizes, positions and selections up to a bound", "Tests use small arrays and append, read and visit only.",
   ["misc/darray.c", "misc/symtab.c"], [("arrays", "misc/darray.c"), ("symbol tables", "misc/symtab.c")],
   tech="abstract interpretation of the LLVM IR with byte-accurate block bounds and opaque items, against a sequence and a map"),
]

NA = [
 P("N01", "Random elements are uniformly distributed",
   "Elements drawn at random from a field or group are uniformly distributed whenever the configured source is.",
   ["inputs"], "all elements of all fields and groups", "A distribution cannot be settled by samples.",
   ["arith/random.c", "arith/montfp.c", "ecc/curve.c"], [("random elements", "arith/random.c")],
   note="A statement about a probability distribution over runs, not about constructs or paths of the source. What static analysis decides of it - which source is used, bounds and bytes - is C10."),
 P("N03", "Hilbert class polynomials are computed exactly",
   "For every discriminant the coefficients computed are those of the Hilbert class polynomial.",
   ["inputs"], "all discriminants", "Tests compute one polynomial.",
   ["ecc/hilbert.c", "ecc/mpc.c"], [("class polynomials", "ecc/hilbert.c")],
   note="Needs an error bound of multi-precision floating-point series (precision, number of terms, rounding to integers): numerical analysis of run-time quantities, not a property of the source's paths."),
 P("N04", "Products and inverses in GF(3^m) are exact",
   "Multiplication, cubing, inversion and square roots of the ternary extension field reduce correctly modulo its trinomial for every degree and all operands.",
   ["inputs"], "all operands", "Tests multiply a few random elements of degree 97.",
   ["arith/ternary_extension_field.c"], [("ternary extension field", "arith/ternary_extension_field.c")],
   note="Every step branches on coefficients of the operands held in bit-sliced words, and inversion swaps buffers depending on them; a sound static summary needs a loop invariant per function over run-time bit vectors, and enumerating operands would be running the code. What lies above it (the towers, the pairing) is C01 and C28, memory and aliasing are C04 to C08."),
]


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS + NA:
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    man = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(0)' && which clang >/dev/null",
           "checks": [{"property": p["pid"], "quick_cmd": "python3 run.py %s quick" % p["pid"],
                       "thorough_cmd": "python3 run.py %s thorough" % p["pid"],
                       "evidence_file": "evidence/%s.json" % p["pid"], "technique": p["tech"], "level": "other",
                       "level_note": p["note"]} for p in PROPS],
           "not_applicable": [{"property": p["pid"], "reason": p["note"]} for p in NA]}
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
