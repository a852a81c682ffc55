#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that it is easy to edit)."""
import json, os
I="include/rapidcheck/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Splittable random streams are reproducible and keep their identity",
 "A random generator's output is a pure function of its key, the path of splits that led to it and the index of the number drawn: copying, comparing or re-serializing it never changes the numbers that follow, and every output word is the documented 256-bit block hash of key, split path and counter. Generators that differ in key, split path (neither path a prefix of the other, since a generator is either split or drawn from) or position never feed the same input to that hash, including across the point where the path register is full and the generator is re-keyed and where the counter wraps.",
 ["inputs","histories"],"all 256-bit keys, all split paths (around the 64-split re-key boundary too), all counters, all interleavings of copy and draw",
 "The tests compare a handful of fixed vectors and sample a few hundred random seeds; the quantifier is over 2^256 keys, 2^64 counters and all split histories, and the 64-split and counter-wrap boundaries are never sampled.",
 ["src/Random.cpp",I+"Random.h",I+"Random.hpp"],
 [("block hash","src/Random.cpp: mash"),("split path register","src/Random.cpp: append/split"),("counter","src/Random.cpp: next")],
 [("key, block, bits, counter, bit index","generator state",I+"Random.h")],["next()","split()","operator=="])

p("C02","Bit streams hand out every source bit exactly once, in order",
 "Drawing values of any widths from a bit stream yields the source words' bits consecutively, lowest bit first, each bit delivered exactly once and none invented, with a new word fetched only when the previous one is used up. A value of n requested bits only occupies its n low bits, signed values are sign-extended from bit n-1, and a size-scaled draw uses round(size * width / 100) bits.",
 ["inputs","histories"],"all source word values, all sequences of requested widths (0..64 and beyond the type's width) and target types",
 "Tests sample random width lists against random sources; a wrong mask or shift at one particular alignment and bit value needs every alignment and every word value.",
 [I+"detail/BitStream.hpp",I+"detail/BitStream.h",I+"detail/Utility.h"],
 [("bit queue refill and masking",I+"detail/BitStream.hpp: next"),("mask",I+"detail/Utility.h: bitMask")],
 [("current word and number of unread bits","stream position",I+"detail/BitStream.h")],["next<T>(n)","nextWithSize<T>"])

p("C03","Integer generators stay in their range and honour the size",
 "For every size and every random stream, an integer generated in a range lies in it, at size zero it is the smallest value the range allows closest to the documented origin, and the reachable part of the range grows monotonically with size up to the whole range at the nominal size. Arbitrary, non-zero, positive and non-negative integer generators satisfy their defining predicate, and so does every shrink of any of these values; an empty range is reported as a generation failure rather than producing a value.",
 ["inputs"],"all range bounds, all sizes, all random words, for each integer type; every shrink at depth one and two",
 "Sampling 64-bit ranges practically never hits the rounding, overflow and full-width corner cases where an out-of-range value would appear.",
 [I+"gen/Numeric.hpp","src/gen/detail/ScaleInteger.cpp","src/gen/Numeric.cpp"],
 [("range scaling",I+"gen/Numeric.hpp: inRange"),("size scaling","src/gen/detail/ScaleInteger.cpp: scaleInteger"),("integer generation",I+"gen/Numeric.hpp: integral"),("predicate filtering",I+"gen/Predicate.hpp")],
 (),["gen::inRange","gen::arbitrary<T>","gen::positive/negative/nonZero/nonNegative"])

p("C04","Shrinking an integer is well-founded and reaches every local minimum",
 "The shrink candidates of an integer never contain the integer itself, start with the target (the simplest value), lie between target and value, and come closer to the value one after the other, so that shrinking always terminates. The candidate adjacent to the value on the target's side is always offered, so a greedy descent over a monotone condition ends exactly at its boundary; negative values additionally offer their negation when that is representable, and booleans shrink only from true to false.",
 ["inputs"],"all values and all targets of all integer types (8 to 64 bit, signed and unsigned)",
 "Tests sample values; extremes such as the minimum value, whose negation and distance overflow, and distances that use the full width are sampled with negligible probability.",
 [I+"shrink/Shrink.hpp"],
 [("halving iteration",I+"shrink/Shrink.hpp: TowardsSeq"),("sign flip",I+"shrink/Shrink.hpp: integral"),("bool",I+"shrink/Shrink.hpp: bool")],
 (),["shrink::towards","shrink::integral","shrink::boolean"])

p("C05","Floating point generation and shrinking behave on every bit pattern",
 "Shrinking any floating point value, including infinities, NaN and negative zero, never offers a value that compares equal to the original, is finite in length and only offers strictly simpler values, so it always terminates. Generated floating point values are finite for every size and random stream, and at size zero have magnitude below one.",
 ["inputs"],"all bit patterns of the floating point types, all random words, all sizes",
 "Unit tests sample generated reals; NaN, infinities, denormals, and values beyond the integer range are not produced by the generators the tests use.",
 [I+"shrink/Shrink.hpp",I+"gen/Numeric.hpp"],
 [("negate/truncate shrinks",I+"shrink/Shrink.hpp: real"),("mantissa/exponent construction",I+"gen/Numeric.hpp: real")],
 (),["shrink::real","gen::arbitrary<double>"])

p("C06","Shrinking collections removes or simplifies, and offers every single step",
 "Every shrink of a collection is either the collection with one contiguous non-empty run of elements removed, larger runs first and no candidate equal to the original, or the collection with exactly one element replaced by one of that element's own shrinks, all others unchanged and in order. Removing any single element and every shrink of every single element is offered, so a local minimum cannot be shortened or simplified by one step; characters only shrink to simpler characters and never back.",
 ["inputs"],"all element values and all collection lengths up to the bound, all characters",
 "The tests check a few properties of sampled collections; an off-by-one in chunk arithmetic that skips or duplicates a candidate for particular lengths needs all lengths and contents.",
 [I+"shrink/Shrink.hpp",I+"gen/Text.hpp"],
 [("chunk removal",I+"shrink/Shrink.hpp: RemoveChunksSeq"),("element-wise shrinks",I+"shrink/Shrink.hpp: EachElementSeq"),("character shrink",I+"shrink/Shrink.hpp: character")],
 (),["shrink::removeChunks","shrink::eachElement","shrink::character"])

p("C07","Shrink trees obey their structural laws",
 "Mapping a shrink tree applies the function to every value and keeps the tree's shape; filtering yields exactly the subtrees whose values satisfy the predicate, and nothing when the root does not; the product of two trees shrinks the first component before the second, one at a time, and covers both. Chained shrinks appear after the original shrinks, a greedy descent returns a value for which the condition holds, whose shrinks all fail it, and reports exactly the path that leads there, and replaying any path yields the value at that path or nothing if it does not exist.",
 ["inputs","programs"],"all small shrink trees, all predicates on their nodes, all functions on values, all paths",
 "Tests use sampled integer trees and a fixed set of predicates; the laws quantify over arbitrary trees, predicates and paths.",
 [I+"shrinkable/Transform.hpp",I+"shrinkable/Operations.hpp",I+"shrinkable/Create.hpp",I+"Shrinkable.hpp"],
 [("map/filter/mapcat/pair/postShrink",I+"shrinkable/Transform.hpp"),("findLocalMin/walkPath/all/any",I+"shrinkable/Operations.hpp")],
 (),["shrinkable::*"])

p("C08","Lazy sequences agree with the list they denote",
 "Every sequence constructor and combinator (constants, ranges, containers, iteration, repeat, map, zip, filter, cast, join, concatenation, mapcat, mapMaybe, take, drop, dropWhile, takeWhile, cycle) yields exactly the elements of the corresponding list operation in order, and once it has ended it stays ended. A copy of a sequence at any position continues independently of the original, an exception raised while producing an element ends the sequence at that point without corrupting it, and the aggregate operations (length, forEach, all, any, contains, at, last, equality) agree with the list.",
 ["inputs","histories"],"all element values, lengths and parameters up to the bound, all positions at which a copy is taken, all predicates",
 "Each combinator is tested on sampled vectors on its own; copies in mid-iteration, repeated calls after the end and predicates that fail at arbitrary positions are not covered exhaustively.",
 [I+"seq/Transform.hpp",I+"seq/Create.hpp",I+"seq/Operations.hpp",I+"Seq.hpp",I+"seq/SeqIterator.hpp"],
 [("combinators",I+"seq/Transform.hpp"),("constructors",I+"seq/Create.hpp"),("ownership and error handling",I+"Seq.hpp")],
 (),["Seq::next","seq::*"])

p("C09","Binary serialization round-trips and rejects malformed input safely",
 "Decoding what was encoded returns the original value and leaves the input position right after it, for integers of every width, variable-length integers, sequences, strings, maps, random generators and whole reproduction records. Decoding arbitrary bytes either yields a value, never reading beyond the given end, or fails with the documented serialization error and nothing else.",
 ["inputs"],"all values of each serializable type within the bound and all byte strings up to the bound, including every truncation of valid encodings",
 "Tests round-trip sampled values and a few truncations; the malformed-input half quantifies over arbitrary bytes, where length prefixes and terminators take adversarial values.",
 [I+"detail/Serialization.hpp","src/detail/Serialization.cpp",I+"Random.hpp","src/detail/StringSerialization.cpp"],
 [("fixed-width and compact integers, ranges",I+"detail/Serialization.hpp"),("generator state",I+"Random.hpp: serialize/deserialize"),("reproduction record","src/detail/StringSerialization.cpp")],
 (),["serialize/deserialize","stringToReproduceMap"])

p("C10","The printable reproduction encoding is lossless and total",
 "Encoding any byte string gives text that uses only the documented printable alphabet and decodes to the same bytes, and distinct byte strings have distinct encodings. Decoding arbitrary text yields bytes or the documented parse error, never an out-of-bounds access, and a reproduction map printed for the user parses back to an equal map while a corrupted string produces only documented errors.",
 ["inputs"],"all byte strings and all texts up to the bound",
 "Tests sample random byte vectors; every residue length combined with every byte value and every invalid character position needs exhaustive treatment.",
 ["src/detail/Base64.cpp","src/detail/StringSerialization.cpp"],
 [("codec","src/detail/Base64.cpp"),("map printing","src/detail/StringSerialization.cpp")],(),["base64Encode/base64Decode","reproduceMapToString/stringToReproduceMap"])

p("C11","Configuration strings parse back to the map that was printed",
 "Printing a map of settings with non-empty keys and parsing the text returns the identical map, whatever characters the keys and values contain, including quotes, backslashes, spaces and equals signs. Parsing arbitrary text terminates with a map or a parse error that carries a position inside or just at the end of the text, and never reads outside the text.",
 ["inputs"],"all keys, values and texts up to the bound, over all characters",
 "Tests sample maps of generated strings; quoting and escaping bugs hide in specific combinations of special characters and positions.",
 ["src/detail/MapParser.cpp"],
 [("escaping and quoting","src/detail/MapParser.cpp: quoteString/mapToString"),("parser","src/detail/MapParser.cpp: parseMap")],(),["parseMap","mapToString"])

p("C12","Configuration text round-trips and rejects every invalid setting",
 "Any configuration converted to text, in full or in minimal form, parses back to an equal configuration, and the minimal form mentions, apart from the seed, nothing that equals the default. Invalid values - negative counts or sizes, non-numbers, trailing characters, malformed reproduction strings - are rejected with a configuration error that names the key, never with any other error and never silently accepted; keys that are absent keep their defaults.",
 ["inputs","configurations"],"all field values of a configuration and all value texts up to the bound",
 "Tests round-trip sampled configurations and a few bad strings; numeric boundary values and arbitrary junk after numbers are not sampled.",
 ["src/detail/Configuration.cpp",I+"detail/Configuration.h","src/detail/TestParams.cpp"],
 [("map to configuration","src/detail/Configuration.cpp: configFromMap/loadParam"),("configuration to map","src/detail/Configuration.cpp: mapFromConfig")],(),["configFromString","configToString","configToMinimalString"])

p("C13","The search phase runs the promised number of cases and stops when it must",
 "Without failure exactly the configured number of non-discarded cases is run and success is reported with that count; the first failing case stops the search and is the one reported; the search gives up only once discards exceed the configured ratio times the configured number of successes. Sizes start at zero and, without discards, stay within the configured maximum and span it in order; they grow while discards continue rather than get stuck, and every case gets its own fresh random stream; listeners see every case exactly once.",
 ["inputs","configurations","histories"],"all outcome sequences (success, failure, discard) and all max_success, max_size and max_discard_ratio values within the bound, and all values of those for the size schedule",
 "Tests run a few fixed configurations; the accounting depends on arbitrary interleavings of successes and discards and on arithmetic over the whole range of parameters.",
 ["src/detail/Testing.cpp"],[("search loop","src/detail/Testing.cpp: searchProperty"),("size schedule","src/detail/Testing.cpp: sizeFor")],(),["searchProperty","testProperty"])

p("C14","The reported counterexample is a failing local minimum with a valid path",
 "Shrinking a failing case returns a case that really fails, none of whose direct shrinks fails (discarded shrinks do not count as failing), and the number of shrinks equals the length of the reported path. Following the reported path from the original failing case leads to the reported counterexample, with shrinking disabled the original case is reported unchanged, and every shrink attempt is announced to the listener exactly once with the right verdict.",
 ["inputs","programs"],"all small shrink trees and all assignments of outcomes to their nodes",
 "Tests use monotone predicates on integers; arbitrary (non-monotone, discarding) outcome assignments over trees are not covered.",
 ["src/detail/Testing.cpp",I+"shrinkable/Operations.hpp"],[("descent","src/detail/Testing.cpp: shrinkTestCase"),("path replay",I+"shrinkable/Operations.hpp: walkPath")],(),["shrinkTestCase","testProperty"])

p("C15","A reported failure reproduces to the same counterexample",
 "Feeding the reproduction data of a failed check back - directly or through its printed form in the configuration - re-runs the property on the identical counterexample with the identical description and shrink count. Reproduction data whose path does not exist, or under which the case no longer fails, is reported as an error instead of a wrong counterexample, and in reproduction mode properties without an entry are skipped.",
 ["inputs","programs"],"all random streams, all outcome functions of a small property, all shrink paths (also invalid ones)",
 "Tests reproduce a few hand-written failures; the statement quantifies over arbitrary properties, streams and shrink paths.",
 ["src/detail/Testing.cpp","src/Check.cpp","src/detail/ReproduceListener.cpp","src/detail/StringSerialization.cpp"],
 [("reproduction","src/detail/Testing.cpp: reproduceProperty"),("entry point","src/Check.cpp: checkTestable")],(),["rc::check","reproduceProperty"])

p("C16","Container generators produce what they promise, shrinks included",
 "Generated containers have the requested number of elements (fixed-size forms exactly, sized forms at most the size), every element is a possible output of the element generator drawn from a stream of its own, associative containers hold distinct keys, and unique containers hold pairwise distinct elements under the given key function. All this also holds for every shrink: fixed-size containers keep their size, unique ones stay unique, shrunk elements come from the element's own shrinks, every element shrink that keeps the container legal is offered, and shrink sequences stay usable after the generator is gone; when uniqueness cannot be met a generation failure is raised instead of looping forever.",
 ["inputs"],"all random streams, sizes and counts within the bound, all shrinks at depth one and two, for each supported container kind",
 "Tests sample generated containers; a duplicate slipping in after shrinking or a miscount on collisions depends on rare coincidences of element values.",
 [I+"gen/Container.hpp"],[("collection strategies",I+"gen/Container.hpp: *ContainerStrategy"),("container helpers",I+"gen/Container.hpp: ContainerHelper")],(),["gen::container","gen::unique","gen::uniqueBy","gen::arbitrary<Container>"])

p("C17","Selection and filtering generators only yield legal choices",
 "A filtered generator yields only values (and shrinks) that satisfy its predicate, retrying a bounded number of times at growing size before reporting a generation failure; selecting from elements or weighted alternatives yields only listed entries, never an entry of weight zero, and picks each with a frequency given by its weight over the draw. Size-dependent selection respects the size, choosing among generators delegates to one of them with the same size, an empty choice is a generation failure, and optional values shrink to absence first.",
 ["inputs"],"all random streams and sizes, all weights within the bound, all predicates on the generated value",
 "Tests sample; the boundaries between weights and the exact retry behaviour need all random words.",
 [I+"gen/Select.hpp",I+"gen/Predicate.hpp",I+"gen/Maybe.hpp","src/detail/FrequencyMap.cpp"],
 [("selection",I+"gen/Select.hpp"),("filtering",I+"gen/Predicate.hpp: suchThat"),("weights","src/detail/FrequencyMap.cpp")],(),["gen::elementOf","gen::weightedElement","gen::oneOf","gen::suchThat","gen::maybe"])

p("C18","Generated text contains no terminator and only shrinks to simpler text",
 "Characters produced for text are never the NUL character, neither directly nor in any shrink, so generated strings survive conversion to C strings; each string has at most as many characters as the size allows. Every shrink of a string is shorter, or of equal length and simpler in exactly one character.",
 ["inputs"],"all random streams and sizes, all shrinks of depth one and two",
 "Tests sample generated strings; the mapping from random bits to characters must avoid NUL for each word value.",
 [I+"gen/Text.hpp","src/gen/Text.cpp",I+"shrink/Shrink.hpp"],[("character generator",I+"gen/Text.hpp: CharacterGen"),("string generator",I+"gen/Text.hpp: StringGen")],(),["gen::character","gen::string"])

p("C19","Generators are pure: same stream and size, same shrink tree",
 "Invoking a generator - primitive or composed with map, tuple, pair, build, apply, mapcat, join, lazy, resize, scale, withSize, noShrink, cast, just - twice with equal random state and size yields the same value and the same shrinks, regardless of what was generated in between, and does not disturb the caller's random state. Composition obeys its meaning: components get independent streams, are generated at the prescribed size, mapped values are the function of the source value, and unshrinkable results have no shrinks.",
 ["inputs","programs"],"all random streams and sizes, all component values, all shrink positions",
 "Tests check individual combinators on samples; purity is a relation between two arbitrary runs.",
 [I+"gen/Transform.hpp",I+"gen/Tuple.hpp",I+"gen/Build.hpp",I+"Gen.hpp",I+"gen/Create.hpp"],[("combinators",I+"gen/Transform.hpp"),("tuples",I+"gen/Tuple.hpp"),("objects",I+"gen/Build.hpp")],(),["Gen::operator()"])

p("C20","Generation inside a test body shrinks each draw consistently",
 "A body that draws values imperatively produces a deterministic result for a given stream and size, whose shrinks replay the same body with exactly one earlier draw replaced by one of its shrinks, the draws before it staying as they are in all further shrinks and later draws being re-drawn deterministically from their own streams. Each recorded ingredient list names the values actually drawn in order, replaying the recipe gives the same result, and draws that change type or number under shrinking are handled without confusing values; drawing outside of a body, or while another draw is being generated, is refused.",
 ["inputs","programs"],"all random streams, all small bodies whose later draws depend on earlier values, all shrinks of depth one and two",
 "Tests use a few bodies and sampled streams; dependence of later draws on earlier ones under all shrinks is a quantification over programs and shrink positions.",
 [I+"gen/detail/ExecRaw.hpp","src/gen/detail/ExecHandler.cpp","src/gen/detail/Recipe.cpp",I+"gen/Exec.hpp"],[("recipe replay","src/gen/detail/ExecHandler.cpp"),("recipe shrinks",I+"gen/detail/ExecRaw.hpp: shrinkRecipe")],(),["gen::exec","gen::detail::execRaw"])

p("C21","A property's verdict follows from what its body did",
 "A body that returns normally, returns true, or an empty message counts as success; returning false or a non-empty message, failing an assertion or throwing any exception counts as failure with the corresponding message; discarding or failing to generate counts as discard. When several outcomes are reported in one case a discard outranks a failure and a failure outranks success, logged text, tags and counterexample values recorded in the case are all kept in order, and nothing leaks from one case into the next.",
 ["inputs","programs"],"all return values, thrown exceptions, and sequences of reported outcomes within the bound",
 "Tests exercise single outcomes; combinations and orders of several reports are not enumerated.",
 [I+"detail/Property.hpp","src/detail/Property.cpp","src/detail/Assertions.cpp",I+"Assertions.h"],[("outcome folding","src/detail/Property.cpp: AdapterContext"),("exception mapping",I+"detail/Property.hpp")],(),["toProperty","rc::check"])

p("C22","Generated command sequences are valid in every state, shrinks included",
 "Every command sequence produced for a model-based test, and every shrink of it, satisfies each command's precondition in the model state reached at that point, has at most one command more than the size and, before shrinking, at least one, and is derived deterministically from the random stream and size. Shrinks remove runs of commands or shrink single commands; a shrunk command whose precondition would fail is never offered, later commands are kept unless they have become invalid (then they are generated anew from their own stream or dropped), and a failure to find any valid command is reported as a generation failure rather than an invalid sequence.",
 ["inputs","programs","histories"],"all random streams, all small models with arbitrary preconditions, all shrinks of depth one and two",
 "Tests use a stack-like example with samples; preconditions invalidated by removing an earlier command depend on specific combinations.",
 [I+"state/gen/Commands.hpp",I+"state/gen/ExecCommands.hpp",I+"state/Commands.hpp"],[("generation and shrinking",I+"state/gen/Commands.hpp")],(),["state::gen::commands"])

p("C23","Running commands keeps model and system in lockstep",
 "Running a sequence executes every command exactly once and in order on the system, gives each command the model state reached by applying all earlier commands, and aborts the case as a discard before running the first command whose precondition does not hold. Whether a sequence is valid is decided exactly by folding the preconditions over the model, without changing the caller's model.",
 ["inputs","histories"],"all sequences up to the bound of commands with arbitrary parameters, all initial states",
 "Tests run sampled sequences against one example model.",
 [I+"state/Commands.hpp",I+"state/State.hpp",I+"state/Command.hpp"],[("run loop",I+"state/Commands.hpp: runAll"),("validity",I+"state/Commands.hpp: isValidSequence")],(),["state::runAll","state::isValidSequence","state::check"])

p("C24","Dynamically scoped settings restore exactly, whatever the exit path",
 "A scoped binding is visible to everything executed inside its scope and the previous value is restored on exit, whether the scope is left normally or by an exception, for any nesting. A barrier scope hides outer bindings until it ends and then exposes them unchanged; values written through a binding affect only that binding.",
 ["inputs","histories"],"all nestings and interleavings of bind, write, barrier and exit within the bound",
 "Tests cover a few fixed nestings; the stack discipline must hold for every sequence.",
 [I+"detail/ImplicitParam.hpp",I+"detail/ImplicitParam.h","src/detail/ImplicitParam.cpp"],[("binding stack",I+"detail/ImplicitParam.hpp"),("scope barrier","src/detail/ImplicitParam.cpp")],(),["ImplicitParam","ImplicitScope"])

p("C25","Option, variant and type-erased values behave like the values they hold",
 "Optional, variant and type-erased holders always contain exactly the value last put into them: copies are independent, moves transfer the value, assignment across alternatives destroys the old value and constructs the new one exactly once, and a throwing copy leaves the holder with a valid state. Equality, emptiness and type queries agree with the held value, and every constructed value is destroyed exactly once.",
 ["inputs","histories","fault_sequences"],"all sequences of construct, copy, move, assign, reset and swap operations up to the bound, and all points where a copy throws",
 "Tests check single operations; histories of operations and exceptions at arbitrary points are not enumerated.",
 [I+"detail/Variant.hpp",I+"Maybe.hpp",I+"detail/Any.hpp","src/detail/Any.cpp"],[("variant storage",I+"detail/Variant.hpp"),("optional storage",I+"Maybe.hpp"),("type erasure",I+"detail/Any.hpp")],(),["Maybe","Variant","Any"])

p("C26","Sequences, shrink trees and generators are safe first-class values",
 "Sequences, shrink trees and generators can be copied, moved, assigned (also to themselves and from empty or moved-from ones), stored and outlive everything they were built from, and each copy behaves as the original would have. No operation on them touches freed memory, releases shared state twice or leaks it.",
 ["inputs","histories"],"all operation histories up to the bound over a small pool of values of each kind",
 "Tests check single copies and moves; ownership errors need particular histories such as assigning from an empty value or using a sequence after its tree is gone.",
 [I+"Seq.hpp",I+"Shrinkable.hpp",I+"Gen.hpp"],[("clone on copy",I+"Seq.hpp"),("shared ownership",I+"Shrinkable.hpp"),("shared ownership",I+"Gen.hpp")],(),["Seq","Shrinkable","Gen"])

p("C27","Values are shown faithfully",
 "Printing a string shows it quoted with every unprintable or special character escaped, so that the text never contains raw control characters and reads back as the string; integers and characters print as decimal numbers, booleans, pairs, tuples, containers, pointers (also null ones) and optional values print as their documented literal form with the elements in iteration order. Printing leaves the value and the stream's formatting state unchanged for later output, and equal values print equally.",
 ["inputs"],"all strings and values up to the bound",
 "Tests compare selected strings; all characters at all positions are not covered.",
 [I+"Show.hpp","src/Show.cpp"],[("string escaping","src/Show.cpp: showValue"),("collections",I+"Show.hpp: showCollection")],(),["rc::show","rc::toString"])

p("C28","Reports state exactly what happened",
 "The final report of a check states the true number of tests run, the number of shrinks, the falsifying values in generation order, the failure description and reproduction data, and lists each tag with its percentage of all successful tests, most frequent first. Combined listeners forward every event to every listener once and in order, and the reproduction listener emits exactly the failed properties that can be reproduced.",
 ["inputs","histories"],"all results with counts and texts within the bound, all event sequences up to the bound",
 "Tests compare a few fixed results.",
 ["src/detail/Results.cpp","src/detail/LogTestListener.cpp","src/detail/MulticastTestListener.cpp","src/detail/ReproduceListener.cpp"],[("printing","src/detail/Results.cpp"),("fan-out","src/detail/MulticastTestListener.cpp")],(),["printResultMessage","TestListener"])

p("C29","Assertion macros test their condition once and report both sides",
 "Each assertion or precondition macro evaluates its expression exactly once, lets the case continue exactly when the condition holds (or, for the throwing forms, when the expected exception is thrown), and otherwise ends the case with the matching verdict. The message names the source expression together with the evaluated operands of a comparison.",
 ["inputs"],"all operand values and all exception behaviours of the asserted expression",
 "Tests use selected operands.",
 [I+"Assertions.h",I+"Assertions.hpp","src/detail/Assertions.cpp",I+"detail/Capture.h"],[("macros",I+"Assertions.h"),("expression capture",I+"detail/Capture.h")],(),["RC_ASSERT","RC_PRE","RC_FAIL","RC_ASSERT_THROWS_AS"])

p("C30","Shared generators and shrink trees may be used from several threads",
 "Copying and destroying the same generator or shrink tree concurrently from several threads never frees it while a copy is alive, and frees it exactly once when the last copy goes away.",
 ["schedules"],"all interleavings of copy and destroy operations of two to three threads",
 "Tests are single-threaded.",
 [I+"Shrinkable.hpp",I+"Gen.hpp"],[("atomic reference count",I+"Shrinkable.hpp: retain/release"),("atomic reference count",I+"Gen.hpp: retain/release")],(),["Gen","Shrinkable"])

p("C31","Test framework adapters fail the host test exactly when the property fails",
 "Declaring a property through one of the bundled test framework adapters fails the host framework's test if and only if the property check does not succeed, and assertion failures of the host framework inside the body count as property failures.",
 ["inputs","programs"],"all properties and outcomes",
 "The adapters' tests run a few fixed properties.",
 ["extras/gtest/include/rapidcheck/gtest.h","extras/gmock/include/rapidcheck/gmock.h","extras/catch/include/rapidcheck/catch.h","extras/doctest/include/rapidcheck/doctest.h","extras/boost_test/include/rapidcheck/boost_test.h"],
 [("adapters","extras/*/include/rapidcheck/*.h")],(),["RC_GTEST_PROP","rc::prop"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
