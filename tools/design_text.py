# How each property is decided: what is symbolic, and against which oracle.
HOW = {
'C01': 'A key, a split path and a position are symbolic; the words drawn are compared with an independent implementation of Threefish-256 (key, path, counter). The block cipher itself is uninterpreted where only its input matters (equal inputs give equal outputs, and different positions must give different inputs), so the equality does not hinge on unrolling 72 rounds in the solver. Positions near the wrap of the counter and after re-keying are reached by decoding, with every path register and counter value.',
'C02': 'Eight symbolic source words behind a recording source; each draw is compared with the corresponding bits of the concatenation of the words, and the number of words consumed with the number needed. The offset inside the word is made symbolic by a first draw, so every state of the stream is covered.',
'C03': 'Range ends, the size and the random words are symbolic; membership, the origin at size zero, the predicate of each generator and of its shrinks are asserted. Monotonicity and reachability are stated existentially by construction: for an arbitrary value that one size reaches, an explicit word is computed for which the larger size gives it, and the real generator is run on that word.',
'C04': 'Value and target are symbolic at full width; the complete candidate list is walked and compared with the facts in the statement. The greedy descent is executed with a symbolic boundary.',
'C05': 'The value is a symbolic bit pattern (IEEE semantics of Z3 floats), and every candidate is compared with it as bits and as numbers. Generation runs on two symbolic words.',
'C06': 'Elements, and the shrink function of elements, are symbolic; the list of candidates is compared with the list computed from the statement (runs by decreasing length; single replacements), and "every single step is offered" is a search in that list.',
'C07': 'Explicit trees with symbolic values are the oracle; the real operation is applied to the lazy tree and the result read back and compared node by node. Paths and indices are symbolic.',
'C08': 'Each combinator is applied to the sequence and, by a one-line list function, to a vector; contents, end and copies at each position are compared. Elements, predicate and arguments are symbolic, the pipeline is chosen by the solver.',
'C09': 'decode(encode(x)) = x with symbolic x and symbolic bytes behind it, and decoding of an exactly sized block of symbolic bytes: every read past the end is a memory violation, every exception but the documented one a failure.',
'C10': 'Round trip and alphabet for symbolic bytes; decoding and map parsing of symbolic text in an exactly sized buffer; a printed map with an arbitrary character at an arbitrary position replaced.',
'C11': 'parse(print(m)) = m for symbolic keys and values in both quoting styles; symbolic text is parsed from an exactly sized buffer, with the error position checked.',
'C12': 'Symbolic configurations are printed and parsed; for each setting symbolic text is compared with an oracle that recognises the valid texts by their grammar.',
'C13': 'The verdict of every invocation of the property is symbolic (success, failure, discard); a small reference loop predicts the number of cases, which one is reported, when the search gives up. Limits are symbolic numbers, sizes are recorded and compared with the promised range and growth, streams with the splits of the seed.',
'C14': 'A tree whose verdicts are symbolic and decided when first looked at; afterwards the reported case, its shrinks, the path and the announced attempts are checked against the decisions made.',
'C15': 'A property over real generators with symbolic random words fails, and is run again from the returned data in each of its forms; results must be equal. Paths and verdicts that do not fit are symbolic.',
'C16': 'Keys and the words that decide lengths are symbolic; elements remember the draw they stem from. The list of shrinks is checked both ways: everything offered is legal, everything legal in the sense of the statement is offered.',
'C17': 'Symbolic lists, weights, words and filters; the frequency is decided by running the real selection on every draw of one full round and counting. Retries are counted with a predicate that rejects.',
'C18': 'Symbolic words; generated text, its complete shrink list and its shrinks; fixed-point facts about single characters for every value of the type.',
'C19': 'A generator is invoked twice with other generation in between, and the two trees are compared; the composition is compared with a model that calls the components on the prescribed stream and size. Random words are symbolic.',
'C20': 'Bodies are written once against an abstract source of draws and run both on the real implementation and on a model (a list of recorded draws with their streams); the trees are compared, ingredients and recipes included.',
'C21': 'The body is a sequence of symbolic outcomes, texts are symbolic; the result is compared with the ranking in the statement.',
'C22': 'The model is an arbitrary transition system: tables for preconditions and effects are symbolic and decided when first looked up; generated sequences and shrinks are checked against the tables and a model of the sequence with its streams.',
'C23': 'States, effects and limits are symbolic; the log of calls on the system is compared with the fold over the model.',
'C24': 'Histories of operations are symbolic; a list of frames is the oracle for every read.',
'C25': 'Histories of operations on two holders are symbolic; held objects count their lifetimes, know their address and throw on a chosen copy. The oracle is a pair of plain values.',
'C26': 'As C25 for the type-erased lazy values: histories, throwing functors, and live-object counts at the end; memory errors are found by the engine.',
'C27': 'Symbolic strings are shown and read back by a reference reader; literal forms are compared with the expected text; the stream state before and after is compared.',
'C28': 'Symbolic counts, tags, texts and events; the text of a report is parsed back and compared with the data, the calls of listeners with the events sent.',
'C29': 'Operands count their evaluations; conditions over symbolic operands are compared with the built-in result, the reported text with the expected one.',
'C30': 'See "Threads" above. The programs of the threads and the schedule are symbolic choices.',
'C31': 'The adapters are compiled against stand-ins of the frameworks that record what they are told; the outcome of every case is symbolic, the verdict of the host is compared with the one that follows from the outcomes.',
}
