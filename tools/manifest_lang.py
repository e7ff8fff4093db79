LT = 'TLA+ specification checked with TLC; recorded answers of the real parser, evaluator, display and exporter validated against the grammar of the specification (LangTrace)'
ST = 'TLA+ specification checked with TLC; recorded session and playground histories validated against it (SessionTrace)'
L = {
 'C11': (LT, 'Lexical models enumerate all short numbers, radix literals, strings, words and slots; all are replayed, together with generated literals of up to 1500 characters, and each tree is compared with the one the TLA+ grammar gives.'),
 'C12': (LT, 'Grouping model with an independent definition of precedence (weakest operator splits) checked against the grammar for all short token sequences, two wrong designs refuted; all and generated expressions with up to 40 operators replayed and their trees compared in TLC.'),
 'C13': (LT, 'Call model (argument accounting) checked for all small calls, dot chains, subscripts and lists, two wrong designs refuted; those and generated nestings, with up to 30 arguments, replayed and compared in TLC.'),
 'C14': (LT, 'Layout model: every placement of layout between separable tokens gives the compact tree, the loose design refuted; those and generated texts with layout and comments replayed and compared in TLC.'),
 'C15': (LT, 'Display model: for every operator tree up to the bound the minimal-parentheses text parses back to that tree, two wrong designs refuted; the displayed text of the real code is recorded, parsed by the TLA+ grammar and by the real parser, and both trees compared.'),
 'C16': (LT, 'Evaluator relation over exact limb arithmetic checked for determinism on small inputs, wrong power refuted; every recorded answer and last output of a fresh session compared with the relation. Resource exhaustion by huge results is not claimed.'),
 'C17': (ST, 'Session and clone designs checked with invariants, four wrong designs refuted; all histories of the model and long random ones run against the real session and each step compared with the answer of a fresh session, itself judged by the evaluator relation.'),
 'C18': (LT + '; playground histories against SessionTrace', 'Token sequences of the model, generated, mutated and random texts run through parser, session and playground (sequentially and concurrently): a panic, hang or process death is rejected, as is an answer where the grammar has none. Deep nesting beyond about 24 levels is not claimed.'),
 'C19': (LT, 'Export relation checked for injectivity on small trees, three wrong designs refuted; the Wolfram tree recorded for every model and generated text compared with the relation in TLC.'),
 'C20': ('TLA+ specification checked with TLC; recorded conversions of files validated against it (FileTrace)', 'File system model of a conversion (read, parse, create, write) checked against its contract and for termination, three wrong designs refuted; all histories of the model and generated ones run in a scratch directory and every file after every step compared with the relation. Destinations that can be opened but not written are judged only for the error and the other files.'),
 'C21': ('TLA+ specification checked with TLC; recorded answers about trees validated against it (QueryTrace)', 'Queries model over small trees (hand-built ones included), a wrong head refuted; heads, characters, factorials and Fibonacci numbers of model and generated trees compared in TLC (residues for large results).'),
 'C22': ('TLA+ specification checked with TLC; recorded TeX forms validated against it (QueryTrace)', 'TeX relation checked to show every argument of small trees, two wrong designs refuted; TeX of model and generated trees compared in TLC. Prefix and suffix operators, options, paths and subtract, divide and power are not claimed.'),
 'C23': (LT, 'The grammar and the evaluator relation give the set of causes of every failure; the error of every failing input, alone, in the session and as the last output, must be one of them.'),
 'C24': ('TLA+ specification checked with TLC; recorded node positions validated against it (PlaceTrace)', 'The text between the two positions of every recorded node is parsed by the TLA+ grammar and must denote that node; texts of the models and generated ones with layout, comments and multi-byte characters.'),
}
