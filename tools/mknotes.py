import json
EX="TLA+ specification explored exhaustively by TLC; every generated case replayed into the code and its answer validated by TLC"
T="The specification (Tables, rules) and the projection of the driver are trusted; exhaustive within the stated bounds, sampled beyond them."
N={
'C01':["TLA+/TLC lexer and parser automata, exhaustive lines and words replayed and validated",T],
'C02':["TLA+/TLC parser automaton, exhaustive word sequences of every table replayed and validated",T],
'C03':["TLA+/TLC rendering machine generates all spellings of an invocation; answers compared by TLC",T],
'C04':["TLA+/TLC role rules, exhaustive small invocations replayed and validated",T],
'C05':["TLA+/TLC stream rules, exhaustive small invocations replayed and validated",T],
'C06':["TLA+/TLC option rules, exhaustive small invocations replayed and validated",T],
'C07':["TLA+/TLC application rules, exhaustive small invocations replayed and validated",T],
'C08':["TLA+/TLC refusal rules, exhaustive small and malformed invocations replayed and validated",T],
'C09':["TLA+/TLC dataflow model: recorded plans run on all small inputs, splits and evaluation orders","Command semantics in Dataflow.tla are a model, itself validated against the real binaries where installed."],
'C10':["TLA+/TLC plan rules, exhaustive small invocations replayed and validated",T],
'C11':["TLA+/TLC plan rules and permutation model of commutative commands; answers validated",T],
'C12':["TLA+/TLC instantiation machine; generated behaviours replayed and validated step by step",T],
'C13':["TLA+/TLC instantiation machine; generated behaviours replayed and validated step by step",T],
'C14':["TLA+/TLC edit machine; generated edit histories replayed and validated step by step",T],
'C15':["TLA+/TLC transformer machine; generated transformers and lists replayed and validated",T],
'C16':["TLA+/TLC session machine; generated histories of calls and mutations replayed and validated",T],
'C17':["TLA+/TLC file-system machine with an adversary; generated schedules replayed into the real tool",T],
'C18':["TLA+/TLC converter automaton; generated option lines replayed and validated",T],
'C19':["TLA+/TLC table invariants; real tables validated against the specified ones",T],
'C20':["TLA+/TLC structural equality; all pairs of generated values compared by the code and validated",T],
}
json.dump(N, open('/verif/tools/notes.json','w'), indent=1)
