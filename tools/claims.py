TECH = {"default": "static analysis: guarded effect summaries (path-sensitive dataflow) judged against decision tables",
 "C03": "static analysis: constant propagation with unknown bytes (cell provenance) over encoders and decoders, compared with the wire layouts",
 "C04": "static analysis: constant propagation over the property table and the code that uses it, with unknown values, compared with the standard's table",
 "C05": "static analysis: constant propagation over the reason code tables and their uses, compared with the standard's table",
 "C08": "static analysis: constant propagation with nondeterministic socket models over the framing code",
 "C01": "static analysis: byte layouts of encoders' and decoders' path summaries, with bit provenance, compared with the wire formats",
 "C02": "static analysis: byte layouts of encoders' and decoders' path summaries, with bit provenance, compared with the wire formats",
 "C06": "static analysis: interval and bit-provenance analysis of the field coders' path summaries",
 "C07": "static analysis: decoders' acceptance and refusal conditions per path, compared with the standard's well-formedness",
 "C09": "static analysis: interprocedural lock-depth dataflow with an effect analysis of the shared state",
 "C26": "static analysis: dispatch completeness and interface (name and arity) analysis over the resolved program",
 "C30": "static analysis: constant propagation over the test driver with symbolic packets and logs",
 "C35": "static analysis: automata built from the syntax tree's regular expressions and matching code, compared with the reference language; constant propagation over topic shapes",
 "C28": "static analysis: constant propagation with nondeterministic socket models over the proxies",
 "C29": "static analysis: constant propagation of the options from command line and configuration file to their uses",
}
NOTE = {"default": "Every class of paths of the functions named in the evidence is judged, for all inputs, states and option values consistent with the stated guards; loops are summarised per iteration. Trusted: the model of Python and of the standard library used by the abstract interpreter, distinct names denoting distinct objects unless an assignment says otherwise, and the guards that set the documented test-hook topics aside."}
NA = {
"C36": "Bounds on elapsed time (how soon the timer thread runs, how long a send blocks) depend on the scheduler, the network and the peer: no sound argument from the source text bounds them.",
"C37": "Quantifies over all behaviours of a correct broker against an informal standard; the models are executed by a driver against live systems, and there is no formal oracle in the repository to compare their text with.",
}
