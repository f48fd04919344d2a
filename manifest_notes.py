NA={}
G="Unbounded: every obligation is discharged for all inputs, loops by inductive invariants. Trusts the condition generator in /verif/gover (go/ssa semantics), the Go front end and the SMT solvers. "
N={p:G for p in props}
N["C01"]=G+"Panics, slice bounds, termination measures and the protocol clauses are obligations; LookupFirstChar enters by its contract, the state machine is inlined. Stack and memory exhaustion are outside."
N["C02"]=G+"The concatenation of the tokens follows from the clauses by induction on the input: theorem concatenation of lemmas/Tokens.lean, checked by Lean on every run."
N["C10"]=G+"A ghost position q stands for any character inside the token."
N["C12"]=G+"The summary of LookupFirstChar computed from the source is evaluated on all 1,112,064 scalar values, with a proof that the result depends on the character's own bytes only. Expected classes come from the Unicode 17.0.0 files, compiled into data/classes.txt."
two="The scan is composed with a second run of itself over a shared buffer; both loops get inductive invariants and LookupFirstChar enters by its relational contract. "
N["C03"]=G+two+"From one token to the whole stream, however it is divided into reads: theorem stream of lemmas/Tokens.lean, checked by Lean on every run."
N["C04"]=G+two
N["C05"]=G+two+"Frame obligations show that only the run's own memory is written, and no goroutine, lock or package variable is used, so calls cannot interfere."
N["C11"]=G+two+"From one call to the whole text: theorem malformed of lemmas/Tokens.lean, checked by Lean on every run."
w="The scanner's loop is walked against an executable specification of UAX #29 for each reachable pair of machine state and text history; the specification is restarted at a boundary by a lemma proved over its finite automaton. The Unicode 17.0.0 classes are data/classes.txt. "
N["C06"]=G+w+"From one cluster to the whole text: theorem boundaries of lemmas/Tokens.lean, checked by Lean on every run."
for c in ("C07","C08","C09"): N[c]=G+w+"From one cluster to the whole text: theorem one_rule of lemmas/Tokens.lean, checked by Lean on every run. Texts with malformed bytes follow through C11, which splits them into valid texts."
N["C13"]=G+"The state machine's reachable set is closed under every class of character, by solver enumeration over its own state values, next to an executable specification of UAX #29."
N["C16"]=G
N["C17"]=G+"Build constraints are read from the files and proved over all releases from 1.17 on and all other tags; for the installed releases (1.25, 1.26, 1.27) the constant and the call are proved on the SSA the go command compiles. Unicode versions of 1.21 and 1.22 are a table."
N["C18"]=G+"TokenCount and AllTokens are proved against a contract of bufio.Scanner (each Scan splits the buffer by the split function until error or end) for every split function and every buffer, on go1.27, go1.26 and go1.25. bufio.Scanner itself is not verified."
N["C15"]=G+"Lines come from bufio.Scanner by an assumed contract; bytes/strings searching and trimming and strconv.ParseUint are uninterpreted functions with their documented properties. The grammar of a line is contracts/textseg.go's isdata, first, last, fieldsof."

L={}
N["C14"]=G+"Set, BitwiseOr, newTreeInProgress, Compact with its recursive part, and BuildRawPropertyTree are under contract: any tree, any character, any value, any contents of the three files. NextEntry and the field functions enter by the contracts of C15, the name functions by those of C16; os.Open and path joining are assumed as documented, as is that the files assign nothing to surrogates. That the numbers of blocks fit 16 bits is assumed by counting. Should a changed Compact or BuildRawPropertyTree not bind to its contract, a bounded native check stands in for it and is labelled so."
