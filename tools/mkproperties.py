import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
SEAM="a producer of symbols that the simulator controls (src/sim.rs, behind cfg(clarith_sim))"
H="src/strategy/homographic.rs";C="src/strategy/combine.rs";R="src/strategy/ratio.rs";S="src/strategy/support.rs";L="src/lib.rs";CM="src/compare.rs";CO="src/strategy/consume.rs"
p("C01","Every symbol of a live one-operand result is exact",
 "A number obtained as (nx·x+n)/(dx·x+d) from a live number x delivers, pull by pull, exactly the canonical symbols of its true value, also when x is endless, is itself a chain of such results, is already partly pulled, or has its producer replaced while it is being read. A wrong special value, leading transformation, symbol or early or late end is never delivered. Where no finite value exists (a pole, or 0/0) no number is delivered at all. Every call returns, and while magnitudes are small it succeeds.",
 ["schedules","fault_sequences","inputs"],"all operand streams (finite and endless), all small to middling coefficients, all pull schedules, points of re-use and producer replacements",
 "The tests compare finished results for eleven fixed rationals; no test reads an endless operand, stops half way, re-uses a partly read number, or looks at individual symbols of an operation.",
 [H,R,S,L],[("symbols are emitted only once the image of the operand's interval settles them",H),("hand-over to a plain ratio when the operand ends",H)],["symbols delivered by the result","what construction delivers or refuses"],SEAM,
 [("nx,n,dx,d","the transformation still to be applied to the unread operand",H)])
p("C02","Every symbol of a live two-operand result is exact",
 "A number obtained from two live numbers x and y as (nxy·xy+nx·x+ny·y+n)/(dxy·xy+dx·x+dy·y+d) delivers, pull by pull, exactly the canonical symbols of its true value, whichever operand ends first or never, also when operands are themselves such results, are partly pulled already, or have their producers replaced while being read. A wrong special value, leading transformation, symbol or end is never delivered. Where no finite value exists no number is delivered at all. Every call returns, and while magnitudes are small it succeeds.",
 ["schedules","fault_sequences","inputs"],"all pairs of operand streams, coefficients of small to middling size, order of ending, pull schedules and producer replacements",
 "The tests add, subtract, multiply and divide eleven fixed rationals and compare end results; mixed finite and endless operands, general coefficients and nested live operands are never exercised.",
 [C,H,R,S],[("emission only when all four corners of the operand box agree",C),("hand-over to the one-operand form when either operand ends",C)],["symbols delivered by the result","what construction delivers or refuses"],SEAM,
 [("a..h","the bilinear transformation still to be applied to the unread operands",C)])
p("C03","Comparison orders live numbers right and reads no further than needed",
 "Comparing two live numbers gives the true order of their values, including equality of finite ones, whatever produces them and however much of them was already read. It finishes whenever the numbers differ or both are finite, and does not fail while magnitudes are small. It reads each number no further than the first symbol in which they differ, and not at all when their leading transformations or special values already decide.",
 ["schedules","inputs","histories"],"all pairs of live numbers, above all near twins that agree on long prefixes, finite against endless, and numbers of different leading transformation",
 "The tests compare eleven fixed finite rationals; reading behaviour and endless operands are invisible to them.",
 [CM],[("lexicographic comparison with alternating polarity",CM)],["the returned order","pulls on the edges of both numbers"],SEAM)
p("C04","Consuming a live number loses and invents nothing",
 "Consuming a number x returns coefficients and a rest y with (ny·y+n)/(dy·y+d) equal to x, or, without a rest, coefficients whose value at one half is x; this holds at any point of a number's life, for endless numbers (where consuming comes to an end too), and repeatedly on the rest. Consuming succeeds while the magnitudes behind x are small. A rest is handed back only when the coefficients have grown near the end of the integer range. No symbol is dropped, duplicated or read twice at the boundary between coefficients and rest.",
 ["histories","inputs","schedules"],"all live numbers, all instants in their life, repeated consumption, all producers",
 "One active test consumes one fixed rational; the only test that leaves a rest is ignored.",
 [CO,L],[("coefficients are checked against a quarter of the integer range after every symbol",CO)],["returned coefficients","symbols of the rest"],SEAM)
p("C05","Running out of machine integers stops loudly, never wrongly",
 "When intermediate magnitudes exceed machine integers the call panics; it never delivers a wrong symbol, order, coefficient or number, never hangs, and never silently wraps, also when it is used on after such a panic, both in builds with and without overflow checks. The ratio of any two machine integers (other than by zero) is accepted, including the most negative one.",
 ["inputs","configurations","fault_sequences"],"coefficients and operands at and around the ends of the integer range, both build configurations, every instant of a stream at which the range runs out",
 "Tests run in one build configuration with tiny coefficients; the few tests near the range are ignored.",
 [H,C,R,S,CO,L],[("checked arithmetic",H),("checked arithmetic",C)],["symbols, orders and coefficients delivered","whether the call returns"],SEAM)
p("C06","Neither a failure nor what follows it yields anything wrong",
 "If a producer of an operand fails, or integers run out, the call in progress fails or still delivers what is right: a failure is never taken for an end or a symbol. If the caller carries on, every later pull of that number, and every comparison, consumption or operation made of it, either fails again or is right. No symbol is skipped, repeated or invented, no premature end reported, and no call fails to return.",
 ["fault_sequences","crash_points","schedules"],"all networks, all instants of failure at every edge, any number of failures, any number of later pulls",
 "No test continues after a failure; the should_panic tests end there.",
 [L,H,C],[("a number that failed in the middle of a pull refuses further pulls","src/lib.rs")],["symbols delivered after a failure"],SEAM)
p("C07","Computations do not influence one another",
 "What a number delivers depends only on its own operands and the pulls made on it: computations interleaved on one thread, started from inside a producer while a pull is in flight, or running on other threads, each deliver the same observations, in the same order, as when running alone. Neither how many other numbers exist, nor what the process computed before, nor whether any of that failed, makes a difference.",
 ["schedules","histories"],"all interleavings of several computations at pull granularity, re-entrant computations at any pull, all thread schedules at pull granularity, all earlier histories of the process",
 "Every test is a single computation; nothing interleaves.",
 [L,H,C,R,CM,CO],[("no shared mutable state: every number owns its operands",L)],["observations of each computation, alone and together"],SEAM)
p("C08","Operands are read on demand, in step, and never past their end",
 "A one-operand result reads an operand symbol only while its own next symbol is not yet determined by what was read (at its making: its special value or leading transformation, where all values still possible are finite); a two-operand result reads its operands alternately, and at most three symbols beyond what determines its next symbol. A producer is never asked again after it reported its end. Dropping a number reads nothing.",
 ["schedules","histories"],"all networks with every edge observed, every pull of their life, every instant of abandonment",
 "Tests look only at values; how far operands are read is invisible to them.",
 [H,C,CM],[("emit before ingest at every pull",H),("alternate ingestion of x and y",C)],["pulls on every edge"],SEAM)
p("C09","The library leaves the process alone",
 "Library calls write nothing to standard output, standard error (a panic's message apart) or any file, read no input, touch no file, directory or socket, start no thread or process, do not sleep, send no signal, read neither clock nor environment nor change it, and leave the program's panic hook and signal handlers alone. Results and the success of calls do not depend on the state of the standard streams (closed, full, broken pipe, interrupted or short writes) or on the clock.",
 ["fault_sequences","configurations"],"all library operations under all states of the standard streams and jumping clocks",
 "The test runner captures standard output, so writes and failing writes stay invisible.",
 [H,C,R,L,CM,CO],[("pure computation",L)],["system calls made while library code runs","observations under healthy and faulty streams"],None)
p("C10","The end of a sequence is final",
 "Once a number has reported the end of its symbol sequence, every later pull reports the end again, succeeds, and reads no operand.",
 ["histories","schedules"],"all finite live numbers, whatever produces them, any number of later pulls",
 "Tests stop at the first end.",
 [L,R,H,C],[("one half stays one half",R)],["pulls after the end","edges below"],SEAM)
p("C11","Computations with room in the integers neither fail nor stall",
 "No construction, pull, comparison or consumption of a number with a finite value fails while coefficients are small and few operand symbols were read (together under about 26 bits), nor, at any magnitude, while each operation's exact coefficients over the symbols read keep the products needed to order the ends of its range within 52 of the machine's 63 bits; an endless number passed through unchanged can be pulled for ever. Every call returns within a bounded number of operand pulls (it delivers or it fails), save comparing equal endless numbers.",
 ["schedules","inputs","histories"],"all networks whose coefficients leave room, finite and endless operands, all pull schedules",
 "Tests cover eleven rationals; endless operands, where a stall is possible, do not occur.",
 [H,C,R],[("emission keeps coefficients small",H)],["success of calls","operand pulls per call"],SEAM)
p("C12","The demonstration program prints the exact table or fails loudly",
 "The program writes, for each number of its table, exactly its label and canonical symbols, whatever the writes' granularity, however often they are interrupted, and whatever its arguments, environment, input, clock and kind of output (pipe, file, terminal). If its output cannot be written in full it ends with a failure status, and what was written until then is a prefix of the right output.",
 ["fault_sequences","crash_points"],"all sequences of short and interrupted writes, and a permanent failure at every write, in different surroundings",
 "The program has no test at all.",
 ["src/main.rs",R],[("print macros panic on errors","src/main.rs")],["bytes on standard output","exit status"],None)
p("C13","Abandoned, failed or finished numbers release everything",
 "Dropping a number at any instant of its life, also after failures, releases every operand exactly once and all memory the library allocated for it. While a number is streamed for thousands of symbols the memory it holds does not grow.",
 ["crash_points","histories","fault_sequences"],"all networks, all instants of abandonment, failures at any pull, long streams",
 "No test observes memory or the release of operands.",
 [L,C,H],[("ownership of operands",L),("operands are moved out when a strategy is replaced",C)],["allocator","release of simulated producers"],SEAM)
p("C14","Results do not depend on how operands are produced",
 "An operand can be replaced by any other producer of the same value — a ratio in other terms, the result of operations undone again, operands exchanged or coefficients scaled, a producer that is replaced in mid-stream any number of times — and every observation of the result stays the same, as long as neither version runs out of integers; mere replacement of producers does not change even that.",
 ["schedules","fault_sequences","programs"],"all networks and all ways of producing the same operands",
 "Tests feed ratios only; operations on results of operations occur in a handful of cases.",
 [L,H,C,R],[("strategy replacement inside a pull",L)],["observations of consumers"],SEAM)
p("C15","A ratio of integers is encoded canonically",
 "The number made from two machine integers has exactly the canonical symbol sequence of their quotient, and terms need not be lowest.",
 ["inputs"],"all pairs of machine integers",
 "Tests cover eleven quotients.",
 [R],[("halving and subtraction",R)],["symbols delivered"],None)
p("C16","Comparison is a total order on ratios",
 "On numbers made from integer pairs, comparison is reflexive, antisymmetric, transitive and total.",
 ["inputs"],"all triples of integer pairs",
 "Tests cover eleven quotients pairwise.",
 [CM],[("lexicographic comparison with alternating polarity",CM)],["the returned order"],None)
p("C17","Numbers cannot be shared between threads by mistake",
 "A program that sends or shares a live number across threads does not compile.",
 ["programs"],"all client programs",
 "A compile failure is not observable from a running test.",
 [L],[("numbers own boxed producers without thread markers",L)],["the compiler's verdict"],None)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
