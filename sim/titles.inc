#define T_P01 "Every epoch's value function is one exact step from the previous one"
#define T_P02 "No solution holds superfluous or duplicate vectors"
#define T_P03 "The policy graph written beside a solution implements exactly that solution"
#define T_P04 "An interrupt at any point ends the run with a valid solution of completed epochs"
#define T_P05 "A time limit ends the run on time and keeps the completed epochs"
#define T_P06 "After a crash at any point, the last completed solution can be recovered"
#define T_P07 "A run continued from a saved value function equals an uninterrupted one"
#define T_P08 "Failed writes are reported and never destroy or fake a result"
#define T_P09 "Unreadable or damaged input is refused without harm"
#define T_P10 "Running out of memory at any point ends the run cleanly"
#define T_P11 "Same model, options and seed: same results, whatever the surroundings"
#define T_P12 "Clock jumps and failing clocks change no result and end no run"
#define T_P13 "Runs side by side and leftovers of dead runs do not disturb each other"
#define T_P14 "The files of every epoch are those of a shorter run"
#define T_P15 "The report tells the truth about sizes, differences, times and why it stopped"
#define T_P16 "Variations of value iteration stay within their guarantees"
#define T_P17 "The grid method is exact at its grid points and never promises too much"
#define T_P18 "The report goes completely to the chosen report file, or visibly elsewhere"
#define T_P19 "The solution tools sort, purge, compare and map exactly as documented"
#define T_P20 "Policy graph evaluation and relinking give the graph's true value and links"
#define T_P21 "Options mean the same in a file and on the command line, bad ones are refused"
#define T_P22 "Equivalent ways of writing a model give the same solution"
#define T_P23 "The belief service answers every line with the right belief, at once"
#define T_P24 "A run that stops by itself is as close to optimal as its precision says"
#define T_P25 "Every run ends, within a bounded amount of work"
#define T_P26 "Runs of any kind neither corrupt memory nor accumulate memory or descriptors"
