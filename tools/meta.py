prop("C01", "Scanning splits any text into exactly the language's tokens",
     "Any source text is either rejected as incomplete - exactly when a "
     "string, character, pattern, escaped-string literal or block comment is "
     "left open - or split into tokens that appear in it in order, each of "
     "the right kind and maximal for its kind (runs of capitals split into "
     "pairs after an odd first letter, PIP whole, EI read as EL then I, the "
     "longest operator first). Between tokens there is only whitespace, "
     "comments, the reserved letter j and characters no token starts with, "
     "all of which are skipped.",
     "every source text", NOTEST + "all source texts.",
     ["scanning.py", "tokens.py", "operators.py"],
     [("tokenize", "scanning.py:tokenize"),
      ("token classification", "scanning.py:newToken")])
prop("C02", "Comments and layout never change what a program means",
     "Putting any whitespace, block comment {;...;}, comment after two "
     "spaces, or comment line starting with ; between two tokens gives the "
     "same tokens as a single space, whatever the comment says. Texts on "
     "separate lines scan independently of each other, and the value of a "
     "program does not depend on its comments.",
     "every pair of tokens or texts, every comment text",
     NOTEST + "all comment texts and surrounding tokens.",
     ["scanning.py"], [("comment and whitespace rules",
                        "scanning.py:tokenize")])
prop("C03", "Operators group by precedence, associativity and chaining",
     "An expression groups as its operators' precedences dictate, for any "
     "assignment of precedences: tighter operators first, equal ones by "
     "their associativity, neighbouring comparisons in one chain, a unary "
     "operator over everything that binds tighter than it, the middle of a "
     "ternary as a whole expression, brackets first. An operator followed by "
     "the : meta-operator groups like assignment. Every operator of the "
     "language sits at its established precedence level.",
     "every sequence of operators and every assignment of precedences",
     NOTEST + "all operator sequences.",
     ["parsing.py", "operators.py"],
     [("precedence parser", "parsing.py:parseExpr, bubble"),
      ("precedence table", "operators.py:precedenceTable")],
     ("programs",))
prop("C04", "Parsing accepts the grammar; else it says bad or incomplete",
     "Every token sequence either parses or is reported as a syntax error, "
     "never another kind of failure: incomplete when the input ends too "
     "early, bad when a token cannot continue it. Which of the three it is "
     "follows the grammar of statements, blocks, for-headers, "
     "expressions, meta-operators and brackets; and a program that can still "
     "be completed is never reported as bad.",
     "every token sequence", NOTEST + "all token sequences.",
     ["parsing.py"], [("recursive-descent parser", "parsing.py:parse, "
                       "parseStatement, parseOperand, parseNameList")],
     ("programs",))
prop("C05", "The repr of a value evaluates back to the same value",
     "Evaluating the program text that repr shows (RP, the -p flag) gives "
     "the value it was made from, for every string, number, nil, range, "
     "pattern with flags, and nested list of these. The repr of a function "
     "or lambda is a function with the same body, whatever literals, "
     "operators, meta-operators, statements or captured constants it "
     "contains.",
     "every value; every function body",
     NOTEST + "all values and function bodies.",
     ["ptypes.py", "parsing.py", "operators.py"],
     [("repr", "ptypes.py:__repr__"), ("unparse", "parsing.py:unparse")],
     ("inputs", "programs"))
prop("C06", "A text counts as the number it starts with; one truth everywhere",
     "In arithmetic and comparisons a text is the decimal number it starts "
     "with (white space before it ignored, whatever follows ignored, 0 if "
     "there is none), and an integer of any size keeps its exact value and "
     "decimal text. False are nil, the empty text, list, range, pattern and "
     "function, and texts of zeros with at most one point; all else is true, "
     "in every construct that asks (? & | ! their backslash forms, I W T, "
     "filters).",
     "every text, every integer, every value used as a condition",
     NOTEST + "all texts and values.",
     ["ptypes.py", "execution.py"],
     [("numeric value", "ptypes.py:Scalar.toNumber, __int__"),
      ("truth", "ptypes.py:__bool__"),
      ("conditions", "execution.py:IF, IFTE, AND, OR, NOT, FILTER")])
prop("C07", "Indexing is cyclic and slicing is extended, on every iterable",
     "x@i of a text, list or finite range of n items is item i mod n for "
     "every integer i, of an infinite range item i for i >= 0, and nil if x "
     "is empty. A slice x@(i,j) (or x@<i, x@>i, or open ends) gives the items "
     "at i to j-1, negative ends counting from the end of x, indices past "
     "the ends continuing cyclically. A list of indices gives the list of "
     "items, and none of this depends on whether x is a variable, a range or a "
     "computed value.",
     "every text, list, range and every index or slice",
     NOTEST + "all iterables and all indices.",
     ["ptypes.py", "execution.py"],
     [("indexing", "ptypes.py:Scalar, List, Range.__getitem__"),
      ("index operators", "execution.py:AT, LEFTOF, RIGHTOF, getRval")])
prop("C08", "Assignment changes exactly the place assigned to",
     "Assigning to a name, an item, a slice or any nesting of these makes "
     "that place read back as the assigned value, leaves every other item "
     "and variable alone, and gives that value; a place that does not exist is "
     "left alone with a warning. x OP: y is x: x OP y for "
     "every operator, also on items; ++ and -- step by 1; :: exchanges two "
     "places; a list of names takes the values in order, nil when they run "
     "out.",
     "every place, value and operator", NOTEST + "all places and values.",
     ["execution.py", "ptypes.py"],
     [("assignment", "execution.py:assign, varTable, ASSIGN, SWAP"),
      ("compute and assign", "execution.py:evaluate"),
      ("items", "ptypes.py:__setitem__, execution.py:Lval")])
prop("C09", "Values are never shared: changing one variable changes only it",
     "Changing a variable in place - an item, a slice, a push, a pop, a "
     "compute-and-assign - never changes another variable, argument, loop "
     "variable, captured constant, literal of the program or earlier result, "
     "however the two came to hold the same list (assignment, argument "
     "passing, returning, list building, mapping, swapping, popping).",
     "every pair of a way to share a value and a way to change it",
     NOTEST + "all combinations of sharing and changing.",
     ["execution.py", "ptypes.py"],
     [("copying", "execution.py:assign, getRval; ptypes.py:copy"),
      ("in-place operators", "execution.py:PUSH, POP, PICK, DEQUEUE")],
     ("histories", "inputs"))
prop("C10", "Push, pop, dequeue and pick treat an iterable as a sequence",
     "x PU v and x PB v put v at the front and at the back (onto a "
     "text by joining), PO x "
     "and DQ x remove and give the first and the last item, x PK i removes "
     "and gives the item at i (cyclically); every other item keeps its "
     "place, an empty x gives nil. This holds for lists, texts and ranges, "
     "alone and after any sequence of such operations.",
     "every iterable, item and sequence of operations",
     NOTEST + "all iterables and operation sequences.",
     ["execution.py", "ptypes.py"],
     [("queue operators",
       "execution.py:PUSH, PUSHBACK, POP, DEQUEUE, PICK")],
     ("histories", "inputs"))
prop("C11", "A range acts as the list of integers it stands for",
     "A finite range gives the same result as the list of its integers, "
     "in place of either operand of an operator (unless the operator tells "
     "types apart, as ==, Q, @ with a range index do), in folds, scans, "
     "maps, higher-order operators, loops, assignments and output. Ranges "
     "have the ends, length, items, membership and order (= < > <= >=) their "
     "integers give them, for every pair of ends, and adding a number moves "
     "both ends, also of an infinite range.",
     "every range and operator", NOTEST + "all ranges and operators.",
     ["ptypes.py", "execution.py"],
     [("Range", "ptypes.py:Range"),
      ("itemwise evaluation", "execution.py:evaluate"),
      ("range arithmetic and comparison",
       "execution.py:ADD, SUB, NUMLESS, NUMEQUAL")])
prop("C12", "Integer arithmetic is exact at any size; rounding, bits, extremes",
     "+ - * // % AD AB SG DB HV HU SQ U D, powers, bitwise operators, MX, MN, "
     "CM and rounding (|< >| RN RZ, to 1 or to a multiple) of integers give the "
     "exact mathematical integer, however large, and so do texts that start "
     "with one. Quotients round down and remainders take the divisor's sign; "
     "rounding to nearest takes halves to even, also of decimal texts; an "
     "exact quotient of / is an integer. Division by zero, by any of its "
     "operators, gives nil.",
     "every integer", NOTEST + "all integers.",
     ["execution.py", "ptypes.py"],
     [("arithmetic operators", "execution.py:ADD, SUB, MUL, INTDIV, MOD, "
       "POW, HALVE"),
      ("rounding", "execution.py:ROUNDDOWN, ROUNDUP, ROUNDNEAREST, "
       "ROUNDZERO"),
      ("bits", "execution.py:BITAND, BITOR, BITXOR, BITLENGTH")])
prop("C13", "Comparisons order numbers, texts, lengths and lists consistently",
     "< > = <= >= != (and CM) compare numerically, LT GT Q LE GE NE compare "
     "texts character by character, #< #> #= compare lengths, == asks whether "
     "two values are the same; each set agrees on exactly one of less, equal "
     "and greater. Lists compare item by item at every depth, then by length, and "
     "values of different kinds are unequal and in no order. A chain of "
     "comparisons holds when each link does, each operand evaluated once; "
     "N, NI, @? and @* find items by the same equality as Q.",
     "every pair and chain of values", NOTEST + "all pairs of values.",
     ["execution.py", "ptypes.py"],
     [("comparisons", "execution.py:NUMLESS, NUMEQUAL, STRLESS, STREQUAL, "
       "LENEQUAL, OBJEQUAL, COMPARE"), ("chains", "execution.py:CHAIN")])
prop("C14", "Itemwise operators work item by item on lists at every depth",
     "An arithmetic, rounding, bit, trigonometric, text or other itemwise "
     "operator applied to a "
     "list gives the list of its results for the items, whatever the depth; "
     "with one list, the other operand goes with every item. Two lists are "
     "paired item by item, and what is left of the longer one is added "
     "unchanged. Operators that take a list as a whole do not.",
     "every itemwise operator and every list", NOTEST + "all lists.",
     ["execution.py", "operators.py"],
     [("itemwise evaluation", "execution.py:evaluate"),
      ("itemwise flags", "operators.py:LIST_EACH, RANGE_EACH")])
prop("C15", "Meta-operators fold, scan and map exactly as their operator does",
     "$ OP over a list, text or finite range is the operator put between the items and "
     "grouped by its associativity (comparisons chain), the operator's "
     "default for nothing; \\$ OP gives all the intermediate results, [] "
     "for nothing; OP * gives the unary operator's result for each item. They "
     "combine with each other, and give nil for what is not iterable or endless.",
     "every operator with $ \\$ and *, over every list",
     NOTEST + "all operators and lists.",
     ["execution.py", "parsing.py"],
     [("fold, scan, map", "execution.py:FOLDMETA, SCANMETA, MAPMETA")],
     ("inputs", "programs"))
prop("C16", "An operator on a function is a function of its results",
     "An operator (arithmetic, comparison chain, list, text, fold, scan, map...) "
     "applied to _ or another function gives a function that, called, gives "
     "what the operator gives for the functions' results, at any nesting. "
     "The other operands are taken at "
     "their value when the function is built; the functions' statements run "
     "at each call, in order, before the result. Such functions work "
     "wherever a function is taken.",
     "every operator, function and argument",
     NOTEST + "all operators and arguments.",
     ["execution.py", "operators.py"],
     [("lambda building", "execution.py:evaluate, FOLDMETA, SCANMETA, "
       "MAPMETA"), ("which operators do", "operators.py:IN_LAMBDA")],
     ("inputs", "programs"))
prop("C17", "Higher-order operators call the function once per item, in order",
     "M ME MM MP MU MC MZ MF MJ MS give the list (flattened, joined, "
     "summed) of the function's results for the items with the arguments "
     "each documents, FI FN FE FU FX FJ keep the items (or places) whose "
     "result is true, and V and RE call with the arguments given. The function is "
     "called once per item from first to last, whichever side it stands on, over lists, texts "
     "and ranges; it has its own a-g, missing arguments are nil, and the "
     "iterable and the caller's variables stay as they are. What is "
     "no function or no iterable gives nil.",
     "every function and iterable", NOTEST + "all iterables.",
     ["execution.py"],
     [("map and filter", "execution.py:MAP, MAPZIP, MAPUNPACK, MAPCOORDS, "
       "FILTER, FILTERENUMERATE"),
      ("calls", "execution.py:functionCall, EVAL, RECURSE")],
     ("inputs", "programs"))
prop("C18", "Sorting is a stable rearrangement in the order it promises",
     "SN and DN give the items in ascending and descending order of their numeric "
     "value, SS and DS of their text, SK and DK of the number (or list of "
     "numbers) a function gives for each; items that tie keep their order, "
     "no item is lost, and the operand stays as it is. Items that are no "
     "number count as 0, lists go item by item and then by length, a text is "
     "sorted by its characters, and numbers mixed with lists give nil.",
     "every list, text, range and key function", NOTEST + "all lists.",
     ["execution.py", "ptypes.py"],
     [("sorting", "execution.py:SORTNUM, SORTSTRING, SORTKEYED, "
       "DESCENDINGNUM, DESCENDINGSTRING, DESCENDINGKEYED")])
prop("C19", "Base conversion is exact and reversible",
     "TB writes an integer in a base from 2 to 36 (digits 0-9A-Z, - for "
     "negatives) and FB reads it back in either case of letters; TD gives "
     "its list of digits in any base from 2 and FD adds up digits of any "
     "size in any base; the base is 2 if not given. Text not written in the "
     "base, other bases and operands of other types give nil; lists and "
     "ranges are converted item by item (FD takes a list as digits).",
     "every integer, text of digits and base",
     NOTEST + "all integers and bases.",
     ["execution.py"],
     [("base conversion", "execution.py:TOBASE, FROMBASE, TODIGITS, "
       "FROMDIGITS")])
prop("C20", "Text operators cut, find, replace and join text exactly",
     "Text operators give exactly the text or positions they are documented "
     "to: . and J join, @? and @* find, R replaces, RM removes, ^ splits, TR "
     "transliterates, LC UC SC change case, || |> <| strip, X repeats, A and "
     "C convert characters and codes, TM trims. Occurrences are taken from "
     "the left without overlapping; any character is an ordinary character "
     "unless given in a pattern. On lists and ranges they work item by item, "
     "and where they cannot apply they give nil.",
     "every text, every searched or replaced text",
     NOTEST + "all texts.",
     ["execution.py"],
     [("text operators", "execution.py:JOIN, FINDALL, REPLACE, SPLIT, "
       "REMOVE, STRIP, TRIM, TRANSLITERATE")])
prop("C21", "Rearranging operators lose, repeat and invent no items",
     "Reversing, rotating, grouping (<>), chopping (CH), cutting (^@), "
     "unweaving (UW), weaving, zipping, crossing, appending, prepending, "
     "pushing and popping, flattening, transposing, choosing, permuting and "
     "removing duplicates put every item of their operands exactly where "
     "the operator is documented to put it, in order. Lists, texts and "
     "ranges are rearranged alike, and the operands themselves stay as they "
     "were unless the operator changes a variable.",
     "every list, text and range, every size",
     NOTEST + "all items and sizes.",
     ["execution.py", "ptypes.py"],
     [("rearranging operators", "execution.py:GROUP, CHOP, SPLITAT, UNWEAVE, "
       "WEAVE, ZIP, CARTESIANPRODUCT, FLATTEN, UNIQUE, PERMUTATIONS, "
       "COMBINATIONS")])
prop("C22", "Patterns match, replace and split as their meaning says",
     "Matching (~ ~= @? @* N ^ R RM || |> <| ZJ and the like) finds exactly "
     "the matches the pattern's meaning gives: from the left, not "
     "overlapping, greedy, with its flags, setting $0, $1, $$ and the other "
     "match variables to the last match; replacements get each match and its "
     "groups. Patterns built by + , * X K C A - match what their parts "
     "require, and a text turned into a pattern matches only itself.",
     "every pattern of the listed family and every subject",
     NOTEST + "all subjects.",
     ["execution.py", "ptypes.py"],
     [("patterns", "ptypes.py:Pattern"),
      ("match variables", "execution.py:assignRegexVars"),
      ("pattern operators", "execution.py:MATCH, REPLACE, SPLIT, FINDALL")])
prop("C23", "Control flow runs each statement and operand when it should",
     "Conditions are judged by the truth of their value; if, ternary, & | "
     "and loops run exactly the branch, operand or body they should, as "
     "often as they should, in order, with the loop variable taking each "
     "item of what is looped over. Every operator evaluates its operands "
     "once each, from left to right, and a block, list or call evaluates its "
     "parts in order.",
     "every condition value, every operator, every loop",
     NOTEST + "all values and operators.",
     ["execution.py"],
     [("control flow", "execution.py:IF, WHILE, TILL, LOOP, FOREACH, IFTE, "
       "AND, OR"), ("evaluation", "execution.py:evaluate")])
prop("C24", "Calls have locals of their own; globals and history persist",
     "A function call has its own a-g (its arguments, itself and the list of "
     "arguments) and its own history, given by value; whatever it does, the "
     "caller's locals and history are the same afterwards, while all other "
     "variables are shared. Recursive calls are calls like any other, q reads each line "
     "once, and after an error inside any call the session goes on with its "
     "variables, history and scopes as they were.",
     "every argument, call depth and place of an error",
     NOTEST + "all arguments and histories.",
     ["execution.py"],
     [("calls", "execution.py:functionCall"),
      ("variables", "execution.py:assign, getRval, varTable"),
      ("history", "execution.py:updateHistoryVars")])
prop("C25", "Printed text is the value in the list format chosen, nil nothing",
     "A program prints its value, and P and O print theirs, passing it on, "
     "each with a newline except O and YO; nil prints nothing at all, and "
     "output appears in the order of evaluation. The format flags decide how "
     "lists and finite ranges are joined at every depth (-n -s, -l -S by "
     "lines, -p and -P as reprs), and nothing else. Flags never change a "
     "computed value (except ST and pushing onto a text, which use the "
     "printed text), and warnings appear only with -w, on standard error.",
     "every value and format", NOTEST + "all values and formats.",
     ["execution.py", "ptypes.py", "errors.py"],
     [("printing", "execution.py:PRINT, OUTPUT, YANKPRINT, YANKOUTPUT, "
       "executeProgram"), ("formats", "ptypes.py:List.__str__, joined, "
                           "Range.__str__"),
      ("warnings", "errors.py:ErrorReporter.warn")])
prop("C26", "Every operator gives a value for all arguments, never a crash",
     "Any unary, binary or ternary operator, fold or scan, applied to any "
     "numbers, texts, lists, ranges, nil, patterns and functions in any "
     "place, gives a Pip value that can be printed and shown (nil where "
     "the operator does not apply), never an internal error. "
     "Only evaluating text as a program, endless recursion and malformed regular "
     "expressions end the program, with an error message.",
     "every operator and every combination of operands",
     NOTEST + "all operators and operands.",
     ["execution.py", "ptypes.py", "operators.py"],
     [("operators", "execution.py:ProgramState"),
      ("dispatch", "execution.py:evaluate")])
prop("C27", "The command line and the session run code alike, in order",
     "Code given by -e, -i, -f, a file name or the API does the same; "
     "arguments arrive exactly as given (words and balanced quotes of an "
     "argument string, lines of input with -r, values of expressions with "
     "-x), options have their documented effects, and a fatal error gives a "
     "message and status 1 after what was printed before. In a session each "
     "statement runs as soon as it is complete, however it is split over "
     "lines, and shows its value's repr; bad or failing code is reported and "
     "dropped, and ; commands and comments do just what they say.",
     "every argument, line and session",
     NOTEST + "all arguments and sessions.",
     ["pip.py"], [("command line", "pip.py:pip, main, run"),
                  ("session", "pip.py:repl")])
prop("C28", "Random choices take each value they may, no other, and repeat",
     "RR a gives an integer from 0 to a-1 and a RR b one from a to b-1 (for "
     "lists of bounds item by item, with separate draws), RC an item of a "
     "nonempty iterable, SH a rearrangement of its items (a text for a text), "
     "r a number from 0 up to but not 1; every such outcome is possible, the "
     "operand is kept, and an empty range or iterable gives nil with a "
     "warning. After assigning the same value to r, the same draws give the "
     "same outcomes again; other seeds may give others.",
     "every outcome of the random source",
     NOTEST + "all bounds, items and outcomes.",
     ["execution.py"], [("random operators", "execution.py:RANDRANGE, "
                         "RANDRANGETO, RANDCHOICE, SHUFFLE"),
                        ("r", "execution.py:getr, setr")])
NA = []
