bug("C01-word-split", "C01",
    [("scanning.py", 'if len(text) % 2 == 1:\n                    index = 1',
      'if len(text) % 2 == 1 and len(text) < 6:\n                    index = 1')],
    [("UQSSUCLCN:5",), ("RVLCUCRVLCx:\"aB\"",), ("PRVLCUCSCRVLCa", ["aBc"])],
    "a run of seven or more capitals of odd length",
    "the run is split into pairs from the wrong end")
bug("C02-comment-crlf", "C02",
    [("scanning.py", "r'(\\s*\\n\\s*;| {2}).*'", "r'(\\s*\\n[ \\t]*;| {2}).*'")],
    [("1\n\n\x0c;c 5\n",), ("x:7\n\r;x:9\nx",), ("2 \n\n \n ;PQ (\n",)],
    "white space other than spaces and tabs (a form feed, a carriage "
    "return) between the line's start and the comment's semicolon",
    "the comment is read as code")
bug("C06-exp-sign", "C06",
    [("ptypes.py", r'exp = r"(?:e[+-]\d+)"', r'exp = r"(?:e[+-]?\d+)"')],
    [('a+0', ["2e3"]), ('a*2', ["12e1x"]), ("a+1", ["1.5e+1"]), ("a+1", ["7e"])],
    "a text of digits followed by the letter e and more digits",
    "it is read as a number with an exponent instead of the leading integer")
bug("C07-slice-neg", "C07",
    [("ptypes.py", '''            if start >= stop:
                return Scalar("")
            while start < 0:
                repString = self._value + repString
                start += length
                stop += length
            while stop''', '''            if start >= stop:
                return Scalar("")
            if start < 0:
                repString = self._value + repString
                start += length
                stop += length
            while stop''')],
    [("a@(-5,4)", ["ab"]), ("a@(-7,2)", ["abc"]), ("a@(-3,2)", ["ab"])],
    "a slice of a text that starts more than two lengths before its end",
    "the slice is cut short or shifted")
bug("C08-destructure-nil", "C08",
    [("execution.py", '''            for lvalItem, rvalItem in itertools.zip_longest(lval.base,
                                                            rvalIterator):
                if lvalItem is None:''', '''            for lvalItem, rvalItem in itertools.zip_longest(lval.base,
                                                            rvalIterator):
                if isinstance(rvalItem, Nil):
                    continue
                if lvalItem is None:''')],
    [("x:1;y:2;[x y]:[();5];[x y]", ["-p"]), ("[x y]:[3 4];x:y:1;[x y]:[();()];[x y]", ["-p"])],
    "destructuring a list that holds nil into names that have values",
    "the name keeps its old value instead of becoming nil")
bug("C11-range-less", "C11",
    [("execution.py", '''            if leftLower < rightLower:
                result = True
            elif leftLower > rightLower:
                result = False
            elif leftUpper == rightUpper:
                result = False
            elif leftUpper is None:
                # lhs is an infinite Range, thus bigger
                result = False
            elif rightUpper is None:
                # rhs is an infinite Range, thus bigger
                result = True
            else:
                result = leftUpper < rightUpper
        elif (isinstance(lhs, (List, Range))
              and isinstance(rhs, (List, Range))):
            result = None
            for i, j in zip(lhs, rhs):
                if self.NUMLESS(i, j):
                    result = True
                    break
                elif self.NUMLESS(j, i):
                    result = False
                    break
            if result is None:
                # The two lists were equal as far as they went... but are they
                # the same length?
                try:
                    leftLen = len(lhs)
                except ValueError:
                    # Lhs is infinite Range
                    result = False
                else:
                    try:
                        rightLen = len(rhs)
                    except ValueError:
                        # Rhs is infinite Range
                        result = True
                if result is None:
                    # Neither was an infinite Range, so we can just
                    # compare their lengths directly
                    result = leftLen < rightLen''', '''            if leftLower < rightLower:
                result = True
            elif leftLower > rightLower:
                result = False
            elif leftUpper == rightUpper:
                result = False
            elif leftUpper is None:
                # lhs is an infinite Range, thus bigger
                result = False
            elif rightUpper is None:
                # rhs is an infinite Range, thus bigger
                result = True
            else:
                result = leftUpper < rightUpper
        elif (isinstance(lhs, (List, Range))
              and isinstance(rhs, (List, Range))):
            result = None
            for i, j in zip(lhs, rhs):
                if self.NUMLESS(i, j):
                    result = True
                    break
                elif self.NUMLESS(j, i):
                    result = False
                    break
            if result is None:
                # The two lists were equal as far as they went... but are they
                # the same length?
                try:
                    leftLen = len(lhs)
                except ValueError:
                    # Lhs is infinite Range
                    result = False
                else:
                    try:
                        rightLen = len(rhs)
                    except ValueError:
                        # Rhs is infinite Range
                        result = False
                if result is None:
                    # Neither was an infinite Range, so we can just
                    # compare their lengths directly
                    result = leftLen < rightLen''')],
    [("[0;1;2]<(0,())",), ("[]<(5,())",)],
    "a list compared with an infinite range that it is a prefix of",
    "the list does not count as less")

bug("C01-newline-char", "C01",
    [("scanning.py", r"""charRgx = re.compile(r"'(.|\n)")""", r"""charRgx = re.compile(r"'.")""")],
    [("#'\n.'x",), ("[1;2]J'\n",)],
    "a character literal of the newline",
    "the program is rejected as incomplete")
bug("C03-assign-assoc", "C03",
    [("parsing.py", "            op.precedence = assignOp.precedence\n            op.associativity = assignOp.associativity\n",
      "            op.precedence = assignOp.precedence\n")],
    [("x:1;y:2;x+:y*:3;[x y]", ["-p"]), ("x:5;y:1;x-:y:4;x",), ("x:9;x:y:3;x-:x-:2;x",)],
    "two compute-and-assign operators in one expression",
    "they group from the left and the second assigns to a value")
bug("C04-for-header", "C04",
    [("parsing.py", """        nameList = [operators.enlist]
        while tokenList[0] != "]":
""", """        nameList = [operators.enlist]
        while tokenList[0] not in ("]", None):
""")],
    [(None, ["-R"], "F[x\ny][[1 2]]P x\n1+1\n;q\n"), (None, ["-R"], "F[[x\ny]z]\n[[[3 4]5]]{P z.y}\n;q\n")],
    "input that ends inside the list of names of a for-header",
    "the parser fails instead of reporting incomplete input")
bug("C05-chain-operand", "C05",
    [("parsing.py", """                            and item[0] not in ["PAREN", "BLOCK",
                                                "SEND", "LIST"]):""", """                            and item[0] not in ["PAREN", "BLOCK", "CHAIN",
                                                "SEND", "LIST"]):""")],
    [("f:_<2;g:f*5;h:V RPg;(h 3).(g 3)",), ("h:_=1;k:h+1;RPk",)],
    "a lambda built by applying an operator to a lambda that is a comparison",
    "the repr lacks parentheses and evaluates to another function")
bug("C06-point-false", "C06",
    [("ptypes.py", r'zeroRgx = re.compile(r"^(0+(\.0*)?|0*\.0+)$")', r'zeroRgx = re.compile(r"^(0*(\.0*)?)$")')],
    [("a?1 2", ["."]), ("a?1 2", ["0."]), ("#_FI\".x\"",), ("I'.{P5}",)],
    "the text of a single point used as a condition",
    "it counts as false")
bug("C07-range-slice", "C07",
    [("ptypes.py", "if start >= -length and stop <= length:", "if stop <= length:")],
    [("(,4)@(-6,2)", ["-p"]), ("(2,5)@(-4,())", ["-p"]), ("(,4)@(-4,2)", ["-p"])],
    "a slice of a range starting before minus its length",
    "the slice is cut at the range's start instead of continuing cyclically")
bug("C08-string-index", "C08",
    [("ptypes.py", """        # Behold! Mutable strings!
        if isinstance(index, int):
            index %= len(self._value)
""", """        # Behold! Mutable strings!
""")],
    [("x:\"abc\";x@4:'z;x",), ("x:\"abc\";x@-4:'z;x",), ("x:\"abc\";x@-1:'z;x",)],
    "assigning to an item of a text by an index past its ends",
    "the assignment is ignored")
bug("C09-shallow-copy", "C09",
    [("ptypes.py", """    def copy(self):
        return List(item.copy() for item in self._value)""", """    def copy(self):
        return List(item for item in self._value)""")],
    [("x:[[1 2]3];y:x;x@0@1:9;y", ["-p"]), ("F i[[1]2]{x:[[0]i];y:x;y@0@0:i;Px}", ["-p"])],
    "assigning to an item of a nested list of a copied variable",
    "the other variable changes too")
bug("C10-pick-text", "C10",
    [("execution.py", """                item = iterVal[index]
                iterVal = str(iterVal)
                index %= len(iterVal)
""", """                item = iterVal[index]
                iterVal = str(iterVal)
""")],
    [("x:\"abcd\";y:xPK-1;[y x]", ["-p"]), ("x:\"abcd\";y:xPK5;[y x]", ["-p"]), ("x:\"abcd\";y:xPK3;[y x]", ["-p"])],
    "picking from a text by a negative index or one past its end",
    "the item is not taken away, or items are repeated")
