E_ = "execution.py"
bug("C12-sign-text", "C12",
    [(E_, '''            rhs = rhs.toNumber()
            if rhs < 0:
                return Scalar("-1")
            elif rhs > 0:''', '''            rhs = rhs.toNumber()
            if rhs < 0:
                return Scalar("-1")
            elif rhs >= 1:''')],
    [("SG a", [".5"]), ("SG(a-b)", ["2.25", "2"]), ("SG 0.001",)],
    "a number strictly between 0 and 1",
    "its sign is 0")
bug("C12-bitlength", "C12",
    [(E_, "return Scalar(int(lhs).bit_length())",
      "return Scalar(math.ceil(math.log2(abs(int(lhs)) + 1)))")],
    [("BL(2**60-1)",), ("BL(E70)",), ("BL(2**53)",)],
    "an integer just below or at a power of two beyond 2**53",
    "floats round it, and the bit length is one off")
bug("C13-chain-skip", "C13",
    [(E_, '''            result = self.evaluate(compTree)
            # Skip to the next operator
            i += 2''', '''            result = self.evaluate(compTree)
            # Skip to the next operator
            i += 2 if i < 5 else 4''')],
    [("1<2<3<4<0<9",), ("a=a=a=a=b", ["1", "2"]), ("1<2<3<4<3<9<10",)],
    "a chain of five or more operands whose fourth comparison fails",
    "that comparison is skipped")
bug("C13-numless-lists", "C13",
    [(E_, '''            elif leftUpper == rightUpper:
                result = False
            elif leftUpper is None:
                # lhs is an infinite Range, thus bigger
                result = False
            elif rightUpper is None:
                # rhs is an infinite Range, thus bigger
                result = True
            else:
                result = leftUpper < rightUpper
        elif (isinstance(lhs, (List, Range))
              and isinstance(rhs, (List, Range))):
            result = None
            for i, j in zip(lhs, rhs):
                if self.NUMLESS(i, j):
                    result = True
                    break
                elif self.NUMLESS(j, i):
                    result = False
                    break
''', '''            elif leftUpper == rightUpper:
                result = False
            elif leftUpper is None:
                # lhs is an infinite Range, thus bigger
                result = False
            elif rightUpper is None:
                # rhs is an infinite Range, thus bigger
                result = True
            else:
                result = leftUpper < rightUpper
        elif (isinstance(lhs, (List, Range))
              and isinstance(rhs, (List, Range))):
            result = None
            for i, j in zip(lhs, rhs):
                if self.NUMLESS(i, j):
                    result = True
                    break
                elif not self.NUMEQUAL(i, j):
                    result = False
                    break
''')],
    [("[[1];1]<[\"x\";2]",), ("[u;1]<[0;2]",), ("[`a`;1]<[`b`;2]",)],
    "lists whose items in one place are of kinds in no order, and later "
    "items that are",
    "they are taken as greater instead of going on")
bug("C14-extra-items", "C14",
    [(E_, '''                        elif lengths[1] > lengths[0]:
                            result.extend(args[1][lengths[0]:])''',
      '''                        elif lengths[0] and lengths[1] > lengths[0]:
                            result.extend(args[1][lengths[0]:])''')],
    [("[]+[1 2]", ["-p"]), ("[[];5].[[7;8];1]", ["-p"])],
    "an empty list on the left of an itemwise operator, a non-empty one on "
    "the right",
    "the items of the right one are lost")
bug("C15-scan-right", "C15",
    [(E_, '''                        scanValue = self.evaluate([normalOp, val, scanValue])
                        scanResults.append(scanValue)
                    scanResults.reverse()''',
      '''                        scanValue = self.evaluate([normalOp, val, scanValue])
                        scanResults.append(scanValue)
                    scanResults.sort(key=len, reverse=True)''')],
    [(r"\$**[2;3;0;5]", ["-p"]), (r"\$**[0;7;2]", ["-p"]), (r"\$,[1;2]", ["-p"])],
    "a scan by a right-associative operator whose results do not get longer "
    "to the left",
    "the intermediate results come in the wrong order")
bug("C15-chain-fold", "C15",
    [(E_, '''                    if len(iterable) == 1:
                        foldValue = SCALAR_ONE
                    else:
                        chainExpr = [ops.chain, iterable[0]]
                        for val in iterable[1:]:''',
      '''                    if len(iterable) == 1:
                        foldValue = SCALAR_ONE
                    else:
                        chainExpr = [ops.chain, iterable[0]]
                        for val in iterable[1:4] + iterable[5:]:''')],
    [("$<[1;2;3;4;0;9]",), ("$=[1;1;1;1;2]",), ("$<,9",)],
    "a comparison folded over five or more items, the fifth out of order",
    "the fifth item is skipped")
bug("C16-block-order", "C16",
    [(E_, '''                    for arg in args:
                        if isinstance(arg, Block):
                            newStatements.extend(arg.getStatements())
                            newReturnExpr.append(arg.getReturnExpr())''',
      '''                    for arg in args:
                        if isinstance(arg, Block):
                            newStatements[:0] = arg.getStatements()
                            newReturnExpr.append(arg.getReturnExpr())''')],
    [("h:{x:a;a}+{x:9;x};[(h 5);x]", ["-p"]), ("({O 1;a}.{O 2;b} 7 8)",)],
    "an operator on two functions that both have statements",
    "the statements of the second run before those of the first")
bug("C17-mapcoords", "C17",
    [(E_, '''            if isinstance(rhs[0], Scalar) and isinstance(rhs[1], Scalar):
                rows = range(int(rhs[0]))
                cols = range(int(rhs[1]))''',
      '''            if isinstance(rhs[0], Scalar) and isinstance(rhs[1], Scalar):
                rows = range(int(rhs[0]))
                cols = range(int(rhs[-1]))''')],
    [("{a.b}MC[2;3;4]", ["-p"]), ("5MC(1,4)", ["-p"])],
    "a grid size of more than two numbers",
    "the last number is taken as the width instead of the second")
bug("C17-filterunpack-empty", "C17",
    [(E_, '''                        try:
                            if item[0]:
                                result.append(item)
                        except IndexError:
                            # This happens when one of the items is empty
                            pass''', '''                        try:
                            if item[0]:
                                result.append(item)
                        except IndexError:
                            # This happens when one of the items is empty
                            break''')],
    [("FU[[1;0];[];[2;0]]", ["-p"]), ("FU[\"\";\"12\"]", ["-p"])],
    "unary FU over items of which one is empty",
    "the items after the empty one are lost")
bug("C18-desc-ties", "C18",
    [(E_, '''                    return item.toNumber()
            try:
                return List(sorted(iterable, key=pyKey, reverse=True))
            except TypeError:
                self.err.warn("DESCENDINGNUM''', '''                    return item.toNumber()
            try:
                return List(sorted(iterable, key=pyKey)[::-1])
            except TypeError:
                self.err.warn("DESCENDINGNUM''')],
    [("DN[1;2;\"1x\"]", ["-p"]), ("DN[\"a\";\"b\";3]", ["-p"])],
    "items that differ but have the same number",
    "descending order turns them round instead of keeping them in order")
bug("C19-frombase-empty", "C19",
    [(E_, '''                result = int(str(number).replace("_", " "), base)''',
      '''                result = int(str(number).replace("_", ""), base)''')],
    [("a FB b", ["1_0", "2"]), ("FB\"1_1\"", ["-p"]), ("\"A_F\"FB16", ["-p"])],
    "a text with an underscore between digits",
    "it is read as a number instead of giving nil")
bug("C19-tobase-neg", "C19",
    [(E_, '''            while number > 0:
                digit = number % base
                number //= base
                result.insert(0, Scalar(sign * digit))''',
      '''            while number > 0:
                digit = number % base
                number = int(number / base)
                result.insert(0, Scalar(sign * digit))''')],
    [("(2**60+1)TD 10", ["-p"]), ("TD(E54-1)", ["-p"]), ("a TD 7", ["-p", "99999999999999999999"])],
    "an integer beyond 2**53",
    "its digits are those of a rounded number")
bug("C20-translit-short", "C20",
    [(E_, '''                elif newChar is nil:
                    newChar = None''', '''                elif newChar is nil or newChar == 0:
                    newChar = None'''),
     (E_, '''                mapping[oldChar] = newChar
            result''', '''                mapping.setdefault(oldChar, newChar)
            result''')],
    [("\"abca\"TR\"aba\"\"xyz\"",), ("a TR b c", ["aXbX", "XX", "12"])],
    "a character that occurs twice in the text to transliterate from",
    "the first replacement is taken instead of the last")
bug("C20-trim-back", "C20",
    [(E_, '''            front = extra.getLower() or 0
            back = extra.getUpper() or 0
        elif extra is nil:''', '''            front = extra.getLower() or 0
            back = extra.getUpper() or front
        elif extra is nil:''')],
    [("\"abcdef\"TM(2,0)",), ("\"abcdef\"TM(1,())",), ("\"abcdef\"TM(2,1)",)],
    "TM with a range whose end is nil or 0",
    "as much is cut off the back as off the front")
bug("C21-splitat-neg", "C21",
    [(E_, '''                if i in indices or i - length in indices:''',
      '''                if i in indices or i and i - length in indices:''')],
    [("\"abcd\"^@[1;-4]", ["-p"]), ("\"abcd\"^@-4", ["-p"]), ("[1;2]^@[-2;1]", ["-p"])],
    "a cut at minus the length",
    "the empty piece before it is missing")
bug("C21-unweave-short", "C21",
    [(E_, '''            result = [[] for i in range(strands)]''',
      '''            result = [[] for i in range(min(strands, len(iterable) or 1))]
            strands = len(result)''')],
    [("\"ab\"UW3", ["-p"]), ("[1]UW2", ["-p"]), ("\"\"UW2", ["-p"]), ("\"abcdef\"UW4", ["-p"])],
    "more strands than items",
    "the empty strands are missing")
bug("C21-group-neg", "C21",
    [(E_, '''                    startIndex = max(index + jump, 0)
                    chunk = iterable[math.ceil(startIndex):math.ceil(index)]''',
      '''                    startIndex = max(index + jump, 0)
                    chunk = iterable[int(startIndex):int(index)]''')],
    [("\"abcdefg\"<>-1.5", ["-p"]), ("[1;2;3;4]<>-2.5", ["-p"]), ("\"abcdefg\"<>-2", ["-p"])],
    "a negative group size with a fraction",
    "the groups are cut in other places")
bug("C22-groups-nine", "C22",
    [(E_, '''        for i in range(10):
            matchVar = Lval(f"${i}")
            if i < len(groups):
                self.assign(matchVar, groups[i])
            else:
                self.assign(matchVar, nil)''', '''        for i in range(10):
            matchVar = Lval(f"${i}")
            if i < len(groups):
                self.assign(matchVar, groups[i])
            elif i < 2:
                self.assign(matchVar, nil)''')],
    [("\"abc\"~`(a)(b)`;\"xyz\"~`(y)`;[$1;$2]", ["-p"]), ("\"abc\"~`(a)(b)(c)`;\"c\"~`c`;[$0;$1;$2;$3]", ["-p"])],
    "a match with two or more groups followed by one with fewer",
    "the variables of the missing groups keep the earlier match's text")
bug("C23-loop-count", "C23",
    [(E_, '''        elif isinstance(count, (List, Range)):
            count = len(count)
        else:
            self.err.warn("Unimplemented argtype for LOOP:",''',
      '''        elif isinstance(count, (List, Range)):
            count = count.count(Scalar("0")) and len(count)
        else:
            self.err.warn("Unimplemented argtype for LOOP:",''')],
    [("L[1;2]O 5",), ("L,3 O 5",), ("L(2,5)O 7",)],
    "a loop over a list or range that holds no 0",
    "the body does not run")
bug("C23-till-once", "C23",
    [(E_, '''        condVal = self.getRval(cond)
        while not condVal:
            for statement in code:
                self.executeStatement(statement)
            condVal = self.getRval(cond)''', '''        condVal = self.getRval(cond)
        while not condVal:
            for statement in code:
                self.executeStatement(statement)
                condVal = condVal or self.getRval(cond)
            condVal = self.getRval(cond)''')],
    [("x:0;T(x+:1)>6 {O x;O'.}",), ("T q{O 1;O 2}", [], "\n\n\n5\n")],
    "an until-loop of more than one statement whose condition does something",
    "the condition is evaluated after every statement")
bug("C24-history-shift", "C24",
    [(E_, '''        if self.isDefined("$_"):
            if self.isDefined("$__"):
                self.assign(Lval("$___"), self.getRval(Lval("$__")))
            self.assign(Lval("$__"), self.getRval(Lval("$_")))''',
      '''        if self.isDefined("$_"):
            if self.getRval(Lval("$__")) is not nil:
                self.assign(Lval("$___"), self.getRval(Lval("$__")))
            self.assign(Lval("$__"), self.getRval(Lval("$_")))''')],
    [("1;();3;4;[$_;$__;$___]", ["-p"]), ("7;1;u;2;3;[$_;$__;$___]", ["-p"])],
    "nil among the last values",
    "it never gets to $___, which keeps an older value")
bug("C25-space-lines", "C25",
    [("ptypes.py", '''        elif self.outFormat == "s":
            return " ".join(str(i) for i in self._value)''',
      '''        elif self.outFormat == "s":
            return " ".join(str(i) for i in self._value if len(str(i)))''')],
    [("[1;u;2]", ["-s"]), ("[1;\"\";[];2]", ["-s"])],
    "-s and a list that holds nil, an empty text or an empty list",
    "the empty place is left out")
bug("C25-nil-output", "C25",
    [(E_, '''        """OUTPUT and then YANK rhs."""
        self.OUTPUT(rhs)
        return self.YANK(rhs)''', '''        """OUTPUT and then YANK rhs."""
        return self.YANK(self.STR(self.OUTPUT(rhs)))''')],
    [("YO[1;2];#y",), ("YO();y=u", ["-p"]), ("YO,3;RP y",)],
    "YO of something that is not a text",
    "y is the text that was printed, not the value")
bug("C26-index-nil", "C26",
    [(E_, '''                        except IndexError:
                            # This happens when one of the items is empty
                            pass
                    else:
                        self.err.warn(f"Cannot unpack {type(item)} value in "
                                      "FILTERUNPACK")''', '''                        except ValueError:
                            # This happens when one of the items is empty
                            pass
                    else:
                        self.err.warn(f"Cannot unpack {type(item)} value in "
                                      "FILTERUNPACK")''')],
    [("FU[[1;0];[];[2;0]]", ["-p"]), ("FU[\"\";\"12\"]", ["-p"])],
    "unary FU over items of which one is empty",
    "the interpreter crashes")
bug("C27-quote-join", "C27",
    [("pip.py", '''                        # Open quote
                        quote = char
                        buffer = buffer or ""''', '''                        # Open quote
                        quote = char
                        if buffer is not None:
                            argv.append(buffer)
                        buffer = ""''')],
    [(None, [], "-e P#g;g@0 a'b'\n\n"), (None, [], "-e P#g;g@0 'x'\"y\"\n")],
    "an argument string with a quote in the middle of a word",
    "the word becomes two arguments")
bug("C27-repl-comment", "C27",
    [("pip.py", '''            if code.startswith(";") and code[1:].strip():
                repl_command, *repl_cmd_args = code[1:].lower().split()''',
      '''            if code.strip().startswith(";") and code.strip()[1:]:
                repl_command, *repl_cmd_args = code.strip()[1:].lower().split()''')],
    [(None, ["-R"], "x:5\n  ;q\nx\n"), (None, ["-R"], " ;quit\n6\n")],
    "a comment line that starts with white space",
    "it is taken as a command")
