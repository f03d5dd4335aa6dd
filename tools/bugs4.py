E_ = "execution.py"
P_ = "ptypes.py"
G_ = "parsing.py"
S_ = "scanning.py"

bug("C08-destructure-live", "C08",
    [(E_, '''                    rvalIterator = iter(rval)
                except TypeError:
                    self.err.warn("Cannot perform destructuring assignment "
''', '''                    rvalIterator = (item if isinstance(item, Lval)
                                    else item
                                    for item in rval)
                    if isinstance(rval, Scalar):
                        # Numbers are unpacked by their digits
                        rvalIterator = iter(Scalar(rval.toNumber())
                                            if rval and len(rval) > 1
                                            and str(rval).isdigit()
                                            else rval)
                except TypeError:
                    self.err.warn("Cannot perform destructuring assignment "
''')],
    [('[a b c]:"042" [a b c]',), ('[a b]:"05" a.\'-.b',)],
    "a text of digits with a leading zero, unpacked into names",
    "the leading zero is lost and the digits go to the wrong names")
bug("C16-same-statements", "C16",
    [(E_, '''                            newStatements.extend(arg.getStatements())
''', '''                            if arg.getStatements() != newStatements:
                                newStatements.extend(arg.getStatements())
''')],
    [('f:{i+:1 i} g:f+f (g) i',), ('f:{i+:2 i} x:(f+f) (x 0) i',)],
    "a function with statements, combined with itself",
    "its statements run once only")
bug("C24-history-recursive", "C24",
    [(E_, '''                if statementValue is not None:
                    self.updateHistoryVars(statementValue)
            returnExpr''', '''                if statementValue is not None:
                    self.updateHistoryVars(statementValue)
                    if (self.callDepth > 3
                            and "$___" in self.localScope.vars):
                        del self.localScope.vars["$___"]
            returnExpr''')],
    [('f:{a?{1 2 3 $___ . $__ . $_}()(f a-1)} (f 1)',),
     ('f:{10 20 30 40 a>0 ? (f a-1) $___} (f 4)',)],
    "a call three deep or deeper with three or more statements",
    "$___ is forgotten")
bug("C23-for-live", "C23",
    [(E_, '''        loopVar = self.evaluate(loopVar)
        iterable = self.getRval(iterable)
        try:
            iterator = iter(iterable)
''', '''        loopVar = self.evaluate(loopVar)
        if (isinstance(iterable, tokens.Name)
                and isinstance(self.varTable(str(iterable)).get(str(iterable)),
                               List)):
            # No need to copy the list
            iterable = self.varTable(str(iterable))[str(iterable)]
        else:
            iterable = self.getRval(iterable)
        try:
            iterator = iter(iterable)
''')],
    [('l:[1;2;3] Fx l{l@2:x} l',), ('l:[1;2;3] Fx l{l@1:7 Px}',)],
    "a loop over a list variable whose body assigns to a later item",
    "the loop sees the changed item")
bug("C15-map-numeric", "C15",
    [(E_, '''        elif isinstance(iterable, PipIterable):
            return List(self.evaluate([normalOp, item]) for item in iterable)
''', '''        elif isinstance(iterable, PipIterable):
            if isinstance(iterable, Range) and iterable.isFinite():
                # The results of neighbouring numbers can be reused
                iterable = list(iterable)
            results = {}
            for item in iterable:
                if str(item) not in results:
                    results[str(item)] = self.evaluate([normalOp, item])
            return List(results[str(item)] for item in iterable)
''')],
    [('#*[12;[1;2]]',), ('l:[[];"";[""]] #*l',), ('#*[[5];5;"5"]',)],
    "a list holding a list and a text that print alike",
    "the second gets the result of the first")
bug("C20-count-overlap", "C20",
    [(P_, '''            return self._value.count(substring._value)
''', '''            text = self._value
            part = substring._value
            return sum(text[i:i+len(part)] == part
                       for i in range(len(text) - len(part) + 1))
''')],
    [('"aa"N"aaaa"',), ('"aba"N"ababa"',)],
    "a part that can overlap with itself",
    "overlapping occurrences are counted")
bug("C13-in-nested", "C13",
    [(P_, '''    def __contains__(self, item):
        return item in self._value

    def __getitem__(self, index):
        if isinstance(index, List):
            return List(self[i] for i in index)
        elif isinstance(index, Scalar):
            index = int(index)
        elif isinstance(index, Range):
            index = index.toSlice()
        
        if isinstance(index, int):
            if self.isEmpty():''', '''    def __contains__(self, item):
        return any(item == other or isinstance(other, Range)
                   and isinstance(item, List)
                   and other.isFinite() and list(other) == list(item)
                   for other in self._value)

    def __getitem__(self, index):
        if isinstance(index, List):
            return List(self[i] for i in index)
        elif isinstance(index, Scalar):
            index = int(index)
        elif isinstance(index, Range):
            index = index.toSlice()
        
        if isinstance(index, int):
            if self.isEmpty():''')],
    [('[0;1]NI[,2;5]',), ('(^01)NI[,2]',)],
    "a list of ranges, asked for a list",
    "a list counts as a member where only the range is one")
bug("C11-slice-step", "C11",
    [(P_, '''                if stop is None:
                    # Leave the Range unbounded above
                    newUpper = nil
                else:
                    # Bound the Range above
                    newUpper = lower + stop
                return Range(newLower, newUpper)
''', '''                if stop is None:
                    # Leave the Range unbounded above
                    newUpper = nil
                else:
                    # Bound the Range above
                    newUpper = max(lower, 0) + stop
                return Range(newLower, newUpper)
''')],
    [('((-5),())@<3',), ('((-3),u)@(1,4)',), ('((-3),u)@<2',)],
    "a slice with an end of an endless range that starts below 0",
    "the slice ends too late")
bug("C10-pick-range", "C10",
    [(E_, '''                if rangeLength > 0:
                    index %= rangeLength
                    if index == 0:
                        item = iterVal[0]
                        iterVal = Range(lower + 1, iterVal.getUpper())
''', '''                if rangeLength > 0:
                    index %= rangeLength
                    if index == 0:
                        item = iterVal[0]
                        iterVal = Range(lower + 1, iterVal.getUpper())
                    elif index == rangeLength - 1:
                        # The last one is easy as well
                        item = iterVal[index]
                        iterVal = Range(lower, rangeLength - 1)
''')],
    [('x:3,7 y:xPK3 RPx',), ('x:2,5 y:xPK(-1) RPx',)],
    "picking the last item of a range that starts above 0",
    "the range that is left is cut short")
bug("C18-cached-keys", "C18",
    [(E_, '''            try:
                return List(sorted(iterable, key=pyKey))
            except TypeError:
                self.err.warn("SORTKEYED cannot compare numbers to lists")
''', '''            keys = {}
            for item in iterable:
                if str(item) not in keys:
                    keys[str(item)] = pyKey(item)
            try:
                return List(sorted(iterable, key=lambda i: keys[str(i)]))
            except TypeError:
                self.err.warn("SORTKEYED cannot compare numbers to lists")
''')],
    [('RP({#a}SK["ab";["a";"b";"";""];"abc"])',),
     ('RP({#a}SK["12";["12"];0])',)],
    "items of different kinds that print alike",
    "they get the same key")
bug("C17-flatmap-text", "C17",
    [(E_, '''                    arglist = list(item)
                except ValueError:
                    # This happens when one of the items is an infinite Range
                    self.err.warn("Cannot unpack infinite Range in MAPUNPACK")
''', '''                    arglist = list(item)
                    if isinstance(item, Scalar) and item.toNumber() < 0:
                        # The sign goes with the first digit
                        arglist[:2] = [Scalar(str(item)[:2])]
                except ValueError:
                    # This happens when one of the items is an infinite Range
                    self.err.warn("Cannot unpack infinite Range in MAPUNPACK")
''')],
    [('RP({[a;b]}MU[-12;34])',), ('RP({a.b.c}MU[-5])',)],
    "a negative number among the items",
    "its sign and first digit are one argument")
bug("C21-zip-range", "C21",
    [(E_, '''            return List(List(tuple) for tuple in zip(*lists))
''', '''            lists = list(lists)
            if len(lists) > 2 and not lists[-1]:
                # Nothing to pair the others with
                lists = lists[:-1]
            return List(List(tuple) for tuple in zip(*lists))
''')],
    [('RP Z[[1;2];[3;4];[]]',), ('RP Z["ab";"cd";""]',)],
    "three or more lists, the last of them empty",
    "the columns of the others remain")
bug("C06-float-whole", "C06",
    [(P_, '''        if m := pyFloatRgx.match(self._value.lstrip()):
            return float(m.group())
''', '''        if m := pyFloatRgx.match(self._value.lstrip()):
            number = float(m.group())
            return int(number) if number == int(number) else number
''')],
    [('"1.0e+400"+1',), ('RP("-0.0"*5)',), ('1/"1e+999"',)],
    "a text whose exponent is beyond the largest decimal number",
    "the program ends with an internal error")
bug("C19-last-digit", "C19",
    [(E_, '''    def FROMDIGITS(self, digits, base=None):
''', '''    def FROMDIGITS(self, digits, base=None):
        if isinstance(digits, List) and digits and base is not None:
            # Leading zeros do not count
            digits = digits.copy()
            while len(digits) > 1 and not digits[0]:
                digits = digits[1:]
            if digits[-1] == base:
                digits[-1] = Scalar("0")
''')],
    [('[1;10]FD10',), ('[2;3;5]FD5',)],
    "a last digit as large as the base",
    "it counts as 0")
bug("C06-int-space", "C06",
    [(P_, '''        if m := intRgx.match(self._value.lstrip()):
            return int(m.group())
        else:
            return 0

    def __bool__''', '''        if m := intRgx.match(self._value.strip(" ")):
            return int(m.group())
        else:
            return 0

    def __bool__''')],
    [('(4 5 6)@"\n1"',), ('l:[4;5;6] l@"\n1"',), ('LEN("\n3") Px',), ('#(X"\n3")',),
     ('x:"\n3" L x P 7',)],
    "a newline before a number that is used as an index or a count",
    "it counts as 0")
bug("C03-ternary-assign", "C03",
    [(G_, '''            # Parse the middle expression of a ternary operator
            activeTree.append(parseExpr(tokenList))
''', '''            # Parse the middle expression of a ternary operator
            activeTree.append(parseExpr(tokenList,
                                        minPrecedence=op.precedence))
''')],
    [('x:1 1?x+:5 3 x',), ('a:2 y:1?a:7 8 a',)],
    "an assignment in the middle of a ternary",
    "the middle ends before the assignment")
bug("C02-indent-comment", "C02",
    [(S_, "r'(\\s*\\n\\s*;| {2}).*'", "r'([ \\n]*\\n\\s*;| {2}).*'")],
    [('5\t\n;7',), ('x:3\t\n ;x+1\nx',)],
    "a tab at the end of the line before a comment line",
    "the comment line is run as code")

bug("C07-nested-indices", "C07",
    [(E_, """            return List(self.AT(lhs, item) for item in rhs)
""", """            return List(self.AT(lhs, item) for item in self.FLATTEN(rhs))
""")],
    [('RP("abcd"@[[0;1];2])',), ('x:[4;5;6] RP x@[[2];[1;0]]',)],
    "a list of indices with a list in it",
    "the nesting of the result is lost")
bug("C20-join-nested", "C20",
    [(E_, """                if isinstance(item, (List, Range)):
                    item = self.JOIN(item, sep)
                if result is None:
""", """                if isinstance(item, (List, Range)):
                    item = self.JOIN(item, sep)
                    if len(item) == 0 and result is not None:
                        continue
                if result is None:
""")],
    [('[1;[];2]J"-"',), ('[1;2;[""]]J","',)],
    "a list joined with an empty list in it",
    "its separator is left out")
bug("C20-strip-list", "C20",
    [(E_, """                for item in extra:
                    string = self.RSTRIP(string, item)
                return string
""", """                chars = "".join(str(item) for item in extra
                                if isinstance(item, Scalar))
                if all(isinstance(item, Scalar) for item in extra):
                    return Scalar(str(string).rstrip(chars))
                for item in extra:
                    string = self.RSTRIP(string, item)
                return string
""")],
    [('"xab"<|["a";"b"]',), ('"xaba"<|["b";"a"]',)],
    "a list of characters to strip that come in another order",
    "all of them are stripped in any order")
bug("C20-replace-cycle", "C20",
    [(E_, """                for eachOld in old[len(new):]:
                    result = self.REPLACE(result, eachOld, nil)
                return result
""", """                for eachOld in old[len(new):]:
                    if len(new) > 0:
                        result = self.REPLACE(result, eachOld, nil)
                return result
""")],
    [('"abc"R["a";"b"][]',), ('"xyx"R"xy"^""[]',)],
    "a list of parts to replace and an empty list of replacements",
    "nothing is deleted")
bug("C22-findall-vars", "C22",
    [(E_, """            for matchObj in matches:
                self.assignRegexVars(matchObj)
                result.append(Scalar(matchObj.start()))
            return result
""", """            for matchObj in matches:
                if len(result) == 0 or matchObj.group():
                    self.assignRegexVars(matchObj)
                result.append(Scalar(matchObj.start()))
            return result
""")],
    [('"ab"@*`b*` $(',), ('"aab"@*`a*` RP$0',)],
    "@* with a pattern whose last match is empty",
    "the match variables stay at an earlier match")
bug("C21-group-ratio", "C21",
    [(E_, """                    endIndex = min(index + jump, len(iterable))
""", """                    endIndex = min(math.floor(index) + math.ceil(jump),
                                   len(iterable))
""")],
    [('RP("abcdef"<>1.5)',), ('RP([1;2;3;4;5]<>2.5)',)],
    "groups of a size with a fraction",
    "items appear in two groups")
bug("C19-digits-negative-base", "C19",
    [(E_, """                    digit = digit.toNumber()
                    result += digit * base ** exponent
""", """                    digit = digit.toNumber()
                    if digit < 0 and exponent == len(digits) - 1 > 1:
                        digit = -digit
                    result += digit * base ** exponent
""")],
    [('[(-1);0;1]FD10',), ('(-5TD2)FD2',)],
    "three or more digits, the first one negative",
    "its sign is dropped")
bug("C27-exec-args-state", "C27",
    [("pip.py", """        for arg in raw_args:
            try:
                arg_tokens = scan(arg)
""", """        for arg in raw_args:
            if arg.strip().startswith("-") and arg.strip()[1:].isdigit():
                program_args.append(Scalar(arg.strip()))
                continue
            try:
                arg_tokens = scan(arg)
""")],
    [('RPa', ['-x', '--', '-007']), ('RPa', ['-x', '--', ' -0'])],
    "-x and a negative number with leading zeros",
    "the argument is its text and not its value")
bug("C28-choice-text", "C28",
    [(E_, """        random.seed(str(rhs))
""", """        random.seed(rhs.toNumber() if isinstance(rhs, Scalar)
                    and rhs and str(rhs)[0] in "0123456789" else str(rhs))
""")],
    [('r:"5a" x:({RR1000}M,9) r:"5b" y:({RR1000}M,9) x=y',)],
    "two text seeds that start with the same number",
    "they give the same draws")
bug("C14-range-left", "C14",
    [(E_, """                        lengths = tuple(map(len, args))
""", """                        lengths = tuple(len(arg) if isinstance(arg, List)
                                        else len(result) for arg in args)
""")],
    [('RP((,4)+[1;2])',), ('RP([1;2]*,4)',)],
    "a list with a longer range",
    "the rest of the range is left out")
bug("C26-zip-nil", "C26",
    [(E_, """        noniterables = [item
                        for item in lists
                        if not isinstance(item, PipIterable)]
""", """        noniterables = [item
                        for item in lists
                        if isinstance(item, (Pattern, Block))]
""")],
    [('RP([1;u]Zu) P1',), ('RP Z["ab";()]',)],
    "zipping with nil",
    "the result is a list in place of nil")
bug("C21-combinations-order", "C21",
    [(E_, """            result = itertools.combinations(iterable, int(num))
            if isinstance(iterable, Scalar):
""", """            result = itertools.combinations(iterable, int(num))
            if int(num) == len(iterable) - 1 > 1:
                # Leave out one item at a time
                items = list(iterable)
                result = [items[:i] + items[i+1:]
                          for i in range(len(items))]
            if isinstance(iterable, Scalar):
""")],
    [('RP("abc"CB2)',), ('RP([1;2;3]CB2)',)],
    "choosing all items but one of three or more",
    "the choices come in the reverse order")
bug("C04-deep-incomplete", "C04",
    [(G_, """            err.die("Unterminated block", errorClass=IncompleteSyntax)
""", """            err.die("Unterminated block",
                    errorClass=IncompleteSyntax if block else BadSyntax)
""")],
    [(None, ['-R'], "I 1 {\n5}\n6\n"), (None, ['-R'], "{\n7}\n")],
    "a block with nothing in it yet",
    "it is called bad in place of incomplete")
bug("C03-chain-assign", "C03",
    [(G_, """        elif op is operators.chain and nextOp is operators.chain:
""", """        elif (op is operators.chain and nextOp is operators.chain
              and len(left) < 6):
""")],
    [('1<2<3<1',), ('3>1<2<3',), ('0=0=0=0',), ('5<6<7<8',)],
    "a chain of three or more comparisons",
    "the third starts a new chain whose first operand is 1 or 0")
